------------------------------- MODULE MC_Head -------------------------------
(* C20: headers that name specification and revision in several ways and are  *)
(* split into texts at any place; first cells that name a figure or not, in   *)
(* every shade and position.                                                  *)
EXTENDS MC1Base

Titles == {"", "Spec", " A & <B> ", "x\"y'z", "Revision"}
Seps == {"", ",", ", ", " ", ",,"}
Revs == {"", "Revision 1.0", "revision  2.0c ", "REVISION 3", "Revision", "Revision ", "Revision 1 revision 2", "Revision 2, ratified", "Revision\"<4"}
HeadA == UNION {[kind : {"head"}, title : {t}, sep : {s}, rev : {r}, cut : 0..(IF Thorough THEN 12 ELSE 4)] : t \in Titles, s \in Seps, r \in Revs}
Pres == {"Figure ", "figure ", " Figure ", "Figure", "FIGURE ", "Figure  "}
Nums == {"1", "12", "007", "A", "", "1.2"}
Ends == {":", ": X", " :", "", "-a: x", ": Figure 2:"}
Places == {"first", "split", "link", "after-empty", "after-other", "second", "list", "nested", "after-table"}
Fills == {"", "auto", "D9D9D9", "d9d9d9", "d9D9D9", "FFFFFF", "ffffff", "FFFF00", "000000", "D9D9D", "FEFEFE", "AABBAA"}
HeadB == [kind : {"table"}, pre : Pres, num : Nums, end : Ends, place : {"first", "split"}, fill : {"", "D9D9D9"}]
         \cup [kind : {"table"}, pre : {"Figure ", "figure "}, num : {"1", "12"}, end : {":", ": X"}, place : Places, fill : Fills]
HeadChoices == HeadA \cup HeadB

Full(c) == T(c.title) \o T(c.sep) \o T(c.rev)
Cut(x, n) == LET k == IF n > Len(x) THEN Len(x) ELSE n IN <<SubSeq(x, 1, k), From(x, k + 1)>>
Title(c) == T(c.pre) \o T(c.num) \o T(c.end)
Inner(c) ==
  LET x == Title(c)
      h == Cut(x, 4)
      t == Tbl(<<Tr(<<Tc(<<P(x)>>)>>)>>)
  IN CASE c.place = "first" -> <<P(x), P(T("more"))>>
       [] c.place = "split" -> <<Para(<<R(h[1]), OtherNode(<<>>), R(h[2])>>)>>
       [] c.place = "link" -> <<Para(<<Link(<<R(h[1])>>), Fld(<<R(h[2])>>)>>)>>
       [] c.place = "after-empty" -> <<Para(<<>>), Para(<<R(<<>>)>>), P(x)>>
       [] c.place = "after-other" -> <<OtherNode(<<>>), P(x)>>
       [] c.place = "second" -> <<P(T("text")), P(x)>>
       [] c.place = "list" -> <<ListP(<<1>>, <<0>>, <<R(x)>>)>>
       [] c.place = "nested" -> <<t, P(T("text"))>>
       [] c.place = "after-table" -> <<t, P(x)>>
HeadBuild(c) ==
  [DocWith(IF c.kind = "head" THEN <<>>
           ELSE <<Tbl(<<Tr(<<[Tc(Inner(c)) EXCEPT !.fill = IF c.fill = "" THEN <<>> ELSE <<T(c.fill)>>], Tc(<<P(Title(c))>>)>>),
                        Tr(<<Tc(<<P(Title(c))>>), [Tc(<<>>) EXCEPT !.fill = <<T("BFBFBF")>>]>>)>>)>>)
     EXCEPT !.hdr = IF c.kind = "head" THEN Cut(Full(c), c.cut) ELSE <<T("spec, Revision 1.0")>>,
            !.hasnum = TRUE, !.nums = <<[id |-> 1, abs |-> 0]>>, !.abss = <<[id |-> 0, lvls |-> <<[f |-> "decimal", x |-> T("%1")]>>]>>]

(* ---- title and revision ---- *)
WantRev(c) == CASE c.rev = "Revision 1.0" -> T("1.0") [] c.rev = "revision  2.0c " -> T("2.0c") [] c.rev = "Revision 1 revision 2" -> T("2")
                [] c.rev = "Revision 2, ratified" -> T("2,") [] c.rev = "Revision\"<4" -> None [] OTHER -> None
(* (a title of "Revision" is followed by what may be taken for its number) *)
C20head == (choice.kind = "head" /\ choice.title /= "Revision") =>
  /\ RevisionOf(choice) = WantRev(choice)
  /\ choice.sep \in {",", ", ", ",,"} => TitleOf(choice) = Strip(T(choice.title))
(* ---- ids and header cells ---- *)
Named(c) == c.pre = "Figure " /\ c.num \in {"1", "12", "007"} /\ c.end \in {":", ": X", ": Figure 2:"}
Grey6(f) == f \in {"D9D9D9", "d9d9d9", "000000", "FEFEFE"}     \* d9D9D9: no two digits alike
Cells(ev) == Only(ev, {"cell"})
TopId(ev) == ev[1].x
C20id == (Over1(machine) /\ choice.kind = "table") =>
  LET id == IF Named(choice) THEN T(choice.num) ELSE None
      first == choice.place \in {"first", "split", "link", "after-empty", "after-other"}
  IN TopId(machine.ev) = IF first /\ ~Grey6(choice.fill) THEN id ELSE None
C20cells == (Over1(machine) /\ choice.kind = "table") =>
  LET cs == Cells(machine.ev)
  IN /\ cs[1].t = (IF Grey6(choice.fill) THEN "th" ELSE "td")
     /\ cs[Len(cs)].t = "th" /\ cs[Len(cs) - 1].t = "td"
=============================================================================
