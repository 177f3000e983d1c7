------------------------------- MODULE MC_Show -------------------------------
(* C31: cells of every shading, merged and nested; lists of every format at   *)
(* every level, with and without levels left out.                             *)
EXTENDS MC1Base

Fills == {"", "auto", "D9D9D9", "ffffff", "FFFFFF", "00b0F0", "00B0f0", "fff", "123456", "123457", "AB"}
Forms == {"wide", "merged", "nested"}
Kinds == {"decimal", "lowerLetter", "lowerRoman", "upperRoman", "bullet"}
Levels == (SeqsUpTo(0..2, 3) \ {<<>>}) \cup {<<0, 1, 2, 1>>, <<0, 1, 2, 0>>, <<0, 1, 0, 1>>, <<0, 2, 1, 2>>, <<1, 0, 1, 2>>}
ShowChoices == [kind : {"cells"}, a : Fills, b : Fills, c : Fills, form : Forms]
               \cup [kind : {"lists"}, l1 : Kinds, l2 : Kinds, l3 : IF Thorough THEN Kinds ELSE {"decimal", "lowerRoman", "bullet"}, s : Levels, twice : IF Thorough THEN BOOLEAN ELSE {FALSE}]
               \cup [kind : {"lists"}, l1 : {"bullet", "lowerLetter"}, l2 : Kinds, l3 : {"bullet"}, s : Levels, twice : {TRUE}]

Filled(tc, f) == [tc EXCEPT !.fill = IF f = "" THEN <<>> ELSE <<T(f)>>]
Word(j) == T("w") \o N2T(j)
LvOf(k) == [f |-> k, x |-> IF k = "bullet" THEN T("o") ELSE T("%1.")]
Item(num, l, j) == ListP(<<num>>, IF l = 0 /\ j % 2 = 0 THEN <<>> ELSE <<l>>, <<R(Word(j))>>)
CellsDoc(c) ==
  LET a == Filled(Tc(<<P(T("a"))>>), c.a)
      b == Filled(Tc(<<P(T("b"))>>), c.b)
      d == Filled(Tc(<<P(T("c"))>>), c.c)
  IN CASE c.form = "wide" -> Tbl(<<Tr(<<[a EXCEPT !.span = <<2>>]>>), Tr(<<b, d>>)>>)
       [] c.form = "merged" -> Tbl(<<Tr(<<[a EXCEPT !.vm = "restart"], b>>), Tr(<<[d EXCEPT !.vm = ""], a>>)>>)
       [] c.form = "nested" -> Tbl(<<Tr(<<a, [b EXCEPT !.k = <<Tbl(<<Tr(<<d>>)>>)>>]>>)>>)
ListsDoc(c) ==
  Tbl(<<Tr(<<Tc([j \in 1..Len(c.s) |-> Item(1, c.s[j], j)] \o (IF c.twice THEN <<Item(2, 0, 90), Item(2, 1, 91)>> ELSE <<>>))>>)>>)
ShowBuild(c) ==
  [DocWith(<<IF c.kind = "cells" THEN CellsDoc(c) ELSE ListsDoc(c)>>) EXCEPT
     !.hasnum = c.kind = "lists",
     !.nums = IF c.kind = "cells" THEN <<>> ELSE <<[id |-> 1, abs |-> 4], [id |-> 2, abs |-> 7]>>,
     !.abss = IF c.kind = "cells" THEN <<>> ELSE <<[id |-> 7, lvls |-> <<LvOf("lowerLetter"), LvOf("lowerRoman"), LvOf("bullet")>>],
                                                   [id |-> 4, lvls |-> <<LvOf(c.l1), LvOf(c.l2), LvOf(c.l3)>>]>>]

(* ---- the property, from the choice ---- *)
Want(f) == IF f \in {"D9D9D9", "00b0F0", "00B0f0", "123456", "123457"} THEN Lower(T(f)) ELSE None
CellsOf(c) == CASE c.form = "wide" -> <<c.a, c.b, c.c>> [] c.form = "merged" -> <<c.a, c.b, c.a>> [] OTHER -> <<c.a, c.b, c.c>>
C31cells == (Over1(machine) /\ choice.kind = "cells") =>
  LET cs == Only(machine.ev, {"cell"})
      w == CellsOf(choice)
  IN /\ Len(cs) = 3
     /\ \A j \in 1..3 : cs[j].k = Want(w[j])

KindAt(c, l) == CASE l = 0 -> c.l1 [] l = 1 -> c.l2 [] OTHER -> c.l3
Bullet(c, l) == KindAt(c, l) = "bullet"
MarkerOf(c, l) == CASE KindAt(c, l) = "decimal" -> "decimal" [] KindAt(c, l) = "lowerLetter" -> "lower-alpha" [] KindAt(c, l) = "lowerRoman" -> "lower-roman"
                    [] KindAt(c, l) = "upperRoman" -> "?" [] OTHER -> <<"disc", "circle", "disc">>[l + 1]
(* the markers of the lists around each text *)
RECURSIVE Marked(_, _, _, _)
Marked(ev, j, open, acc) ==
  IF j > Len(ev) THEN acc
  ELSE CASE ev[j].e = "list" -> Marked(ev, j + 1, Append(open, ev[j].k), acc)
         [] ev[j].e = "/list" -> Marked(ev, j + 1, SubSeq(open, 1, Len(open) - 1), acc)
         [] ev[j].e = "text" -> Marked(ev, j + 1, open, Append(acc, open))
         [] OTHER -> Marked(ev, j + 1, open, acc)
C31lists == (Over1(machine) /\ choice.kind = "lists") =>
  LET at == Marked(machine.ev, 1, <<>>, <<>>)
      n == Len(choice.s)
  IN /\ Len(at) = n + (IF choice.twice THEN 2 ELSE 0)
     /\ \A j \in 1..n :
          LET l == choice.s[j]
              kin == \A h \in 0..l : Bullet(choice, h) = Bullet(choice, l)
          IN (Len(at[j]) = l + 1 /\ kin /\ MarkerOf(choice, l) /= "?") => at[j][l + 1] = T(MarkerOf(choice, l))
     (* the other list has its own *)
     /\ choice.twice => at[n + 1] = <<T("lower-alpha")>> /\ at[n + 2] = <<T("lower-alpha"), T("lower-roman")>>
=============================================================================
