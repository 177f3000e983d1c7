------------------------------- MODULE MC_Whole -------------------------------
(* C22: figures in docx form, converted by the machine of Stage1; the machine *)
(* of Stage2 runs on the outcome.  The figures of the model are those of the  *)
(* docx tables.                                                               *)
EXTENDS MCBase

Kinds == {"bits", "bytes", "values"}
Sorts == {"plain", "tall", "wide", "nested", "list", "split", "parts"}
Heads == {"grey", "two"}            \* the heading row is shaded; also another shade of grey
Names == {"yes", "split", "no", "late"}
MaxRows == IF Thorough THEN 3 ELSE 2
(* more: a second figure follows; ends: what a figure's last row may be *)
Ends1 == {"nothing", "failing", "innerfail"}
WholeChoices == [kind : Kinds, rows : SeqsUpTo(Sorts, MaxRows), head : Heads, name : {"yes"}, skip : {TRUE}, last : {"nothing"}, more : {FALSE}]
                \cup [kind : Kinds, rows : SeqsUpTo(Sorts, 1), head : Heads, name : Names, skip : {TRUE}, last : {"nothing"}, more : BOOLEAN]
                \cup [kind : {"bits"}, rows : [1..3 -> {"plain", "tall", "nested"}], head : {"grey"}, name : {"yes"}, skip : {TRUE}, last : {"nothing"}, more : {FALSE}]
                \cup [kind : Kinds, rows : SeqsUpTo({"plain", "nested"}, 1), head : {"grey"}, name : {"yes"}, skip : BOOLEAN, last : Ends1, more : BOOLEAN]

(* ---- docx ---- *)
Tx(x) == [g |-> "t", x |-> x, k |-> <<>>]
R(x) == [g |-> "r", f |-> <<>>, k |-> <<Tx(x)>>]
Bold(x) == [g |-> "r", f |-> <<[b |-> "", i |-> "-", s |-> "-", u |-> "-", va |-> "-", col |-> None, st |-> None]>>, k |-> <<Tx(x)>>]
Para(ks) == [g |-> "p", num |-> <<>>, lvl |-> <<>>, k |-> ks]
Pd(x) == Para(<<R(x)>>)
ListP(x) == [g |-> "p", num |-> <<1>>, lvl |-> <<0>>, k |-> <<R(x)>>]
Tc(ks) == [g |-> "tc", span |-> <<>>, vm |-> "-", fill |-> <<>>, k |-> ks]
Shade(c, f) == [c EXCEPT !.fill = <<T(f)>>]
Across(c, n) == [c EXCEPT !.span = <<n>>]
Upper1(c) == [c EXCEPT !.vm = "restart"]
Lower1(c) == [c EXCEPT !.vm = ""]
Row(cells) == [g |-> "tr", k |-> cells]
Tbl(rows) == [g |-> "tbl", k |-> rows]

(* a value or range, and a label and text, different for each row *)
Rng(c, j, h) == N2T(10 * (IF c.kind = "bits" THEN Len(c.rows) + 1 - j ELSE j) + (IF c.kind = "bits" THEN 2 - h ELSE h))
Lab(j, h) == T("AB") \o N2T(10 * j + h)
LabText(c, j, h) == IF c.kind = "values" THEN Lab(j, h) ELSE T("Name (") \o Lab(j, h) \o T(")")
Desc(c, j, h) == LabText(c, j, h) \o T(": brief ") \o N2T(10 * j + h)
Inner(j) == Tbl(<<Row(<<Shade(Tc(<<Pd(T("Value"))>>), "D9D9D9"), Shade(Tc(<<Pd(T("Definition"))>>), "D9D9D9")>>),
                  Row(<<Tc(<<Pd(N2T(j) \o T("h"))>>), Tc(<<Pd(T("Inner ") \o Lab(j, 5))>>)>>)>>)
RowsOfSort(c, j) ==
  LET s == c.rows[j]
      r1 == Tc(<<Pd(Rng(c, j, 1))>>)
      d1 == Pd(Desc(c, j, 1))
  IN CASE s = "plain" -> <<Row(<<r1, Tc(<<d1>>)>>)>>
       [] s = "tall" -> <<Row(<<r1, Upper1(Tc(<<d1>>))>>), Row(<<Tc(<<Pd(Rng(c, j, 2))>>), Lower1(Tc(<<Para(<<>>)>>))>>)>>
       [] s = "wide" -> <<Row(<<Across(Tc(<<Pd(T("A remark"))>>), 2)>>)>>
       [] s = "nested" -> <<Row(<<r1, Tc(<<d1, Inner(j), Para(<<>>)>>)>>)>>
       [] s = "list" -> <<Row(<<r1, Tc(<<d1, ListP(T("one")), ListP(T("two"))>>)>>)>>
       [] s = "split" -> <<Row(<<Tc(<<Para(<<R(SubSeq(Rng(c, j, 1), 1, 1)), Bold(From(Rng(c, j, 1), 2))>>)>>),
                                 Tc(<<Para(<<Bold(SubSeq(Desc(c, j, 1), 1, 9)), [g |-> "link", k |-> <<R(From(Desc(c, j, 1), 10))>>]>>)>>)>>)>>
       [] s = "parts" -> <<Row(<<r1, Tc(<<Para(<<>>), Pd(LabText(c, j, 1) \o T(":")), Pd(T("brief ") \o N2T(10 * j + 1))>>)>>)>>
Title(c) == CASE c.name = "no" -> T("Table 5") [] OTHER -> T("Figure 5: Some figure")
TitleRow(c) ==
  LET x == Title(c)
  IN Row(<<Across(Tc(CASE c.name = "split" -> <<Para(<<R(SubSeq(x, 1, 3)), Bold(SubSeq(x, 4, 8)), R(From(x, 9))>>)>>
                       [] c.name = "late" -> <<Para(<<>>), Pd(x)>> [] OTHER -> <<Pd(x)>>), 2)>>)
(* a figure with a row too short for its labels fails, and so does one with such a table in a cell *)
LastRow(c) == LET j == Len(c.rows) + 1
                  short == Tc(<<Pd(N2T(0))>>)
              IN CASE c.last = "nothing" -> <<>>
                   [] c.last = "failing" -> <<Row(<<short, Tc(<<Inner(j), Para(<<>>)>>)>>)>>
                   [] c.last = "innerfail" -> <<Row(<<short, Tc(<<Pd(T("Last: x")), Tbl(<<Row(<<Shade(Tc(<<Pd(T("Bits"))>>), "D9D9D9"), Shade(Tc(<<Pd(T("Description"))>>), "D9D9D9")>>),
                                                                                         Row(<<short, Tc(<<Inner(j), Para(<<>>)>>)>>)>>), Para(<<>>)>>)>>)>>
More(c) == IF c.more THEN <<Tbl(<<Row(<<Across(Tc(<<Pd(T("Figure 6: Next"))>>), 2)>>), Row(<<Shade(Tc(<<Pd(T("Value"))>>), "D9D9D9"), Shade(Tc(<<Pd(T("Description"))>>), "D9D9D9")>>),
                                   Row(<<Tc(<<Pd(T("1h"))>>), Tc(<<Pd(T("One: x"))>>)>>)>>)>> ELSE <<>>
HeadingRow(c) ==
  LET k == CASE c.kind = "bits" -> "Bits" [] c.kind = "bytes" -> "Bytes" [] OTHER -> "Value"
  IN Row(<<Shade(Tc(<<Pd(T(k))>>), "D9D9D9"), Shade(Tc(<<Pd(T("Description"))>>), IF c.head = "two" THEN "bfbfbf" ELSE "D9D9D9")>>)
WholeDoc(c) ==
  [hdr |-> <<T("Some Spec, Revision 1.0")>>, hasnum |-> TRUE, nums |-> <<[id |-> 1, abs |-> 1]>>,
   abss |-> <<[id |-> 1, lvls |-> <<[f |-> "decimal", x |-> T("%1")]>>]>>, sts |-> <<>>,
   body |-> <<Pd(T("outside")), Tbl(<<TitleRow(c), HeadingRow(c)>> \o Flat([j \in 1..Len(c.rows) |-> RowsOfSort(c, j)]) \o LastRow(c)), Pd(T("outside"))>> \o More(c)]
Itself(d) == d
S1 == INSTANCE Stage1 WITH Docx <- Itself       \* documents are named by themselves

(* ---- the HTML model as a tree: elements on lines of their own, indented ---- *)
Nl(n) == <<10>> \o [j \in 1..n |-> 32]
Tag(v) == CASE v.e \in {"cell", "list"} -> v.t [] v.e = "text" -> "span" [] OTHER -> v.e
Closing(v) == v.e \in {"/table", "/tr", "/cell", "/p", "/list", "/li"}
Ends(ks, level) ==      \* children with the white space that follows them
  [j \in 1..Len(ks) |-> [ks[j] EXCEPT !.z = IF j = Len(ks) THEN Nl(level) ELSE IF ks[j].t = "span" THEN <<>> ELSE Nl(level + 1)]]
RECURSIVE Kids1(_, _, _, _)
(* children from event j on, and the event after the end of their element *)
Kids1(ev, j, level, acc) ==
  IF j > Len(ev) \/ Closing(ev[j]) THEN [k |-> acc, j |-> j + 1]
  ELSE LET v == ev[j]
           base == [t |-> Tag(v), x |-> <<>>, k |-> <<>>, z |-> <<>>, cs |-> IF v.c = 0 THEN 1 ELSE v.c, rs |-> IF v.r = 0 THEN 1 ELSE v.r,
                    hc |-> v.c > 1, id |-> IF v.e = "table" THEN v.x ELSE None]
       IN IF v.e = "text" THEN Kids1(ev, j + 1, level, Append(acc, [base EXCEPT !.x = v.x]))
          ELSE LET s == TLCEval(Kids1(ev, j + 1, level + 1, <<>>))
               IN Kids1(ev, s.j, level, Append(acc, [base EXCEPT !.k = TLCEval(Ends(s.k, level + 1)), !.x = IF s.k = <<>> THEN Nl(level + 1) ELSE Nl(level + 2)]))
WholeBuild(c) ==
  LET d == TLCEval(WholeDoc(c))
      ev == TLCEval(S1!RunOn(S1!Begin(d)).ev)
      ks == TLCEval(Kids1(ev, 1, 0, <<>>).k)
  IN [title |-> Lower(S1!TitleOf(d)), rev |-> Lower(S1!RevisionOf(d)),
      body |-> [t |-> "body", x |-> Nl(1), k |-> Ends(ks, 0), z |-> <<>>, cs |-> 1, rs |-> 1, hc |-> FALSE, id |-> None]]

ExportWhole ==
  Ended(machine) =>
    PrintT("D " \o ToJson([doc |-> WholeDoc(choice), skip |-> choice.skip, exit |-> IF machine.pc = "done" THEN 0 ELSE 1,
                           out |-> machine.out, lint |-> machine.lint, cov |-> Listing(machine.cov)]))

(* ---- the model's figures are those of the docx ---- *)
Titled(c) == c.name /= "no"
Fails(c) == Titled(c) /\ c.last /= "nothing"
Fig5(c) == Titled(c) /\ ~Fails(c)
Wanted(c) == Flat([j \in 1..Len(c.rows) |->
               CASE c.rows[j] = "wide" -> <<>>
                 [] c.rows[j] = "tall" -> <<<<Rng(c, j, 1), Lab(j, 1)>>, <<Rng(c, j, 2), Lab(j, 1)>>>>
                 [] OTHER -> <<<<Rng(c, j, 1), Lab(j, 1)>>>>])
Order(c, s) == IF c.kind = "bits" THEN Reverse(s) ELSE s
(* a failing figure ends the run, or leaves itself out *)
C22ends == Ended(machine) => (machine.pc = "abort" <=> Fails(choice) /\ ~choice.skip)
C22figures == machine.pc = "done" =>
  LET top == Filter(machine.out, LAMBDA e : IsNone(e.par))
      fives == Filter(top, LAMBDA e : e.id = T("5"))
      ins == Filter(machine.out, LAMBDA e : ~IsNone(e.par))
      ns == Filter([j \in 1..Len(choice.rows) |-> j], LAMBDA j : choice.rows[j] = "nested")
  IN /\ Fig5(choice) => Len(fives) = 1 /\ fives[1].type = choice.kind /\ fives[1].title = Title(choice)
     /\ ~Fig5(choice) => fives = <<>>
     /\ Len(top) - Len(fives) = IF choice.more THEN 1 ELSE 0
     /\ choice.more => top[Len(top)].id = T("6") /\ Len(top[Len(top)].fields) = 1
     /\ Len(ins) = IF Titled(choice) THEN Len(ns) ELSE 0
     /\ \A h \in 1..Len(ins) : ins[h].type = "values" /\ ins[h].par = T("5") /\ Len(ins[h].fields) = 1
     /\ Cardinality({h \in 1..Len(machine.lint) : machine.lint[h].code = "T1000"}) = IF Fails(choice) THEN 1 ELSE 0
C22fields == machine.pc = "done" =>
  LET fives == Filter(machine.out, LAMBDA e : IsNone(e.par) /\ e.id = T("5"))
      w == Order(choice, Wanted(choice))
  IN Len(fives) = 1 =>
       /\ Len(fives[1].fields) = Len(w)
       /\ \A h \in 1..Len(w) : LET f == fives[1].fields[h] IN RowKey(f.rng) = w[h][1] /\ Lower(f.label) = Lower(w[h][2])
=============================================================================
