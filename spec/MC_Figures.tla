----------------------------- MODULE MC_Figures -----------------------------
(* Sequences of top-level tables of every sort: C01, C02 *)
EXTENDS MCBase

Sorts == {"good", "nested", "bad", "badnested", "unsupported", "noid", "untitled", "norows", "wrapped", "dup", "cells"}
MaxTables == IF Thorough THEN 4 ELSE 3
FigChoices == [tables : SeqsUpTo(Sorts, MaxTables), skip : BOOLEAN]

GoodRows(n) == <<Tr(<<Td(T("1:0")), Td(T("Foo Bar (FB): brief ") \o N2T(n))>>), Tr(<<Td(T("3")), Td(T("Foo"))>>)>>
ShortRow2 == Tr(<<Td(T("1")), Tr(<<>>)>>)
BadRow == Tr(<<Td(T("7:4")), Node("td", T("no paragraph"), <<>>)>>)
ValRows == <<Tr(<<Td(T("0h")), Td(T("Zero: a"))>>)>>
Sub(rows) == Table(<<HdrRow(ValueHdr)>> \o rows)
TableOf(sort, j) ==
  LET id == N2T(j)
  IN CASE sort = "good" -> Figure(id, BytesHdr, GoodRows(j))
       [] sort = "cells" -> Table(<<Tr(<<Td(T("Figure ")), Node("th", <<>>, <<P(id), P(T(": "))>>), Td(T("X"))>>), HdrRow(BytesHdr)>> \o GoodRows(j))
       [] sort = "dup" -> Figure(T("1"), ValueHdr, ValRows)
       [] sort = "nested" -> Figure(id, BitsHdr, <<Tr(<<Td(T("4")), TdW(T("Foo: x"), <<Sub(ValRows)>>)>>)>>)
       [] sort = "bad" -> Figure(id, BytesHdr, GoodRows(j) \o <<BadRow>>)
       [] sort = "badnested" -> Figure(id, BytesHdr, <<Tr(<<Td(T("0")), TdW(T("Foo: x"), <<Sub(ValRows), Sub(<<Tr(<<Td(T("1h")), Node("td", T("x"), <<>>)>>)>>)>>)>>)>>)
       [] sort = "unsupported" -> Figure(id, <<T("Foo"), T("Bits"), T("Baz")>>, <<>>)
       [] sort = "noid" -> Table(<<Tr(<<Td(T("See Figure 4"))>>), HdrRow(BytesHdr)>>)
       [] sort = "untitled" -> Table(<<Tr(<<Td(T("something"))>>), HdrRow(BytesHdr)>> \o GoodRows(j))
       [] sort = "norows" -> Table(<<>>)
       [] sort = "wrapped" -> Table(<<Tr(<<Node("td", <<>>, <<Figure(id, BytesHdr, GoodRows(j))>>)>>)>>)
FigBuild(c) == Document([j \in 1..Len(c.tables) |-> TableOf(c.tables[j], j)])

IdOf(sort, j) == IF sort = "dup" THEN T("1") ELSE N2T(j)
Silent == {"untitled", "norows"}
Failing == {"bad", "badnested"}
Fine == {"good", "nested", "wrapped", "dup", "cells"}

(* C01: every titled table is accounted for, in order, exactly once *)
RECURSIVE FinesFrom(_, _)
FinesFrom(ts, j) == IF j > Len(ts) THEN <<>>
                    ELSE (IF ts[j] \in Fine THEN <<<<IdOf(ts[j], j), TitleText(IdOf(ts[j], j))>>>> ELSE <<>>) \o FinesFrom(ts, j + 1)
TopOut == LET t == Filter(machine.out, LAMBDA e : IsNone(e.par)) IN [j \in 1..Len(t) |-> <<t[j].id, t[j].title>>]
NLint(code) == Len(Filter(machine.lint, LAMBDA l : l.code = code))
NSort(ts, S) == Cardinality({j \in 1..Len(ts) : ts[j] \in S})
C01 == machine.pc = "done" =>
  /\ TopOut = FinesFrom(choice.tables, 1)
  /\ NLint("T1000") = NSort(choice.tables, Failing)
  /\ NLint("T1007") = NSort(choice.tables, {"unsupported"})
  /\ NLint("T1008") = NSort(choice.tables, {"noid"})
  /\ Len(TopOut) + NLint("T1000") + NLint("T1007") + NLint("T1008") = NSort(choice.tables, Sorts \ Silent)

(* C02: what a table contributes does not depend on the others *)
Alone(ts, j) == [tables |-> [h \in 1..Len(ts) |-> IF h = j THEN ts[h] ELSE "untitled"], skip |-> TRUE]
OutAlone(ts, j) == Run(Alone(ts, j), TRUE).out
LintAlone(ts, j) == Run(Alone(ts, j), TRUE).lint
Unnumbered(lint) == Filter(lint, LAMBDA l : l.code /= "T1008")
FirstFailing(ts) == IF NSort(ts, Failing) = 0 THEN Len(ts) + 1
                    ELSE CHOOSE j \in 1..Len(ts) : ts[j] \in Failing /\ \A h \in 1..(j - 1) : ts[h] \notin Failing
C02 == Ended(machine) =>
  LET ts == choice.tables
      n == IF choice.skip THEN Len(ts) ELSE FirstFailing(ts) - 1
      before == Flat([j \in 1..n |-> OutAlone(ts, j)])
  IN /\ machine.pc = (IF choice.skip \/ NSort(ts, Failing) = 0 THEN "done" ELSE "abort")
     /\ IF machine.pc = "done" THEN machine.out = before ELSE IsPrefixOf(before, machine.out) /\ (\A j \in (Len(before) + 1)..Len(machine.out) : ~IsNone(machine.out[j].par))
     /\ machine.pc = "done" => Unnumbered(machine.lint) = Unnumbered(Flat([j \in 1..n |-> LintAlone(ts, j)]))
     /\ \A j \in 1..Len(ts) : machine.pc = "done" /\ ts[j] \in Failing =>
          Len(Filter(LintAlone(ts, j), LAMBDA l : l.code = "T1000")) = 1
          /\ Filter(LintAlone(ts, j), LAMBDA l : l.code = "T1000")[1].fig = N2T(j) \o (IF ts[j] = "badnested" THEN T("_0") ELSE <<>>)
=============================================================================
