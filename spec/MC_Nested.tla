------------------------------ MODULE MC_Nested ------------------------------
(* C10: trees of nested tables.  A tree is [kind, rows], rows a sequence of  *)
(* the sequences of tables nested in the rows' description cells.            *)
EXTENDS MCBase

Kinds == {"bits", "bytes", "values"}
Leaf(k) == [kind |-> k, rows |-> <<<<>>>>]
Leaves == {Leaf(k) : k \in {"bits", "values", "none", "bad"}}
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
TreesOver(S, nrows, n, K) == {[kind |-> k, rows |-> r] : k \in K, r \in UNION {[1..m -> Lists(S, n)] : m \in 1..nrows}}
Level1 == TreesOver(Leaves, 2, 2, {"bytes"}) \cup TreesOver(Leaves, 1, 2, Kinds) \cup TreesOver(Leaves \ {Leaf("bad")}, 2, 1, Kinds)
Mid == TreesOver({Leaf("values"), Leaf("bad")}, 2, 1, {"bits"}) \cup TreesOver({Leaf("bytes")}, 1, 2, {"values"})
Level2 == TreesOver(Mid, 1, IF Thorough THEN 2 ELSE 1, Kinds) \cup TreesOver(Mid, 2, 1, {"values"})
Mid2 == TreesOver({[kind |-> "values", rows |-> <<<<Leaf("bits")>>>>], [kind |-> "bits", rows |-> <<<<Leaf("none"), Leaf("values")>>>>]}, 1, 1, Kinds)
Level3 == TreesOver(TreesOver(Mid2, 1, 1, {"bytes"}), 1, 1, Kinds) \cup TreesOver(Mid2, 2, 1, {"values"})
(* chain of depth n *)
RECURSIVE Chain(_)
Chain(n) == IF n = 0 THEN Leaf("values") ELSE [kind |-> IF n % 2 = 0 THEN "values" ELSE "bits", rows |-> <<<<Chain(n - 1)>>>>]
NestedChoices == [tree : Level1 \cup Level2 \cup Level3 \cup {Chain(6)}, where : {"after", "before"}, skip : {TRUE}]

KeyText(k, j) == IF k = "values" THEN N2T(j) \o T("h") ELSE N2T(2 * j + 1) \o T(":") \o N2T(2 * j)
Key(k, j) == IF k = "values" THEN N2T(j) \o T("h") ELSE N2T(2 * j)
RECURSIVE TableOf(_), SubTables(_)
RowsFor(t) == LET n == Len(t.rows)
              IN [i \in 1..n |-> LET j == IF t.kind = "bits" THEN n + 1 - i ELSE i
                                 IN Tr(<<Td(KeyText(t.kind, j)), Node("td", <<>>, <<P(T("Foo ") \o <<96 + j>> \o T(": text of row"))>> \o SubTables(t.rows[i]))>>)]
SubTables(ts) == [i \in 1..Len(ts) |-> TableOf(ts[i])]
Hdr(t) == HdrRow(IF t.kind = "none" THEN <<T("Foo"), T("Bar")>> ELSE IF t.kind = "bad" THEN ValueHdr ELSE HdrOf(t.kind))
Body(t) == IF t.kind = "bad" THEN <<Tr(<<Td(T("0h")), Node("td", T("no paragraph"), <<>>)>>)>> ELSE RowsFor(t)
TableOf(t) == Table(<<Hdr(t)>> \o Body(t))
FigureOf(id, t) == Table(<<Tr(<<Td(TitleText(id))>>), Hdr(t)>> \o Body(t))
Other == Figure(T("2"), ValueHdr, <<Tr(<<Td(T("0h")), Td(T("Zero: a"))>>)>>)
NestedBuild(c) == Document(IF c.where = "after" THEN <<FigureOf(T("1"), c.tree), Other>> ELSE <<Other, FigureOf(T("1"), c.tree)>>)

(* does the figure fail, at any depth? *)
RECURSIVE Fails(_)
Fails(t) == t.kind = "bad" \/ (t.kind /= "none" /\ \E i \in 1..Len(t.rows) : \E j \in 1..Len(t.rows[i]) : Fails(t.rows[i][j]))
(* the entities of a figure that does not fail: those of its rows, then itself *)
RECURSIVE Expect(_, _, _), ExpectRows(_, _, _), ExpectTables(_, _, _)
Expect(t, id, par) == IF t.kind = "none" THEN <<>> ELSE ExpectRows(t, id, 1) \o <<[id |-> id, par |-> par, tree |-> t]>>
ExpectRows(t, id, i) == IF i > Len(t.rows) THEN <<>>
  ELSE LET n == Len(t.rows)
           j == IF t.kind = "bits" THEN n + 1 - i ELSE i
       IN ExpectTables(t.rows[i], id \o T("_") \o Key(t.kind, j), id) \o ExpectRows(t, id, i + 1)
ExpectTables(ts, id, par) == IF ts = <<>> THEN <<>> ELSE Expect(Head(ts), id, par) \o ExpectTables(Tail(ts), id, par)

(* the entity that a tree alone is, without looking at its nested tables *)
FieldsOf(t) == LET n == Len(t.rows)
               IN [j \in 1..n |-> [rng |-> IF t.kind = "values" THEN [k |-> "val", lo |-> Key("values", j), hi |-> <<>>]
                                           ELSE IntRange(Key(t.kind, j), N2T(2 * j + 1)),
                                   key |-> Key(t.kind, j), first |-> <<96 + j>>]]
SameFields(e, t) ==
  LET fs == FieldsOf(t)
  IN /\ e.type = t.kind /\ Len(e.fields) = Len(fs)
     /\ \A j \in 1..Len(fs) : /\ e.fields[j].rng = fs[j].rng
                              /\ e.fields[j].label = (IF t.kind = "values" THEN T("FOO_") ELSE T("f")) \o (IF t.kind = "values" THEN Upper(fs[j].first) ELSE fs[j].first)
C10 == machine.pc = "done" =>
  LET mine == SelectSeq(machine.out, LAMBDA e : e.id /= T("2"))
      want == Expect(choice.tree, T("1"), None)
      top == SelectSeq(mine, LAMBDA e : IsNone(e.par))
  IN IF Fails(choice.tree)
       THEN /\ top = <<>>
            /\ Len(SelectSeq(machine.lint, LAMBDA l : l.code = "T1000")) = 1
       ELSE /\ Len(mine) = Len(want)
            /\ \A i \in 1..Len(want) : mine[i].id = want[i].id /\ mine[i].par = want[i].par /\ SameFields(mine[i], want[i].tree)
            /\ SelectSeq(machine.lint, LAMBDA l : l.code = "T1000") = <<>>
Linked == \A i \in 1..Len(machine.out) :
  IsNone(machine.out[i].par) \/ machine.pc /= "done" \/ Fails(choice.tree)
    \/ \E j \in (i + 1)..Len(machine.out) : machine.out[j].id = machine.out[i].par
=============================================================================
