------------------------------ MODULE MC_Layout ------------------------------
(* C05: every sequence of up to MaxLen ranges out of a set having adjacent,   *)
(* overlapping, gapped, reversed and incomparable ones.  A choice fixes the   *)
(* first ranges; its document has a figure for each last range.               *)
EXTENDS MCBase

Nums == {<<0, 0>>, <<0, 1>>, <<1, 1>>, <<2, 9>>, <<10, 10>>, <<9, 10>>, <<11, 99>>, <<100, 100>>, <<5, 2>>}
   \* low, high; <<5, 2>> is reversed
Pool == Nums \cup {<<-1, -1>>, <<-2, -2>>, <<-3, -3>>}   \* ellipsis row, text, closing ellipsis with a range
MaxLen == IF Thorough THEN 4 ELSE 3
LayoutChoices == [kind : {"bits", "bytes"}, first : SeqsUpTo(Pool, MaxLen - 1), skip : {TRUE}]
PoolSeq == TLCEval(SetSeq(Pool))

RangeText(r) == CASE r = <<-2, -2>> -> T("n+3:n")
                  [] r = <<-3, -3>> -> T("4:3")
                  [] r[1] = r[2] -> N2T(r[1])
                  [] OTHER -> N2T(r[2]) \o T(":") \o N2T(r[1])
RowOf(r, j) == CASE r = <<-1, -1>> -> Tr(<<Wide(Td(TEllipsis), 2)>>)
                 [] r = <<-3, -3>> -> Tr(<<Td(RangeText(r)), Td(TEllipsis)>>)
                 [] OTHER -> Tr(<<Td(RangeText(r)), Td(T("F") \o <<96 + j>> \o T(": x"))>>)
(* the fields of figure h in ascending order *)
FieldSeq(c, h) == Append(c.first, PoolSeq[h])
LayoutBuild(c) ==
  Document([h \in 1..Len(PoolSeq) |->
    LET fs == FieldSeq(c, h)
        rows == [j \in 1..Len(fs) |-> RowOf(fs[j], j)]
    IN Figure(N2T(h), HdrOf(c.kind), IF c.kind = "bits" THEN Reverse(rows) ELSE rows)])

Num(r) == r[1] >= 0
Below(fs) == \E a, b \in 1..Len(fs) :
   /\ a < b /\ (\A j \in a..b : Num(fs[j])) /\ (a = 1 \/ ~Num(fs[a - 1])) /\ fs[b][1] < fs[a][1]
At(fs, Test(_, _)) == {j \in 2..Len(fs) : Num(fs[j]) /\ Num(fs[j - 1]) /\ Test(fs[j - 1], fs[j])}
Overlaps(fs) == At(fs, LAMBDA p, q : q[1] <= p[2])
Gaps(fs) == At(fs, LAMBDA p, q : q[1] > p[2] + 1)
RowsWith(fs, js, n) == Cardinality({j \in js : N2T(fs[j][1]) = n})
C05 == machine.pc = "done" =>
  \A h \in 1..Len(PoolSeq) :
    LET fs == FieldSeq(choice, h)
        mine == SelectSeq(machine.lint, LAMBDA l : l.fig = N2T(h) /\ l.code \in {"T1001", "T1002", "T1004"})
        Has1(code, n) == Len(SelectSeq(mine, LAMBDA l : l.code = code /\ l.row = n))
        lows == {N2T(fs[j][1]) : j \in {i \in 1..Len(fs) : Num(fs[i])}}
    IN IF Below(fs) THEN Len(mine) = 1 /\ mine[1].code = "T1004" /\ mine[1].row = None
       ELSE /\ Len(mine) = Cardinality(Overlaps(fs)) + Cardinality(Gaps(fs))
            /\ \A n \in lows : Has1("T1001", n) = RowsWith(fs, Overlaps(fs), n) /\ Has1("T1002", n) = RowsWith(fs, Gaps(fs), n)
=============================================================================
