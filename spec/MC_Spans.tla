------------------------------- MODULE MC_Spans -------------------------------
(* C09: every way of merging the cells of a small grid into rectangles, also  *)
(* with a header row among them.                                              *)
EXTENDS MCBase

Kinds == {"bits", "bytes", "values"}
Heads(kind, n) ==
  LET k == CASE kind = "bits" -> T("Bits") [] kind = "bytes" -> T("Bytes") [] OTHER -> T("Value")
  IN IF n = 3 THEN {<<k, T("Description"), T("X")>>, <<k, T("Attribute"), T("Description")>>, <<T("X"), T("Description"), k>>}
     ELSE {<<k, T("Y"), T("X"), T("Description")>>, <<T("Y"), k, T("Description"), T("X")>>}

(* the partitions of a grid of R rows and C columns into rectangles
   <<row, column, height, width>> *)
Block(t) == {<<r, c>> : r \in t[1]..(t[1] + t[3] - 1), c \in t[2]..(t[2] + t[4] - 1)}
RECURSIVE Fill(_, _, _)
Fill(free, R, C) ==
  IF free = {} THEN {{}}
  ELSE LET p == CHOOSE x \in free : \A y \in free : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
           ts == {t \in {<<p[1], p[2], h, w>> : h \in 1..(R - p[1] + 1), w \in 1..(C - p[2] + 1)} : Block(t) \subseteq free}
       IN UNION {{{t} \cup s : s \in Fill(free \ Block(t), R, C)} : t \in ts}
Grid(R, C) == (1..R) \X (1..C)
Tilings(R, C) == Fill(Grid(R, C), R, C)
Sizes == IF Thorough THEN {<<1, 3>>, <<2, 3>>, <<3, 3>>, <<4, 3>>, <<2, 4>>, <<3, 4>>} ELSE {<<2, 3>>, <<3, 3>>, <<2, 4>>}
(* hdr: the row that is a header row (its cells do not span rows), or 0 *)
AllChoices == UNION {UNION {[kind : {k}, head : Heads(k, n[2]), rows : {n[1]}, skip : {TRUE},
                               hdr : 0..n[1], tiles : Tilings(n[1], n[2])] : k \in Kinds} : n \in Sizes}
SpansChoices == TLCEval({c \in AllChoices : \A t \in c.tiles : t[1] = c.hdr => t[3] = 1})

NumCols(c) == Len(c.head)
OriginsOf(c, r) == LET s == {t \in c.tiles : t[1] = r}
                 IN SelectSeq([j \in 1..NumCols(c) |-> IF \E t \in s : t[2] = j THEN CHOOSE t \in s : t[2] = j ELSE <<0, 0, 0, 0>>],
                              LAMBDA t : t[1] /= 0)
Name(t) == N2T(10 * t[1] + t[2])
CellOf(c, t) == LET n == IF t[1] = c.hdr THEN Th(Name(t)) ELSE Td(Name(t))
                IN Tall(IF t[4] > 1 THEN Wide(n, t[4]) ELSE n, t[3])
RowOf(c, r) == LET o == OriginsOf(c, r) IN Tr([j \in 1..Len(o) |-> CellOf(c, o[j])])
Hdr(c) == HdrRow(c.head)
SpansBuild(c) == Document(<<Table(<<Tr(<<Td(TitleText(T("1")))>>), Hdr(c)>> \o TLCEval([r \in 1..c.rows |-> RowOf(c, r)]))>>)

(* the tiles covering a row, from left to right *)
Distinct(c, r) ==
  LET s == {t \in c.tiles : r \in t[1]..(t[1] + t[3] - 1)}
  IN SelectSeq([j \in 1..NumCols(c) |-> IF \E t \in s : t[2] = j THEN CHOOSE t \in s : t[2] = j ELSE <<0, 0, 0, 0>>], LAMBDA t : t[1] /= 0)
(* data rows: those with cells of their own other than header cells *)
DataRows(c) == SelectSeq([r \in 1..c.rows |-> r], LAMBDA r : r /= c.hdr /\ OriginsOf(c, r) /= <<>>)
C09grid == machine.pc = "fig" =>
  LET rows == SelectSeq(Top(machine).rows, LAMBDA x : ~x.hdr)
      tbl == DocOf(choice).body.k[1]
      want == DataRows(choice)
  IN SelectSeq(rows, LAMBDA x : x.tr > 2) = rows /\ Len(rows) = Len(want)
     /\ \A i \in 1..Len(rows) :
          LET d == Distinct(choice, want[i])
          IN Len(rows[i].cells) = Len(d) /\ \A j \in 1..Len(d) : NodeText(CellAt(tbl, rows[i].cells[j])) = Name(d[j])
(* hence each row's field has the contents of the cells covering it *)
KeyOf(c) == CHOOSE j \in 1..NumCols(c) : c.head[j] \in {T("Bits"), T("Bytes"), T("Value")}
RangeCol(c) == KeyOf(c)
(* the columns that are read *)
Needed(c) == LET S == {j \in 1..NumCols(c) : c.head[j] \notin {T("X"), T("Y")}} IN CHOOSE j \in S : \A i \in S : i <= j
C09fields == machine.pc = "done" =>
  LET rows == DataRows(choice)
      n == Len(rows)
  IN (\A i \in 1..n : Len(Distinct(choice, rows[i])) >= Needed(choice)) =>
       /\ Len(machine.out) = 1 /\ Len(machine.out[1].fields) = n
       /\ \A i \in 1..n : LET f == machine.out[1].fields[IF choice.kind = "bits" THEN n + 1 - i ELSE i]
                          IN RowKey(f.rng) = Name(Distinct(choice, rows[i])[RangeCol(choice)])
=============================================================================
