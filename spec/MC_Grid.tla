------------------------------- MODULE MC_Grid -------------------------------
(* C17: every way of merging the cells of a grid into rectangles, in the two  *)
(* spellings of vertical merging, at top level or in a cell of another table. *)
EXTENDS MC1Base

Block(t) == {<<r, c>> : r \in t[1]..(t[1] + t[3] - 1), c \in t[2]..(t[2] + t[4] - 1)}
RECURSIVE Fill(_, _, _)
Fill(free, R1, C1) ==
  IF free = {} THEN {{}}
  ELSE LET p == CHOOSE x \in free : \A y \in free : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
           ts == {t \in {<<p[1], p[2], h, w>> : h \in 1..(R1 - p[1] + 1), w \in 1..(C1 - p[2] + 1)} : Block(t) \subseteq free}
       IN UNION {{{t} \cup s : s \in Fill(free \ Block(t), R1, C1)} : t \in ts}
Tilings(R1, C1) == Fill((1..R1) \X (1..C1), R1, C1)
Sizes == IF Thorough THEN {<<1, 3>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<2, 4>>, <<3, 4>>, <<4, 3>>} ELSE {<<1, 3>>, <<3, 2>>, <<3, 3>>, <<2, 4>>}
(* lone: cells not merged vertically say so by "restart" *)
GridChoices == UNION {[rows : {n[1]}, cols : {n[2]}, tiles : Tilings(n[1], n[2]), lone : IF n = <<3, 3>> THEN {FALSE} ELSE BOOLEAN,
                       within : IF n = <<3, 4>> \/ n = <<4, 3>> THEN {FALSE} ELSE BOOLEAN] : n \in Sizes}

Name(t) == N2T(10 * t[1] + t[2])
TileOn(c, r, j) == CHOOSE t \in c.tiles : <<r, j>> \in Block(t)
Odd(n) == n % 2 = 1
CellFor(c, r, t) ==
  [g |-> "tc", fill |-> <<>>, k |-> IF t[1] = r THEN <<P(Name(t))>> ELSE IF Odd(t[2]) THEN <<>> ELSE <<P(T("hidden"))>>,
   span |-> IF t[4] > 1 \/ Odd(t[1] + t[2]) THEN <<t[4]>> ELSE <<>>,
   vm |-> IF t[3] = 1 THEN (IF c.lone THEN "restart" ELSE "-") ELSE IF t[1] = r THEN "restart" ELSE IF Odd(t[1] + t[2]) THEN "" ELSE "continue"]
RowFor(c, r) ==
  LET firsts == SelectSeq([j \in 1..c.cols |-> j], LAMBDA j : TileOn(c, r, j)[2] = j)
  IN Tr([k \in 1..Len(firsts) |-> CellFor(c, r, TileOn(c, r, firsts[k]))])
GridTbl(c) == Tbl(<<OtherNode(<<>>)>> \o [r \in 1..c.rows |-> RowFor(c, r)])
GridBuild(c) == DocWith(IF c.within THEN <<Tbl(<<Tr(<<Tc(<<P(T("x"))>>), Tc(<<P(T("y")), GridTbl(c), P(T("z"))>>)>>), Tr(<<Tc(<<>>), Tc(<<P(T("w"))>>)>>)>>)>>
                        ELSE <<GridTbl(c)>>)

(* ---- the grid as a reader of the HTML model sees it: a cell goes into the
   first column of its row that no cell of an earlier row covers ---- *)
RECURSIVE Lay(_, _, _, _, _)
Lay(ev, j, r, taken, acc) ==
  IF j > Len(ev) THEN acc
  ELSE CASE ev[j].e = "tr" -> Lay(ev, j + 1, r + 1, taken, acc)
         [] ev[j].e = "cell" ->
              LET col == CHOOSE n \in 1..50 : <<r, n>> \notin taken /\ \A h \in 1..(n - 1) : <<r, h>> \in taken
                  b == <<r, col, ev[j].r, ev[j].c>>
              IN Lay(ev, j + 1, r, taken \cup Block(b), Append(acc, [tile |-> b, txt |-> IF j + 2 <= Len(ev) THEN ev[j + 2].x ELSE None]))
         [] OTHER -> Lay(ev, j + 1, r, taken, acc)
(* the events of the grid's table *)
GridEvents(c, ev) ==
  IF c.within
    THEN LET b == CHOOSE j \in 2..Len(ev) : ev[j].e = "table"
             e == CHOOSE j \in b..Len(ev) : ev[j].e = "/table" /\ \A h \in b..(j - 1) : ev[h].e /= "/table"
         IN SubSeq(ev, b, e)
    ELSE ev
RECURSIVE Cover(_)
Cover(cells) == IF cells = <<>> THEN {} ELSE Block(Head(cells).tile) \cup Cover(Tail(cells))
Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
C17 == Over1(machine) =>
  LET cells == Lay(GridEvents(choice, machine.ev), 1, 0, {}, <<>>)
      rows == Only(GridEvents(choice, machine.ev), {"tr"})
  IN /\ Len(rows) = choice.rows
     /\ {cells[j].tile : j \in 1..Len(cells)} = choice.tiles
     /\ Len(cells) = Cardinality(choice.tiles)
     /\ Cover(cells) = (1..choice.rows) \X (1..choice.cols)
     /\ \A j \in 1..Len(cells) : cells[j].txt = Name(cells[j].tile)
     /\ \A j \in 2..Len(cells) : Earlier(cells[j - 1].tile, cells[j].tile)
=============================================================================
