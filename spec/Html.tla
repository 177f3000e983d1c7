-------------------------------- MODULE Html --------------------------------
(***************************************************************************)
(* Element trees of HTML models.  A node is a record                       *)
(*   [t: tag, x: text before the first child, k: children, z: text after   *)
(*    the node's end tag, cs: column span, rs: row span, hc: has a column  *)
(*    span attribute, id: id attribute or None]                            *)
(* and the placement of a table's cells in rows.                           *)
(***************************************************************************)
EXTENDS Text

RECURSIVE RawText(_), KidsText(_, _)
KidsText(ks, i) == IF i > Len(ks) THEN <<>> ELSE RawText(ks[i]) \o ks[i].z \o KidsText(ks, i + 1)
RawText(n) == IF n.k = <<>> THEN n.x ELSE n.x \o KidsText(n.k, 1)
NodeText(n) == Strip(RawText(n))

KidIdx(n, tag) == SelectSeq([i \in 1..Len(n.k) |-> i], LAMBDA i : n.k[i].t = tag)
Kids(n, tag) == SelectSeq(n.k, LAMBDA c : c.t = tag)
HasKid(n, tag) == \E i \in 1..Len(n.k) : n.k[i].t = tag
FirstKid(n, tag) == LET i == CHOOSE j \in 1..Len(n.k) : n.k[j].t = tag /\ \A h \in 1..(j - 1) : n.k[h].t /= tag
                    IN n.k[i]

RECURSIVE NodeAt(_, _)
NodeAt(n, path) == IF path = <<>> THEN n ELSE NodeAt(n.k[path[1]], Tail(path))

(***************************************************************************)
(* Rows.  A row is [hdr, tr, cells]: header rows have a th; cells is the   *)
(* sequence of <<row child index, cell child index>> (of the table node)   *)
(* that the row has, including cells of earlier rows that span into it.    *)
(* Pending cells are [col, ref, cs, left], left counting the rows they     *)
(* still cover; a cell goes into the first free column.                    *)
(***************************************************************************)
RECURSIVE Place(_, _, _, _, _)
(* own: own cells still to place; pend: pending cells by column; yields
   <<cells as [col, ref, cs, rs]>> in column order *)
Place(own, pend, col, acc, rsOf) ==
  IF pend /= <<>> /\ pend[1].col <= col
    THEN Place(own, Tail(pend), col + pend[1].cs, Append(acc, [col |-> col, ref |-> pend[1].ref, cs |-> pend[1].cs, rs |-> 1]), rsOf)
  ELSE IF own /= <<>>
    THEN Place(Tail(own), pend, col + own[1].cs, Append(acc, [col |-> col, ref |-> own[1].ref, cs |-> own[1].cs, rs |-> own[1].rs]), rsOf)
  ELSE IF pend /= <<>>
    THEN Place(own, Tail(pend), col + pend[1].cs, Append(acc, [col |-> col, ref |-> pend[1].ref, cs |-> pend[1].cs, rs |-> 1]), rsOf)
  ELSE acc

Age(pend) == LET alive == SelectSeq(pend, LAMBDA p : p.left > 1)
             IN [i \in 1..Len(alive) |-> [alive[i] EXCEPT !.left = @ - 1]]
InsertByCol(pend, p) ==
  LET before == SelectSeq(pend, LAMBDA q : q.col <= p.col)
      after == SelectSeq(pend, LAMBDA q : q.col > p.col)
  IN before \o <<p>> \o after
RECURSIVE AddPending(_, _, _)
AddPending(pend, cells, i) ==
  IF i > Len(cells) THEN pend
  ELSE AddPending(IF cells[i].rs > 1
                    THEN InsertByCol(pend, [col |-> cells[i].col, ref |-> cells[i].ref, cs |-> cells[i].cs, left |-> cells[i].rs])
                    ELSE pend, cells, i + 1)

RECURSIVE RowsFrom(_, _, _)
RowsFrom(tbl, i, pend) ==
  IF i > Len(tbl.k) THEN <<>>
  ELSE IF tbl.k[i].t /= "tr" THEN RowsFrom(tbl, i + 1, pend)
  ELSE
    LET tr == tbl.k[i]
        tds == KidIdx(tr, "td")
    IN IF HasKid(tr, "th")
         THEN <<[hdr |-> TRUE, tr |-> i, cells |-> <<>>]>> \o RowsFrom(tbl, i + 1, Age(pend))
       ELSE IF tds = <<>>
         THEN RowsFrom(tbl, i + 1, Age(pend))        \* nothing of its own: no row
       ELSE
         LET own == [j \in 1..Len(tds) |->
                       [ref |-> <<i, tds[j]>>, cs |-> tr.k[tds[j]].cs, rs |-> tr.k[tds[j]].rs]]
             cells == Place(own, pend, 0, <<>>, 0)
         IN <<[hdr |-> FALSE, tr |-> i, cells |-> [j \in 1..Len(cells) |-> cells[j].ref]]>>
            \o RowsFrom(tbl, i + 1, Age(AddPending(pend, cells, 1)))

(* rows of a table from its child `from` on *)
RowsOf(tbl, from) == RowsFrom(tbl, from, <<>>)
CellAt(tbl, ref) == tbl.k[ref[1]].k[ref[2]]

(* the text of a row, as the concatenation of its cells *)
RECURSIVE CellsText(_, _, _)
CellsText(tbl, refs, i) ==
  IF i > Len(refs) THEN <<>>
  ELSE RawText(CellAt(tbl, refs[i])) \o CellAt(tbl, refs[i]).z \o CellsText(tbl, refs, i + 1)
RowText(tbl, row) == Strip(CellsText(tbl, row.cells, 1))

FirstRowIdx(tbl, from) ==
  LET c == {i \in from..Len(tbl.k) : tbl.k[i].t = "tr"}
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
=============================================================================
