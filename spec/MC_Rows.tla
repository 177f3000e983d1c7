------------------------------- MODULE MC_Rows -------------------------------
(* C03: sequences of rows of every sort, in figures of every kind and with  *)
(* both column arrangements.                                                *)
EXTENDS MCBase

Sorts == {"data", "reserved", "reservedx", "obsolete", "ellipsis", "ellipsis1", "header", "listheader", "closing",
          "note", "remark", "remarknote", "specialrange", "noterange"}
Own == {"bits", "bytes", "values"}
MaxRows == IF Thorough THEN 4 ELSE 3
RowsChoices == [kind : Own, own : BOOLEAN, rows : SeqsUpTo(Sorts, MaxRows), skip : {TRUE}]

(* cells of row j: its range or value, name (if it has a column) and description *)
Letter(j) == <<96 + j>>
RangeText(c, j) == N2T(10 * (IF c.kind = "bits" THEN Len(c.rows) + 1 - j ELSE j))
Cells(c, range, name, content) ==
  IF c.own THEN Tr(<<Td(range), Td(name), Td(content)>>) ELSE Tr(<<Td(range), Td(content)>>)
NCols(c) == IF c.own THEN 3 ELSE 2
Across(c, text) == Tr(<<Wide(Td(text), NCols(c))>>)
RowOf(c, j) ==
  LET sort == c.rows[j]
      r == RangeText(c, j)
  IN CASE sort = "data" -> IF c.own THEN Cells(c, r, Letter(j) \o T(": Name"), T("Foo: x"))
                           ELSE Cells(c, r, <<>>, Letter(j) \o T(": Foo bar"))
       [] sort = "reserved" -> Cells(c, r, T("Reserved"), T("Reserved"))
       [] sort = "reservedx" -> Tr((IF c.own THEN <<Td(r), Td(T("reserved"))>> ELSE <<Td(r)>>)
                                    \o <<TdW(T("Reserved"), <<P(T("Further text."))>>)>>)
       [] sort = "obsolete" -> Cells(c, r, T("OBSOLETE"), T("OBSOLETE"))
       [] sort = "ellipsis" -> IF c.kind = "values" THEN Cells(c, TEllipsis, TEllipsis, TEllipsis) ELSE Cells(c, r, TEllipsis, TEllipsis)
       [] sort = "ellipsis1" -> Across(c, TEllipsis)
       [] sort = "header" -> Tr(<<Wide(Th(T("General")), NCols(c))>>)
       [] sort = "listheader" -> HdrRow(<<T("Description"), T("Bits")>>)
       [] sort = "closing" -> Across(c, T("Notes: 1. foo"))
       [] sort = "note" -> Cells(c, r, T("Note: x"), T("Note: x"))
       [] sort = "remark" -> Across(c, T("General remark"))
       [] sort = "remarknote" -> Across(c, T("Please note: obsolete list"))
       [] sort = "specialrange" -> Cells(c, T("Reserved"), T("Foo"), T("Foo"))
       [] sort = "noterange" -> Cells(c, T("Note 1"), T("Foo"), T("Foo"))
Hdrs(c) == CASE c.kind = "values" -> IF c.own THEN <<T("Value"), T("Attribute"), T("Definition")>> ELSE ValueHdr
             [] OTHER -> <<IF c.kind = "bits" THEN T("Bits") ELSE T("Bytes")>> \o (IF c.own THEN <<T("Attribute")>> ELSE <<>>) \o <<T("Description")>>
RowsBuild(c) == Document(<<Figure(T("1"), Hdrs(c), [j \in 1..Len(c.rows) |-> RowOf(c, j)])>>)

(* the property, stated on the sorts of rows *)
Struct(c) == c.kind /= "values"
ClosedAt(c) == LET s == {j \in 1..Len(c.rows) : c.rows[j] = "closing"} IN IF s = {} THEN Len(c.rows) + 1 ELSE CHOOSE j \in s : \A h \in s : j <= h
Kept(c, j) == /\ j < ClosedAt(c)
              /\ \/ c.rows[j] \in {"data", "reserved", "reservedx", "obsolete", "ellipsis", "ellipsis1"}
                 \/ ~Struct(c) /\ c.rows[j] \in {"note", "specialrange", "noterange"}
                    \* (the value cell of a value table is not looked at)
LabelOK(c, j, l) ==
  LET sort == c.rows[j]
  IN CASE sort \in {"reserved", "reservedx"} -> l = TRESERVED
       [] sort = "obsolete" -> l = TOBSOLETE
       [] sort \in {"ellipsis", "ellipsis1"} -> l = TEllipsis
       [] sort = "data" -> Lower(l) = Letter(j)
       [] OTHER -> TRUE
KeyOK(c, j, k) == CASE c.rows[j] \in {"data", "reserved", "reservedx", "obsolete"} -> k = RangeText(c, j)
                    [] c.rows[j] = "ellipsis" -> k = IF Struct(c) THEN RangeText(c, j) ELSE TEllipsis
                    [] c.rows[j] = "ellipsis1" -> k = IF Struct(c) THEN MinusOne ELSE TEllipsis
                    [] OTHER -> TRUE
C03 == machine.pc = "done" =>
  LET kept == SelectSeq([j \in 1..Len(choice.rows) |-> j], LAMBDA j : Kept(choice, j))
      order == IF choice.kind = "bits" THEN Reverse(kept) ELSE kept
      fs == machine.out[1].fields
  IN /\ Len(machine.out) = 1 /\ machine.out[1].type = choice.kind
     /\ Len(fs) = Len(kept)
     /\ \A h \in 1..Len(fs) : LabelOK(choice, order[h], fs[h].label) /\ KeyOK(choice, order[h], RowKey(fs[h].rng))
NeverFails == machine.pc /= "abort" /\ machine.pc /= "raise"
=============================================================================
