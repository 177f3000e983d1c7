------------------------------- MODULE MC_Words -------------------------------
(* C18: cells made of every short sequence of kinds of contents, next to      *)
(* text outside of tables, in plain and wrapped tables.                       *)
EXTENDS MC1Base

Items == {"p", "runs", "link", "field", "texts", "empty", "table", "deep", "list", "other"}
Seqs == SeqsUpTo(Items, IF Thorough THEN 4 ELSE 3)
WordsChoices == [a : Seqs, b : {<<>>, <<"p">>, <<"table">>}, wrap : {FALSE}]
                \cup [a : SeqsUpTo(Items, 2), b : {<<"deep">>, <<"link">>}, wrap : {TRUE}]

(* the text of part k of item j of cell n: unlike any other *)
Tok(n, j, k) == T("c") \o N2T(n) \o T("i") \o N2T(j) \o <<96 + k>>
Special(n, j, k) == T(" <&> ") \o Tok(n, j, k) \o T("\"' ")
Item(n, j, x) ==
  CASE x = "p" -> P(Tok(n, j, 1))
    [] x = "runs" -> Para(<<R(Tok(n, j, 1)), OtherNode(<<>>), R(Special(n, j, 2))>>)
    [] x = "link" -> Para(<<Link(<<R(Tok(n, j, 1)), R(Tok(n, j, 2))>>), R(Tok(n, j, 3))>>)
    [] x = "field" -> Para(<<R(Tok(n, j, 1)), Fld(<<R(Tok(n, j, 2))>>), Link(<<>>)>>)
    [] x = "texts" -> Para(<<[g |-> "r", f |-> <<>>, k |-> <<Tx(Tok(n, j, 1)), OtherNode(<<>>), Tx(<<>>), Tx(Tok(n, j, 2))>>]>>)
    [] x = "empty" -> Para(<<R(<<>>), OtherNode(<<>>)>>)
    [] x = "table" -> Tbl(<<Tr(<<Tc(<<P(Tok(n, j, 1))>>), Tc(<<P(Tok(n, j, 2))>>)>>)>>)
    [] x = "deep" -> Tbl(<<Tr(<<Tc(<<P(Tok(n, j, 1)), Tbl(<<Tr(<<Tc(<<P(Tok(n, j, 2))>>)>>), Tr(<<Tc(<<P(Tok(n, j, 3))>>)>>)>>), P(Tok(n, j, 4))>>)>>)>>)
    [] x = "list" -> ListP(<<1>>, <<0>>, <<R(Tok(n, j, 1))>>)
    [] x = "other" -> OtherNode(<<>>)
Parts(x) == CASE x \in {"p", "list"} -> 1 [] x \in {"runs", "field", "texts", "table"} -> 2 [] x = "link" -> 3 [] x = "deep" -> 4 [] OTHER -> 0
CellOf(n, s) == Tc([j \in 1..Len(s) |-> Item(n, j, s[j])])
WordsBuild(c) ==
  LET t == Tbl(<<Tr(<<CellOf(1, c.a), CellOf(2, c.b)>>)>>)
      u == Tbl(<<Tr(<<Tc(<<P(T("last"))>>)>>)>>)
  IN [DocWith(<<P(T("outside")), IF c.wrap THEN OtherNode(<<t>>) ELSE t, ListP(<<1>>, <<0>>, <<R(T("outside"))>>), u, P(T("outside"))>>)
        EXCEPT !.hasnum = TRUE, !.nums = <<[id |-> 1, abs |-> 3]>>, !.abss = <<[id |-> 3, lvls |-> <<[f |-> "decimal", x |-> T("%1")]>>]>>]

(* the words of a cell, in order *)
Piece(n, j, x, k) == IF x = "runs" /\ k = 2 THEN Special(n, j, 2) ELSE Tok(n, j, k)
WordsOf(n, s) == Flat([j \in 1..Len(s) |->
                   IF s[j] = "texts" THEN <<Tok(n, j, 1) \o Tok(n, j, 2)>>
                   ELSE [k \in 1..Parts(s[j]) |-> Piece(n, j, s[j], k)]])
NumTables(s) == LET F(x) == CASE x = "table" -> 1 [] x = "deep" -> 2 [] OTHER -> 0
                    RECURSIVE S(_)
                    S(j) == IF j > Len(s) THEN 0 ELSE F(s[j]) + S(j + 1)
                IN S(1)
(* the words, once and in order *)
C18words == Over1(machine) => TextsOf(machine.ev) = WordsOf(1, choice.a) \o WordsOf(2, choice.b) \o <<T("last")>>
C18tables == Over1(machine) => Len(Only(machine.ev, {"table"})) = 2 + NumTables(choice.a) + NumTables(choice.b)
(* each word in the cell of the top-level table that has it, as deep as it is *)
RECURSIVE Where(_, _, _, _, _)
Where(ev, j, cell, deep, acc) ==
  IF j > Len(ev) THEN acc
  ELSE CASE ev[j].e = "table" -> Where(ev, j + 1, cell, deep + 1, acc)
         [] ev[j].e = "/table" -> Where(ev, j + 1, cell, deep - 1, acc)
         [] ev[j].e = "cell" -> Where(ev, j + 1, IF deep = 1 THEN cell + 1 ELSE cell, deep, acc)
         [] ev[j].e = "text" -> Where(ev, j + 1, cell, deep, Append(acc, <<cell, deep>>))
         [] OTHER -> Where(ev, j + 1, cell, deep, acc)
Depth(x, k) == CASE x = "table" -> 2 [] x = "deep" -> (IF k \in {2, 3} THEN 3 ELSE 2) [] OTHER -> 1
Spots(n, s) == Flat([j \in 1..Len(s) |-> [k \in 1..(IF s[j] = "texts" THEN 1 ELSE Parts(s[j])) |-> <<n, Depth(s[j], k)>>]])
C18cells == Over1(machine) => Where(machine.ev, 1, 0, 0, <<>>) = Spots(1, choice.a) \o Spots(2, choice.b) \o <<<<3, 1>>>>
(* tables appear where they are among the paragraphs *)
=============================================================================
