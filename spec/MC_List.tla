------------------------------- MODULE MC_List -------------------------------
(* C19: every short sequence of paragraphs of several lists and levels, of    *)
(* plain paragraphs and of other contents.                                    *)
EXTENDS MC1Base

(* <<number, level>>; 1 and 3 are the same list, 2 another one, 9 is none *)
Paras == {<<1, -1>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<3, 1>>}
Others == {<<9, 0>>, <<0, 0>>}                     \* plain paragraphs: undefined number; none
Alphabet == Paras \cup Others \cup {<<-1, 0>>, <<-2, 0>>, <<-3, 0>>}     \* table; other element; empty paragraph
Small == {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<3, 1>>, <<0, 0>>}
Tiny == {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<0, 0>>}
ListChoices == [s : SeqsUpTo(Alphabet, 3) \cup [1..4 -> Small] \cup (IF Thorough THEN [1..4 -> Alphabet] \cup [1..5 -> Small] \cup [1..6 -> Tiny] ELSE [1..5 -> Tiny]), num : {TRUE}]
               \cup [s : SeqsUpTo(Small, 2), num : {FALSE}]

Word(j) == T("w") \o N2T(j)
Item(j, x) ==
  CASE x[1] = -1 -> Tbl(<<Tr(<<Tc(<<P(Word(j))>>)>>)>>)
    [] x[1] = -2 -> OtherNode(<<>>)
    [] x[1] = -3 -> Para(<<>>)
    [] x[1] = 0 -> P(Word(j))
    [] OTHER -> ListP(<<x[1]>>, IF x[2] < 0 THEN <<>> ELSE <<x[2]>>, <<R(Word(j))>>)
(* list 5: ordered, unordered, ordered; list 6 the other way round *)
Lv(o) == [f |-> IF o THEN "decimal" ELSE "bullet", x |-> IF o THEN T("%1.") ELSE T("o")]
ListBuild(c) ==
  [DocWith(<<Tbl(<<Tr(<<Tc([j \in 1..Len(c.s) |-> Item(j, c.s[j])])>>)>>)>>) EXCEPT
     !.hasnum = c.num,
     !.nums = IF c.num THEN <<[id |-> 1, abs |-> 5], [id |-> 2, abs |-> 6], [id |-> 3, abs |-> 5]>> ELSE <<>>,
     !.abss = IF c.num THEN <<[id |-> 6, lvls |-> <<Lv(FALSE), Lv(TRUE), Lv(FALSE)>>], [id |-> 5, lvls |-> <<Lv(TRUE), Lv(FALSE), Lv(TRUE)>>]>> ELSE <<>>]

IsL(c, j) == c.num /\ c.s[j][1] \in {1, 2, 3}
ListNo(c, j) == IF c.s[j][1] = 2 THEN 2 ELSE 1
Lvl(c, j) == IF c.s[j][2] < 0 THEN 0 ELSE c.s[j][2]
Ordered(c, j) == IF ListNo(c, j) = 1 THEN Lvl(c, j) /= 1 ELSE Lvl(c, j) = 1
(* where each paragraph should be: the lists around it, outermost first, as
   <<first paragraph of the list, level>> *)
RECURSIVE Stacks(_, _, _)
Stacks(c, j, st) ==
  IF j > Len(c.s) THEN <<>>
  ELSE IF ~IsL(c, j) THEN <<<<>>>> \o Stacks(c, j + 1, <<>>)
  ELSE LET same == j > 1 /\ IsL(c, j - 1) /\ ListNo(c, j - 1) = ListNo(c, j)
           st0 == IF same THEN SelectSeq(st, LAMBDA x : x[2] <= Lvl(c, j)) ELSE <<>>
           st1 == IF st0 /= <<>> /\ st0[Len(st0)][2] = Lvl(c, j) THEN st0 ELSE Append(st0, <<j, Lvl(c, j)>>)
       IN <<st1>> \o Stacks(c, j + 1, st1)
(* where the HTML model has it: the list elements around each text, numbered
   by the paragraph of the first text in them, with their tags *)
RECURSIVE Around(_, _, _, _, _)
Around(ev, j, open, n, acc) ==
  IF j > Len(ev) THEN acc
  ELSE CASE ev[j].e = "list" -> Around(ev, j + 1, Append(open, <<n, ev[j].t>>), n + 1, acc)
         [] ev[j].e = "/list" -> Around(ev, j + 1, SubSeq(open, 1, Len(open) - 1), n, acc)
         [] ev[j].e = "text" -> Around(ev, j + 1, open, n, Append(acc, [x |-> ev[j].x, l |-> open]))
         [] OTHER -> Around(ev, j + 1, open, n, acc)
Texts(c) == SelectSeq([j \in 1..Len(c.s) |-> j], LAMBDA j : c.s[j][1] \notin {-2, -3})
C19 == Over1(machine) =>
  LET at == Around(machine.ev, 1, <<>>, 1, <<>>)
      js == Texts(choice)
      st == Stacks(choice, 1, <<>>)
  IN /\ Len(at) = Len(js)
     /\ \A k \in 1..Len(js) : /\ at[k].x = Word(js[k])
                              /\ Len(at[k].l) = Len(st[js[k]])
                              /\ IsL(choice, js[k]) => at[k].l[Len(at[k].l)][2] = (IF Ordered(choice, js[k]) THEN "ol" ELSE "ul")
     (* two paragraphs are in the same list exactly if they should be *)
     /\ \A k, h \in 1..Len(js) :
          LET a == at[k].l
              b == at[h].l
              x == st[js[k]]
              y == st[js[h]]
          IN (a /= <<>> /\ b /= <<>>) => ((a[Len(a)] = b[Len(b)]) <=> (x[Len(x)] = y[Len(y)]))
(* one item per list paragraph, and one more for each sublist without an item *)
C19items == Over1(machine) =>
  LET st == Stacks(choice, 1, <<>>)
      ls == {j \in 1..Len(choice.s) : IsL(choice, j)}
      lone == {j \in ls : /\ Len(st[j]) > 1 /\ st[j][Len(st[j])][1] = j       \* opens a sublist
                          /\ st[j - 1][Len(st[j]) - 1] /= st[j - 1][Len(st[j - 1])]}   \* not right after an item of the list around it
  IN Len(Only(machine.ev, {"li"})) = Cardinality(ls) + Cardinality(lone)
=============================================================================
