------------------------------ MODULE MC_Labels ------------------------------
(* C06: every label text over a small alphabet in both column arrangements,   *)
(* and every short sequence of names with repetitions.                        *)
EXTENDS MCBase

Alphabet == {65, 98, 49, SPACE, DASH, LPAREN, RPAREN, COLON, DOT, SLASH, 233, 223}   \* A b 1 blank - ( ) : . / e-acute, sharp s (SS in upper case)
UniAcute == [c \in {174, 8230, 233, 201, 223} |-> CASE c = 233 -> [w |-> TRUE, s |-> FALSE, d |-> -1, u |-> <<201>>, l |-> <<233>>]
                                               [] c = 201 -> [w |-> TRUE, s |-> FALSE, d |-> -1, u |-> <<201>>, l |-> <<233>>]
                                               [] c = 223 -> [w |-> TRUE, s |-> FALSE, d |-> -1, u |-> <<83, 83>>, l |-> <<223>>]
                                               [] OTHER -> [w |-> FALSE, s |-> FALSE, d |-> -1, u |-> <<c>>, l |-> <<c>>]]
MaxTail == IF Thorough THEN 3 ELSE 2
Dups == {T("Foo (A): x"), T("A: y"), T("Bar (B)"), T("Reserved"), TEllipsis, T("a")}
LabelsChoices == [own : BOOLEAN, head : [1..2 -> Alphabet], dup : {<<>>}, skip : {TRUE}]
            \cup [own : {FALSE}, head : {<<>>}, dup : [1..4 -> Dups], skip : {TRUE}]

RECURSIVE TailsOf(_, _)
TailsOf(A, n) == IF n = 0 THEN {<<>>} ELSE LET s == TailsOf(A, n - 1) IN s \cup {Append(t, a) : t \in {u \in s : Len(u) = n - 1}, a \in A}
TailSeq == TLCEval(SetSeq(TailsOf(Alphabet, MaxTail)))
Texts(c) == IF c.dup /= <<>> THEN c.dup ELSE [j \in 1..Len(TailSeq) |-> c.head \o TailSeq[j]]
RowOf(c, j, text) == IF c.own THEN Tr(<<Td(N2T(j)), Td(text), Td(T("Desc"))>>) ELSE Tr(<<Td(N2T(j)), Td(text)>>)
LabelsBuild(c) ==
  LET ts == TLCEval(Texts(c))
  IN Document(<<Figure(T("1"), IF c.own THEN <<T("Bytes"), T("Attribute"), T("Description")>> ELSE BytesHdr,
                       [j \in 1..Len(ts) |-> RowOf(c, j, ts[j])])>>)

(* the property, stated without scanning: a text is split at the places that
   have the required form *)
WordCh(x) == x \in (48..57) \cup (65..90) \cup (97..122) \cup {95, 223, 233, 201}
WsCh(x) == x \in {9, 10, 13, 32}
LeadCh(x) == WordCh(x) \/ WsCh(x) \/ x \in {DASH, DOT, SLASH, 44, 38}
AcrCh(x) == WordCh(x) \/ WsCh(x)
All(s, i, j, Test(_)) == \A h \in i..j : Test(s[h])
Longest(s, i, Test(_)) == CHOOSE j \in (i - 1)..Len(s) : All(s, i, j, Test) /\ (j = Len(s) \/ ~Test(s[j + 1]))
Words(s) == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : ~WsCh(s[j]) /\ (j = 1 \/ WsCh(s[j - 1])))
FirstChars(s) == [j \in 1..Len(Words(s)) |-> s[Words(s)[j]]]
(* upper, then lower case, blanks and dashes as underscores (slashes dropped), pairs of underscores merged *)
Tidy(s) == LET a == Strip(s)
               b == SelectSeq(a, LAMBDA x : x /= SLASH)
           IN Lower(Upper(Halve([j \in 1..Len(b) |-> IF b[j] \in {SPACE, DASH} THEN UNDERSCORE ELSE b[j]], UNDERSCORE)))
SharedOf(s) ==
  LET e == Longest(s, 1, LeadCh)
      paren == e < Len(s) /\ s[e + 1] = LPAREN
      i == IF paren THEN e + 2 ELSE e + 1
      f == Longest(s, i, AcrCh)
  IN IF f >= i THEN [n |-> Tidy(SubSeq(s, i, f)), bad |-> FALSE]
     ELSE IF e >= 1 THEN [n |-> Tidy(FirstChars(SubSeq(s, 1, e))), bad |-> FALSE]
     ELSE [n |-> Tidy(s), bad |-> TRUE]
OwnOf(s) == LET c == {j \in 1..Len(s) : s[j] = COLON}
                k == CHOOSE j \in c : \A h \in c : j <= h
            IN IF c = {} THEN [n |-> Tidy(FirstChars(s)), imputed |-> TRUE, blank |-> FALSE]
               ELSE [n |-> Tidy(SubSeq(s, 1, k - 1)), imputed |-> FALSE, blank |-> \E j \in 1..(k - 1) : s[j] = SPACE]
AsciiLetter(x) == x \in (65..90) \cup (97..122)
GoodName(n) == \/ n /= <<>> /\ AsciiLetter(n[1]) /\ All(n, 1, Len(n), WordCh)
               \/ \E j \in 1..Len(n) : n[j] = DOT /\ All(n, 1, j - 1, WsCh)
               \/ n = TEllipsis
IsRes(s) == s \in {TRESERVED, TEllipsis}
C06 == machine.pc = "done" /\ choice.dup = <<>> =>
  LET ts == TLCEval(Texts(choice))
      fs == machine.out[1].fields
      lint == machine.lint
      RowLint(j, code) == Len(SelectSeq(lint, LAMBDA l : l.code = code /\ l.row = N2T(j)))
  IN /\ Len(fs) = Len(ts)
     /\ \A j \in 1..Len(ts) :
          LET s == Strip(ts[j])
              sh == SharedOf(s)
              ow == OwnOf(s)
              name == IF choice.own THEN ow.n ELSE sh.n
          IN /\ fs[j].label = name /\ fs[j].rng.lo = N2T(j)
             /\ RowLint(j, "L1004") = (IF GoodName(name) THEN 0 ELSE 1) + (IF choice.own /\ ow.blank THEN 1 ELSE 0)
             /\ RowLint(j, "L1003") = (IF choice.own /\ ow.imputed THEN 1 ELSE 0)
             /\ RowLint(j, "L1000") = (IF ~choice.own /\ sh.bad THEN 1 ELSE 0)
             /\ RowLint(j, "L1002") = (IF \E h \in 1..(j - 1) : fs[h].label = name THEN 1 ELSE 0)
             /\ ~Has(name, SPACE) /\ ~Has(name, DASH) /\ ~Has(name, SLASH)
(* repetitions *)
C06dup == machine.pc = "done" /\ choice.dup /= <<>> =>
  LET fs == machine.out[1].fields
      Times(n) == Cardinality({j \in 1..Len(fs) : fs[j].label = n})
      names == {fs[j].label : j \in 1..Len(fs)} \ {TRESERVED, TEllipsis}
      L(n) == Len(SelectSeq(machine.lint, LAMBDA l : l.code = "L1002" /\ l.ctx = Ctx1("label", n)))
  IN /\ Len(fs) = 4
     /\ \A n \in names : L(n) = Times(n) - 1
     /\ Len(SelectSeq(machine.lint, LAMBDA l : l.code = "L1002")) = 4 - Cardinality(names) - Times(TRESERVED) - Times(TEllipsis)
=============================================================================
