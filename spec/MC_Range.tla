------------------------------- MODULE MC_Range -------------------------------
(* C04: every range text over a small alphabet, in bits and bytes figures and *)
(* in dynamic lists.  A choice is a first pair of characters; its document    *)
(* has one row per continuation.                                              *)
EXTENDS MCBase

PlainAlphabet == {48, 49, 57, COLON, SPACE, NEWLINE, 120}       \* 0 1 9 : blank newline x
ListAlphabet == {110, 49, 43, LPAREN, COLON, SPACE, NEWLINE, 93}  \* n 1 + ( : blank newline ]
MaxTail == IF Thorough THEN 3 ELSE 2
RangeChoices == [dyn : {FALSE}, kind : {"bits", "bytes"}, head : [1..2 -> PlainAlphabet], skip : {TRUE}]
           \cup [dyn : {TRUE}, kind : {"bits", "bytes"}, head : [1..2 -> ListAlphabet], skip : {TRUE}]
Alphabet(c) == IF c.dyn THEN ListAlphabet ELSE PlainAlphabet

RECURSIVE TailsOf(_, _)
TailsOf(A, n) == IF n = 0 THEN {<<>>} ELSE LET s == TailsOf(A, n - 1) IN s \cup {Append(t, a) : t \in {u \in s : Len(u) = n - 1}, a \in A}
PlainTails == TLCEval(SetSeq(TailsOf(PlainAlphabet, MaxTail)))
LineAlphabet == {110, COLON, NEWLINE, SPACE}                     \* n : newline blank
ListTails == TLCEval(SetSeq(TailsOf(ListAlphabet, MaxTail) \cup TailsOf(LineAlphabet, MaxTail + 1)))
Tails(c) == IF c.dyn THEN ListTails ELSE PlainTails
TextOf(c, j) == c.head \o Tails(c)[j]
N(c) == Len(Tails(c))
RangeBuild(c) ==
  Document(<<Figure(T("1"), HdrOf(c.kind),
     (IF c.dyn THEN <<Tr(<<Wide(Th(T("Foo List")), 2)>>)>> ELSE <<>>)
     \o [j \in 1..N(c) |-> Tr(<<Td(TextOf(c, j)), Td(T("F") \o N2T(j) \o T(": x"))>>)])>>)

(* the property: numbers by their values *)
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE 10 * Value(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
Dig(c) == c \in 48..57
Ws(c) == c \in {SPACE, NEWLINE}
AllIn(s, i, j, Test(_)) == \A h \in i..j : Test(s[h])
(* s[1..i-1] digits, s[i..k-1] white, s[k] colon, s[k+1..l-1] white, s[l..m] digits, maximal *)
Number(s) == LET i == CHOOSE i \in 1..Len(s) : AllIn(s, 1, i, Dig) /\ (i = Len(s) \/ ~Dig(s[i + 1])) IN i
PairAt(s) == {<<k, l, m>> \in (1..Len(s)) \X (1..Len(s)) \X (1..Len(s)) :
                 /\ Number(s) < k /\ s[k] = COLON /\ AllIn(s, Number(s) + 1, k - 1, Ws)
                 /\ k < l /\ AllIn(s, k + 1, l - 1, Ws) /\ l <= m /\ AllIn(s, l, m, Dig)
                 /\ (m = Len(s) \/ ~Dig(s[m + 1]))}
Formula(c) == c \in {110, 49, 43, LPAREN, 48}
(* the rows of the figure in document order *)
FieldOf(c, j) == LET fs == machine.out[1].fields
                     n == Len(fs)
                 IN fs[IF c.kind = "bits" THEN n + 1 - j ELSE j]
LintOf(c, s, code) == Len(SelectSeq(machine.lint, LAMBDA l : l.code = code /\ l.row = s))
SameText(c, s) == Cardinality({h \in 1..N(c) : Strip(TextOf(c, h)) = s})
PlainOK(c, j) ==
  LET s == Strip(TextOf(c, j))
      f == FieldOf(c, j).rng
      same == SameText(c, s)
      number == s /= <<>> /\ Dig(s[1])
      hi == Value(SubSeq(s, 1, Number(s)))
      p == PairAt(s)
      q == CHOOSE x \in p : TRUE
      lo == IF p = {} THEN hi ELSE Value(SubSeq(s, q[2], q[3]))
  IN IF ~number
       THEN /\ f = TextRange(s) /\ LintOf(c, s, "R1001") = same /\ LintOf(c, s, "R1002") = 0
       ELSE /\ Cardinality(p) <= 1
            /\ f.k = "int" /\ f.hi = N2T(hi) /\ f.lo = N2T(lo)
            /\ LintOf(c, s, "R1001") = 0 /\ LintOf(c, s, "R1002") = (IF lo > hi THEN same ELSE 0)
ListOK(c, j) ==
  LET s == Strip(TextOf(c, j))
      t == SelectSeq(s, LAMBDA x : ~Ws(x))
      k == {i \in 2..(Len(t) - 1) : t[i] = COLON /\ AllIn(t, 1, i - 1, Formula) /\ Formula(t[i + 1])}
      i == CHOOSE x \in k : TRUE
      m == CHOOSE x \in (i + 1)..Len(t) : AllIn(t, i + 1, x, Formula) /\ (x = Len(t) \/ ~Formula(t[x + 1]))
      f == FieldOf(c, j).rng
  IN IF k = {} THEN f = TextRange(s) /\ LintOf(c, s, "R1001") = SameText(c, s)
     ELSE f = [k |-> "str", hi |-> SubSeq(t, 1, i - 1), lo |-> SubSeq(t, i + 1, m)] /\ LintOf(c, s, "R1001") = 0
C04 == machine.pc = "done" =>
  /\ Len(machine.out) = 1 /\ Len(machine.out[1].fields) = N(choice)
  /\ \A j \in 1..N(choice) : IF choice.dyn THEN ListOK(choice, j) ELSE PlainOK(choice, j)
=============================================================================
