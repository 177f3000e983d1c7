------------------------------ MODULE MC_Values ------------------------------
(* C07: label texts of value tables over a small alphabet in both column     *)
(* arrangements, and every short sequence of values and labels.              *)
EXTENDS MCBase

Alphabet == {65, 98, 49, SPACE, DASH, LPAREN, COLON, DOT, SLASH, NEWLINE}   \* A b 1 blank - ( : . / newline
MaxTail == IF Thorough THEN 3 ELSE 2
DupVals == {T("0h"), T("1H"), TEllipsis}
DupLabels == {T("Foo: x"), T("foo"), T("RESERVED"), T("1 Foo (y)")}
MaxRows == IF Thorough THEN 4 ELSE 3
ValuesChoices == [own : BOOLEAN, head : [1..2 -> Alphabet], rows : {<<>>}, skip : {TRUE}]
            \cup [own : {FALSE}, head : {<<>>}, rows : UNION {[1..n -> DupVals \X DupLabels] : n \in 1..MaxRows}, skip : {TRUE}]

RECURSIVE TailsOf(_, _)
TailsOf(A, n) == IF n = 0 THEN {<<>>} ELSE LET s == TailsOf(A, n - 1) IN s \cup {Append(t, a) : t \in {u \in s : Len(u) = n - 1}, a \in A}
TailSeq == TLCEval(SetSeq(TailsOf(Alphabet, MaxTail)))
Free(c) == c.rows = <<>>
NRows(c) == IF Free(c) THEN Len(TailSeq) ELSE Len(c.rows)
ValText(c, j) == IF Free(c) THEN T("V") \o N2T(j) ELSE c.rows[j][1]
DefText(c, j) == IF Free(c) THEN c.head \o TailSeq[j] ELSE c.rows[j][2]
RowOf(c, j) == IF c.own THEN Tr(<<Td(ValText(c, j)), Td(DefText(c, j)), Td(T("Desc"))>>) ELSE Tr(<<Td(ValText(c, j)), Td(DefText(c, j))>>)
ValuesBuild(c) ==
  Document(<<Figure(T("1"), IF c.own THEN <<T("Value"), T("Attribute"), T("Description")>> ELSE ValueHdr,
                    TLCEval([j \in 1..NRows(c) |-> RowOf(c, j)]))>>)

WordCh(x) == x \in (48..57) \cup (65..90) \cup (97..122) \cup {95}
WsCh(x) == x \in {9, 10, 13, 32}
LeadCh(x) == WordCh(x) \/ WsCh(x) \/ x \in {DASH, SLASH}
Dig(x) == x \in 48..57
All(s, i, j, Test(_)) == \A h \in i..j : Test(s[h])
Longest(s, i, Test(_)) == CHOOSE j \in (i - 1)..Len(s) : All(s, i, j, Test) /\ (j = Len(s) \/ ~Test(s[j + 1]))
Tidy(s) == LET a == Strip(s)
               b == SelectSeq(a, LAMBDA x : x /= SLASH)
           IN Upper(Halve([j \in 1..Len(b) |-> IF b[j] \in {SPACE, DASH} THEN UNDERSCORE ELSE b[j]], UNDERSCORE))
FirstLine(s) == LET n == {j \in 1..Len(s) : s[j] = NEWLINE} IN IF n = {} THEN s ELSE SubSeq(s, 1, (CHOOSE j \in n : \A h \in n : j <= h) - 1)
Bare(s) == CHOOSE t \in {SubSeq(s, i, j) : i \in 1..(Len(s) + 1), j \in 0..Len(s)} :
             /\ (t = <<>> \/ (t[1] /= UNDERSCORE /\ t[Len(t)] /= UNDERSCORE))
             /\ \E i \in 1..(Len(s) + 1), j \in 0..Len(s) : t = SubSeq(s, i, j) /\ \A h \in (1..(i - 1)) \cup ((j + 1)..Len(s)) : s[h] = UNDERSCORE
NumberLast(s) == LET d == Longest(s, 1, Dig)
                 IN IF d = 0 THEN s ELSE Bare(Bare(FirstLine(SubSeq(s, d + 1, Len(s)))) \o <<UNDERSCORE>> \o SubSeq(s, 1, d))
BlanksToUnderscores(s) == [j \in 1..Len(s) |-> IF s[j] = SPACE THEN UNDERSCORE ELSE s[j]]
LabelOf(c, s) ==
  IF c.own THEN LET k == {j \in 1..Len(s) : s[j] = COLON}
                    b == IF k = {} THEN s ELSE SubSeq(s, 1, (CHOOSE j \in k : \A h \in k : j <= h) - 1)
                IN Tidy(NumberLast(Upper(BlanksToUnderscores(b))))
  ELSE LET e == Longest(s, 1, LeadCh) IN Tidy(NumberLast(IF e = 0 THEN s ELSE SubSeq(s, 1, e)))
GoodName(n) == \/ n /= <<>> /\ n[1] \in 65..90 /\ All(n, 1, Len(n), WordCh)
               \/ \E j \in 1..Len(n) : n[j] = DOT /\ All(n, 1, j - 1, WsCh)
N(code, row) == Len(SelectSeq(machine.lint, LAMBDA l : l.code = code /\ l.row = row))
C07 == machine.pc = "done" /\ Free(choice) =>
  LET fs == machine.out[1].fields
  IN /\ Len(fs) = NRows(choice)
     /\ \A j \in 1..Len(fs) :
          LET s == Strip(DefText(choice, j))
              v == Lower(ValText(choice, j))
              colon == \E h \in 1..Len(s) : s[h] = COLON
              none == s = <<>> \/ ~LeadCh(s[1])
          IN /\ fs[j].rng.lo = v /\ fs[j].label = LabelOf(choice, s)
             /\ N("L1004", v) = (IF GoodName(fs[j].label) THEN 0 ELSE 1)
             /\ N("L1003", v) = (IF choice.own /\ ~colon THEN 1 ELSE 0)
             /\ N("L1000", v) = (IF ~choice.own /\ none THEN 1 ELSE 0)
             /\ N("V1002", v) = 0
             /\ N("L1002", v) = (IF \E h \in 1..(j - 1) : fs[h].label = fs[j].label THEN 1 ELSE 0)
C07dup == machine.pc = "done" /\ ~Free(choice) =>
  LET fs == machine.out[1].fields
      rows == choice.rows
      val(j) == Lower(rows[j][1])
      label(j) == IF rows[j][1] = TEllipsis THEN TEllipsis
                  ELSE CASE rows[j][2] = T("Foo: x") -> T("FOO") [] rows[j][2] = T("foo") -> T("FOO")
                         [] rows[j][2] = T("RESERVED") -> TRESERVED [] OTHER -> T("FOO_1")
      counted == {j \in 1..Len(rows) : label(j) \notin {TRESERVED, TEllipsis}}
  IN /\ Len(fs) = Len(rows)
     /\ \A j \in 1..Len(rows) : fs[j].rng.lo = val(j) /\ fs[j].label = label(j)
     /\ Len(SelectSeq(machine.lint, LAMBDA l : l.code = "L1002")) = Cardinality(counted) - Cardinality({label(j) : j \in counted})
     /\ Len(SelectSeq(machine.lint, LAMBDA l : l.code = "V1002")) = Cardinality(counted) - Cardinality({val(j) : j \in counted})
     /\ \A j \in 1..Len(machine.lint) : machine.lint[j].row \in {val(h) : h \in counted}
=============================================================================
