------------------------------- MODULE MC_Brief -------------------------------
(* C08: descriptions around the length limit, in every kind of figure.       *)
EXTENDS MCBase

Leads0 == {T("Foo Bar (FB)"), T("Foo"), T("Foo Bar (FB) tail"), T("foo.x"), T("Foo ["), <<>>}
Seps == {T(": "), T(":"), T(" : "), T(" "), T(":   "), <<COLON, NEWLINE>>}
(* the description: its first sentence, and what follows *)
Lens == IF Thorough THEN {0, 1, 20, 57, 58, 59, 60, 61, 62, 120} ELSE {0, 1, 58, 59, 60, 61, 62}
Ends == {<<>>, T("."), T("..."), T(". "), T(". b"), T(". Second sentence: which is quite long and has, moreover, several more words in it"),
         T(" (see x): y. z"), <<NEWLINE>>}
BriefChoices == [kind : {"bits", "bytes", "values"}, own : BOOLEAN, lead : Leads0, sep : Seps, skip : {TRUE}]

Run1(n) == TLCEval([j \in 1..n |-> IF j % 7 = 0 /\ j /= n THEN SPACE ELSE 97])
BodySeq == TLCEval(SetSeq({<<n, e>> : n \in Lens, e \in Ends}))
TextOf(c, j) == c.lead \o c.sep \o Run1(BodySeq[j][1]) \o BodySeq[j][2]
HdrsOf(c) == CASE c.kind = "values" -> IF c.own THEN <<T("Value"), T("Attribute"), T("Definition")>> ELSE ValueHdr
              [] OTHER -> <<IF c.kind = "bits" THEN T("Bits") ELSE T("Bytes")>> \o (IF c.own THEN <<T("Attribute")>> ELSE <<>>) \o <<T("Description")>>
RowOf(c, j) == IF c.own THEN Tr(<<Td(N2T(j)), Td(T("L: x")), Td(TextOf(c, j))>>) ELSE Tr(<<Td(N2T(j)), Td(TextOf(c, j))>>)
BriefBuild(c) == Document(<<Figure(T("1"), HdrsOf(c), TLCEval([j \in 1..Len(BodySeq) |-> RowOf(c, j)]))>>)

FieldOf(j) == LET fs == machine.out[1].fields IN fs[IF choice.kind = "bits" THEN Len(fs) + 1 - j ELSE j]
WordCh(x) == x \in (48..57) \cup (65..90) \cup (97..122) \cup {95, 233, 201}
WsCh(x) == x \in {9, 10, 13, 32}
(* the longest text matching words (acronym) in front, then at most one colon *)
Head3(s) ==
  LET Lead(x) == WordCh(x) \/ WsCh(x) \/ x \in {DASH, DOT, SLASH, 44, 38}
      Acr(x) == WordCh(x) \/ WsCh(x)
      Longest(i, Test(_)) == CHOOSE j \in (i - 1)..Len(s) : (\A h \in i..j : Test(s[h])) /\ (j = Len(s) \/ ~Test(s[j + 1]))
      At(i, x) == i <= Len(s) /\ s[i] = x
      a == Longest(1, Lead)
      b == IF At(a + 1, LPAREN) THEN a + 1 ELSE a
      d == Longest(b + 1, Acr)
      e == IF At(d + 1, RPAREN) THEN d + 1 ELSE d
  IN IF At(e + 1, COLON) THEN e + 1 ELSE e
Rest(s) == SubSeq(s, Head3(s) + 1, Len(s))
Trim(s) == LET r == CHOOSE j \in 0..Len(s) : (j = 0 \/ s[j] /= DOT) /\ \A h \in (j + 1)..Len(s) : s[h] = DOT
               l == CHOOSE j \in 0..r : (j = r \/ s[j + 1] /= SPACE) /\ \A h \in 1..j : s[h] = SPACE
           IN SubSeq(s, l + 1, r)
Sentence(s) == IF \E j \in 1..Len(s) : s[j] = DOT THEN SubSeq(s, 1, (CHOOSE j \in 1..Len(s) : s[j] = DOT /\ \A h \in 1..(j - 1) : s[h] /= DOT) - 1) ELSE s
C08 == machine.pc = "done" =>
  /\ Len(machine.out[1].fields) = Len(BodySeq)
  /\ \A j \in 1..Len(BodySeq) :
       LET s == Strip(TextOf(choice, j))
           r == Rest(s)
           t == Trim(r)
           got == FieldOf(j).brief
           want == IF ~Has(s, COLON) \/ r = <<>> THEN None
                   ELSE IF Len(t) <= 60 THEN t ELSE IF Len(Sentence(t)) <= 60 THEN Sentence(t) ELSE None
       IN /\ FieldOf(j).rng.lo = N2T(j)
          /\ got = (IF want = <<>> /\ choice.kind /= "values" THEN None ELSE want)
          /\ got /= None => (Len(got) <= 60 /\ \E i \in 1..(Len(s) + 1) : SubSeq(s, i, i + Len(got) - 1) = got)
=============================================================================
