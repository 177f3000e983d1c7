------------------------------ MODULE MC_Headers ------------------------------
(* C11: every sequence of up to three (thorough: four) column headings, in    *)
(* varying spellings.  A choice fixes all headings but the last, for which    *)
(* its document has a figure each.                                            *)
EXTENDS MCBase

Words == <<T("bits"), T("bytes"), T("value"), T("values"), T("code"), T("bit"), T("byte"), T("description"),
           T("definition"), T("attribute"), T("power scope"), T("foo"), <<>>, T("bits foo")>>
NW == Len(Words)
MaxHead == IF Thorough THEN 3 ELSE 2
HeadersChoices == [front : UNION {[1..n -> 1..NW] : n \in 0..MaxHead}, spell : 1..(IF Thorough THEN 5 ELSE 2), skip : {TRUE}]

(* spellings of a heading *)
Capital(s) == IF s = <<>> THEN s ELSE UpperOf(s[1]) \o Tail(s)
Spaced(s) == LET i == Find(s, SPACE, 1) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i) \o <<NEWLINE, SPACE>> \o From(s, i + 1)
Broken(s) == [j \in 1..Len(s) |-> IF s[j] = SPACE THEN NEWLINE ELSE s[j]]
Spell(s, k) == CASE k = 0 -> Capital(s)
                 [] k = 1 -> <<SPACE, NEWLINE>> \o Upper(Spaced(s)) \o <<SPACE>>
                 [] k = 2 -> Spaced(Capital(s)) \o <<9>>
                 [] k = 3 -> Broken(s)
                 [] OTHER -> <<NEWLINE>> \o Capital(Spaced(s))
HeadsOf(c, h) == Append(c.front, h)
Titles(c, h) == [j \in 1..Len(HeadsOf(c, h)) |-> Spell(Words[HeadsOf(c, h)[j]], (c.spell * j + h + c.spell) % 5)]
RowFor(n) == Tr([j \in 1..n |-> Td(T("c") \o N2T(j))])
HeadersBuild(c) == Document(TLCEval([h \in 1..NW |-> Figure(N2T(h), Titles(c, h), <<RowFor(Len(c.front) + 1)>>)]))

(* the kind and columns by the headings as a set and order *)
Canonical(w) == CASE w = T("code") -> T("value") [] w = T("bit") -> T("bits") [] w = T("byte") -> T("bytes") [] OTHER -> w
Can(c, h) == [j \in 1..Len(HeadsOf(c, h)) |-> Canonical(Words[HeadsOf(c, h)[j]])]
In2(hs, S) == {j \in 1..Len(hs) : hs[j] \in S}
Least(S) == CHOOSE j \in S : \A i \in S : j <= i
LastOf(hs, w) == CHOOSE j \in In2(hs, {w}) : \A i \in In2(hs, {w}) : i <= j
(* the column of the first heading among S (of several equal headings, the last) *)
ColOf(hs, S) == LastOf(hs, hs[Least(In2(hs, S))])
Struct(hs, w) == In2(hs, {w}) /= {} /\ In2(hs, {T("description")}) /= {}
Listed(hs) == In2(hs, {T("value"), T("values")}) /= {} /\ In2(hs, {T("definition"), T("description"), T("power scope")}) /= {}
Pair(hs) == Len(hs) = 2 /\ ((hs[1] = T("value") /\ hs[2] \notin {T("value"), <<>>}) \/ (hs[2] = T("value") /\ hs[1] \notin {T("value"), T("values"), <<>>}))
KindFor(hs) == IF Struct(hs, T("bytes")) THEN "bytes" ELSE IF Listed(hs) \/ Pair(hs) THEN "values" ELSE IF Struct(hs, T("bits")) THEN "bits" ELSE "none"
(* the texts read: key, name *)
KeyCol(hs) == LET k == KindFor(hs)
              IN IF k = "bytes" THEN LastOf(hs, T("bytes")) ELSE IF k = "bits" THEN LastOf(hs, T("bits"))
                 ELSE IF Listed(hs) THEN ColOf(hs, {T("value"), T("values")}) ELSE LastOf(hs, T("value"))
NameCol(hs) == LET k == KindFor(hs)
               IN IF k \in {"bytes", "bits"} THEN ColOf(hs, {T("attribute"), T("description")})
                  ELSE IF Listed(hs) THEN ColOf(hs, {T("attribute"), T("definition"), T("description"), T("power scope")})
                  ELSE 3 - KeyCol(hs)
DescCol(hs) == LET k == KindFor(hs)
               IN IF k \in {"bytes", "bits"} THEN LastOf(hs, T("description"))
                  ELSE IF Listed(hs) THEN ColOf(hs, {T("definition"), T("description"), T("power scope")})
                  ELSE 3 - KeyCol(hs)
LintFor(code, h) == SelectSeq(machine.lint, LAMBDA l : l.code = code /\ l.fig = N2T(h))
C11 == machine.pc = "done" =>
  \A h \in 1..NW :
    LET hs == Can(choice, h)
        kind == KindFor(hs)
        es == SelectSeq(machine.out, LAMBDA e : e.id = N2T(h))
        syn == {j \in 1..Len(hs) : hs[j] /= Words[HeadsOf(choice, h)[j]]}
        CellText(j) == T("c") \o N2T(j)
        own == NameCol(hs) /= DescCol(hs)
    IN /\ Len(LintFor("T1006", h)) = Cardinality(syn)
       /\ IF kind = "none"
            THEN es = <<>> /\ Len(LintFor("T1007", h)) = 1
                 /\ LintFor("T1007", h)[1].ctx = <<[k |-> "columns", v |-> [j \in 1..Len(hs) |-> hs[j]]]>>
            ELSE /\ LintFor("T1007", h) = <<>> /\ Len(es) = 1 /\ es[1].type = kind /\ Len(es[1].fields) = 1
                 /\ RowKey(es[1].fields[1].rng) = CellText(KeyCol(hs))
                 /\ kind = "values" => es[1].fields[1].label = Upper(CellText(NameCol(hs)))
                 /\ Len(LintFor("L1003", h)) = (IF own THEN 1 ELSE 0)
=============================================================================
