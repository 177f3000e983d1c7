------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* How the text of a row's cells gives a field: bounds, names, briefs; and *)
(* the lint raised on the way.  A lint entry is                            *)
(*   [code, fig, row, ctx] with ctx a sequence of [k: name, v: texts].     *)
(***************************************************************************)
EXTENDS Html

Issue(code, fig, row, ctx) == [code |-> code, fig |-> fig, row |-> row, ctx |-> ctx]
Ctx1(k, v) == <<[k |-> k, v |-> <<v>>]>>

(* ---- bounds: [k: "int" | "str" | "text", lo, hi] ---- *)
IntRange(lo, hi) == [k |-> "int", lo |-> lo, hi |-> hi]
StrRange(lo, hi) == [k |-> "str", lo |-> lo, hi |-> hi]
TextRange(t) == [k |-> "text", lo |-> t, hi |-> <<>>]
EllipsisRange == IntRange(MinusOne, MinusOne)
RowKey(r) == r.lo

Range(text, fig) ==
  LET d1 == Prefix(text, "digit")
      a == Skip(text, "space", Len(d1) + 1)
      pair == a <= Len(text) /\ text[a] = COLON
      b == Skip(text, "space", a + 1)
      d2 == IF pair THEN SubSeq(text, b, Skip(text, "digit", b) - 1) ELSE <<>>
      hi == Canon(d1)
      lo == IF d2 = <<>> THEN hi ELSE Canon(d2)
  IN IF d1 = <<>> THEN [r |-> TextRange(text), lint |-> <<Issue("R1001", fig, text, <<>>)>>]
     ELSE [r |-> IntRange(lo, hi),
           lint |-> IF NatLess(hi, lo) THEN <<Issue("R1002", fig, text, <<>>)>> ELSE <<>>]

(* rows of a dynamic list: both sides of the colon as text without blanks *)
DynamicRange(text, fig) ==
  LET t == Delete(Delete(text, NEWLINE), SPACE)
      a == Prefix(t, "formula")
      i == Len(a) + 1
      b == SubSeq(t, i + 1, Skip(t, "formula", i + 1) - 1)
  IN IF a /= <<>> /\ i <= Len(t) /\ t[i] = COLON /\ b /= <<>>
       THEN [r |-> StrRange(b, a), lint |-> <<>>]
       ELSE [r |-> TextRange(text), lint |-> <<Issue("R1001", fig, text, <<>>)>>]

(* ---- special rows ---- *)
IsSpecialWord(t) == (Len(t) = 8 /\ Upper(t) \in {TRESERVED, TOBSOLETE}) \/ t = TEllipsis
IsNote(t) == Lower(Start(t, 4)) = Tnote
IsSpecial(t) == IsSpecialWord(t) \/ IsNote(t)

(* ---- names ---- *)
Normalize(t) == Upper(Halve(Subst(Delete(Subst(Strip(t), SPACE, UNDERSCORE), SLASH), DASH, UNDERSCORE), UNDERSCORE))
ValidName(t) ==
  \/ t /= <<>> /\ IsAlphaA(t[1]) /\ Skip(t, "word", 1) = Len(t) + 1
  \/ LET i == Skip(t, "space", 1) IN i <= Len(t) /\ t[i] = DOT
  \/ t /= <<>> /\ t[1] = ELLIPSIS /\ Skip(t, "space", 2) = Len(t) + 1
NameLint(t, fig, row) == IF ValidName(t) THEN <<>> ELSE <<Issue("L1004", fig, row, Ctx1("label", t))>>

(* words [ "(" acronym ")" ] [ ":" ] brief *)
Label3(text) ==
  LET l == Prefix(text, "struct")
      i == Len(l) + 1
      j == IF i <= Len(text) /\ text[i] = LPAREN THEN i + 1 ELSE i
      m == Skip(text, "words", j)
      n == IF m <= Len(text) /\ text[m] = RPAREN THEN m + 1 ELSE m
      o == IF n <= Len(text) /\ text[n] = COLON THEN n + 1 ELSE n
  IN [label |-> l, acronym |-> SubSeq(text, j, m - 1), brief |-> From(text, o)]

(* name of a struct field from a column shared with the description *)
SharedName(text, fig, row) ==
  LET p == Label3(text)
      raw == IF p.acronym /= <<>> THEN [n |-> p.acronym, lint |-> <<>>]
             ELSE IF p.label /= <<>>
               THEN [n |-> IF IsSpecialWord(p.label) THEN p.label ELSE Lower(Initials(p.label)), lint |-> <<>>]
             ELSE [n |-> text, lint |-> <<Issue("L1000", fig, row, <<>>)>>]
      nn == Normalize(raw.n)
  IN [n |-> Lower(nn), lint |-> raw.lint \o NameLint(nn, fig, row)]

(* name of a struct field from a column of its own *)
OwnColumnName(text, fig, row) ==
  LET raw == IF ~Has(text, COLON)
               THEN [n |-> Initials(text), lint |-> <<Issue("L1003", fig, row, <<>>)>>]
               ELSE LET b == Before(text, COLON)
                    IN [n |-> b, lint |-> IF Has(b, SPACE) THEN <<Issue("L1004", fig, row, <<>>)>> ELSE <<>>]
      nn == Normalize(raw.n)
  IN [n |-> Lower(nn), lint |-> raw.lint \o NameLint(nn, fig, row)]

(* a leading number of a value's name goes to the end *)
Rearrange(t) ==
  LET d == Prefix(t, "digit")
      rest == StripOf(Before(From(t, Len(d) + 1), NEWLINE), "under")
  IN IF d = <<>> THEN t ELSE StripOf(rest \o <<UNDERSCORE>> \o d, "under")

ValueName(raw, fig, row, lint) ==
  LET n == Normalize(Rearrange(raw))
  IN [n |-> n, lint |-> lint \o NameLint(n, fig, row)]
SharedValueName(text, fig, row) ==
  IF Upper(text) = TRESERVED THEN [n |-> TRESERVED, lint |-> <<>>]
  ELSE LET l == Prefix(text, "value")
       IN IF l /= <<>> THEN ValueName(l, fig, row, <<>>)
          ELSE ValueName(text, fig, row, <<Issue("L1000", fig, row, <<>>)>>)
OwnColumnValueName(text, fig, row) ==
  LET t == Lower(text)
      raw == Upper(Subst(Before(t, COLON), SPACE, UNDERSCORE))
      l3 == IF Has(t, COLON) THEN <<>> ELSE <<Issue("L1003", fig, row, <<>>)>>
  IN IF t = Treserved THEN [n |-> TRESERVED, lint |-> <<>>]
     ELSE IF raw = TRESERVED THEN [n |-> TRESERVED, lint |-> l3]
     ELSE ValueName(raw, fig, row, l3)

(* ---- briefs ---- *)
BriefMax == 60
Brief(text) ==
  LET b0 == Label3(text).brief
      b == StripL(StripR(b0, "dot"), "blank")
      first == Before(b, DOT)
  IN IF ~Has(text, COLON) \/ b0 = <<>> THEN None
     ELSE IF Len(b) <= BriefMax THEN b
     ELSE IF Len(first) <= BriefMax THEN first
     ELSE None
StructBrief(text) == LET b == Brief(text) IN IF b = <<>> THEN None ELSE b

(* ---- headings ---- *)
Heading(text) ==   \* text of the cell
  Strip(Collapse(SelectSeq(Subst(Strip(Lower(text)), NEWLINE, SPACE), LAMBDA c : c /= 13), SPACE))
Synonym(h) == IF h = Tcode THEN Tvalue ELSE IF h = Tbit THEN Tbits ELSE IF h = Tbyte THEN Tbytes ELSE h

FirstIn(hdrs, set) ==
  LET c == {i \in 1..Len(hdrs) : hdrs[i] \in set}
  IN IF c = {} THEN None ELSE hdrs[CHOOSE i \in c : \A j \in c : i <= j]
LastIdx(hdrs, h) == CHOOSE i \in 1..Len(hdrs) : hdrs[i] = h /\ \A j \in (i + 1)..Len(hdrs) : hdrs[j] /= h

(* which headings hold range or value, name and content for a kind *)
Columns(kind, hdrs) ==
  IF kind = "values" THEN
    LET v == FirstIn(hdrs, {Tvalue, Tvalues})
        l == FirstIn(hdrs, {Tattribute, Tdefinition, Tdescription, TpowerScope})
        c == FirstIn(hdrs, {Tdefinition, Tdescription, TpowerScope})
        other == IF Len(hdrs) = 2 THEN (IF hdrs[1] /= Tvalue THEN hdrs[1] ELSE IF hdrs[2] /= Tvalue THEN hdrs[2] ELSE None) ELSE None
    IN IF v /= None /\ l /= None /\ c /= None THEN <<v, l, c>>
       ELSE IF v = Tvalue /\ Len(hdrs) = 2 /\ other /= None /\ other /= <<>> THEN <<v, other, other>>
       ELSE <<>>
  ELSE
    LET r == FirstIn(hdrs, {IF kind = "bits" THEN Tbits ELSE Tbytes})
        l == FirstIn(hdrs, {Tattribute, Tdescription})
        c == FirstIn(hdrs, {Tdescription})
    IN IF r /= None /\ l /= None /\ c /= None THEN <<r, l, c>> ELSE <<>>
KindOf(hdrs) ==
  IF Columns("bytes", hdrs) /= <<>> THEN "bytes"
  ELSE IF Columns("values", hdrs) /= <<>> THEN "values"
  ELSE IF Columns("bits", hdrs) /= <<>> THEN "bits"
  ELSE "none"
=============================================================================
