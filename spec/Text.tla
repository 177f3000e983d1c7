-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text as sequences of Unicode code points, with the character classes,   *)
(* prefixes and replacements by which Spex reads specification text.       *)
(* Properties of code points >= 128 that occur in a run are supplied by    *)
(* the constant Uni: a function from code point to a record                *)
(*   [w: is a word character, s: is white space, d: decimal digit or -1,   *)
(*    u: its upper case, l: its lower case, each a sequence: the upper     *)
(*    case of one character can be several]                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Uni

None == << -1 >>                \* "no text", distinct from every text
IsNone(s) == s = None

U(c) == Uni[c]
Known(c) == c \in DOMAIN Uni

IsSpace(c) == IF c < 128 THEN c = 32 \/ (c >= 9 /\ c <= 13) \/ (c >= 28 /\ c <= 31)
              ELSE Known(c) /\ U(c).s
DigitVal(c) == IF c < 128 THEN (IF c >= 48 /\ c <= 57 THEN c - 48 ELSE -1)
               ELSE IF Known(c) THEN U(c).d ELSE -1
IsDigit(c) == DigitVal(c) >= 0
IsUpperA(c) == c >= 65 /\ c <= 90
IsLowerA(c) == c >= 97 /\ c <= 122
IsAlphaA(c) == IsUpperA(c) \/ IsLowerA(c)
IsWord(c) == IF c < 128 THEN IsAlphaA(c) \/ (c >= 48 /\ c <= 57) \/ c = 95
             ELSE Known(c) /\ U(c).w
UpperOf(c) == IF c < 128 THEN <<IF IsLowerA(c) THEN c - 32 ELSE c>>
              ELSE IF Known(c) THEN U(c).u ELSE <<c>>
LowerOf(c) == IF c < 128 THEN <<IF IsUpperA(c) THEN c + 32 ELSE c>>
              ELSE IF Known(c) THEN U(c).l ELSE <<c>>
RECURSIVE FlatFrom(_, _)
FlatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlatFrom(ss, i + 1)

Upper(s) == LET u == TLCEval([i \in 1..Len(s) |-> UpperOf(s[i])])
            IN IF \A i \in 1..Len(u) : Len(u[i]) = 1 THEN TLCEval([i \in 1..Len(u) |-> u[i][1]]) ELSE TLCEval(FlatFrom(u, 1))
Lower(s) == LET u == TLCEval([i \in 1..Len(s) |-> LowerOf(s[i])])
            IN IF \A i \in 1..Len(u) : Len(u[i]) = 1 THEN TLCEval([i \in 1..Len(u) |-> u[i][1]]) ELSE TLCEval(FlatFrom(u, 1))

SPACE == 32
NEWLINE == 10
COLON == 58
DOT == 46
UNDERSCORE == 95
DASH == 45
SLASH == 47
LPAREN == 40
RPAREN == 41
ELLIPSIS == 8230                 \* the single character "…"

(* character classes by name (TLA+ has no recursive higher-order operators) *)
In(cls, c) ==
  CASE cls = "space"  -> IsSpace(c)
    [] cls = "blank"  -> c = SPACE
    [] cls = "dot"    -> c = DOT
    [] cls = "under"  -> c = UNDERSCORE
    [] cls = "digit"  -> IsDigit(c)
    [] cls = "word"   -> IsWord(c)
    [] cls = "words"  -> IsWord(c) \/ IsSpace(c)
    [] cls = "struct" -> IsWord(c) \/ IsSpace(c) \/ (c >= 44 /\ c <= 47) \/ c = 38     \* , - . / &
    [] cls = "value"  -> IsWord(c) \/ IsSpace(c) \/ c = SLASH \/ c = DASH
    [] cls = "formula"-> (c < 128 /\ (IsAlphaA(c) \/ IsDigit(c) \/ c \in {43, 45, 42, 40, 41})) \/ IsSpace(c)
    [] cls = "figid"  -> ~IsSpace(c) /\ c /= COLON /\ c /= 94

(* index of the first character at or after i that is not in the class *)
RECURSIVE Skip(_, _, _)
Skip(s, cls, i) == IF i <= Len(s) /\ In(cls, s[i]) THEN Skip(s, cls, i + 1) ELSE i
(* index of the last character at or before i that is not in the class, or 0 *)
RECURSIVE SkipBack(_, _, _)
SkipBack(s, cls, i) == IF i >= 1 /\ In(cls, s[i]) THEN SkipBack(s, cls, i - 1) ELSE i

From(s, i) == SubSeq(s, i, Len(s))
Prefix(s, cls) == SubSeq(s, 1, Skip(s, cls, 1) - 1)
StripL(s, cls) == From(s, Skip(s, cls, 1))
StripR(s, cls) == SubSeq(s, 1, SkipBack(s, cls, Len(s)))
StripOf(s, cls) == StripL(StripR(s, cls), cls)
Strip(s) == StripOf(s, "space")

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Start(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : s[i] = p[1] /\ SubSeq(s, i, i + Len(p) - 1) = p
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
(* index of the first occurrence of c at or after i, or 0 *)
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE Find(s, c, i + 1)
Before(s, c) == LET i == Find(s, c, 1) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)

Delete(s, c) == SelectSeq(s, LAMBDA x : x /= c)
Subst(s, c, d) == TLCEval([i \in 1..Len(s) |-> IF s[i] = c THEN d ELSE s[i]])
(* collapse each run of two c's, left to right, into one (as one pass of a
   textual replacement "cc" -> "c") *)
RECURSIVE HalveFrom(_, _, _)
HalveFrom(s, c, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = c /\ i < Len(s) /\ s[i + 1] = c THEN <<c>> \o HalveFrom(s, c, i + 2)
  ELSE <<s[i]>> \o HalveFrom(s, c, i + 1)
Halve(s, c) == IF \E i \in 1..(Len(s) - 1) : s[i] = c /\ s[i + 1] = c THEN HalveFrom(s, c, 1) ELSE s
(* collapse runs of c to a single c *)
Collapse(s, c) == LET idx == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : ~(s[i] = c /\ i > 1 /\ s[i - 1] = c))
                  IN TLCEval([j \in 1..Len(idx) |-> s[idx[j]]])
(* the first characters of the white-space separated words *)
Initials(s) == LET idx == SelectSeq([i \in 1..Len(s) |-> i],
                                    LAMBDA i : ~IsSpace(s[i]) /\ (i = 1 \/ IsSpace(s[i - 1])))
               IN TLCEval([j \in 1..Len(idx) |-> s[idx[j]]])

(* Natural numbers of any size as digit texts without leading zeros *)
Canon(ds) ==   \* ds: a nonempty text of decimal digits
  LET a == TLCEval([i \in 1..Len(ds) |-> 48 + DigitVal(ds[i])])
      k == CHOOSE j \in 1..Len(a) : (j = Len(a) \/ a[j] /= 48) /\ \A h \in 1..(j - 1) : a[h] = 48
  IN SubSeq(a, k, Len(a))
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF a[i] /= b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
NatLess(a, b) == IF Len(a) /= Len(b) THEN Len(a) < Len(b) ELSE LexLess(a, b, 1)
RECURSIVE Succ(_)
Succ(a) == IF a = <<>> THEN <<49>>
           ELSE IF a[Len(a)] = 57 THEN Succ(SubSeq(a, 1, Len(a) - 1)) \o <<48>>
           ELSE [a EXCEPT ![Len(a)] = @ + 1]
(* the integers of a model: naturals and the -1 of ellipsis rows *)
MinusOne == <<45, 49>>
IntLess(a, b) == IF a = MinusOne THEN b /= MinusOne
                 ELSE IF b = MinusOne THEN FALSE ELSE NatLess(a, b)
IntSucc(a) == IF a = MinusOne THEN <<48>> ELSE Succ(a)

(* ASCII text literals *)
AsciiChars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == TLCEval([ch \in {SubSeq(AsciiChars, i, i) : i \in 1..Len(AsciiChars)} |->
             31 + CHOOSE i \in 1..Len(AsciiChars) : SubSeq(AsciiChars, i, i) = ch])
T(str) == TLCEval([i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]])

(* the texts that the rules mention *)
TFigure   == T("Figure")
TRESERVED == T("RESERVED")
Treserved == T("reserved")
TOBSOLETE == T("OBSOLETE")
TEllipsis == <<ELLIPSIS>>
Tnote     == T("note")
TnotesC   == T("notes:")
TList     == T("List")
Tvalue    == T("value")
Tvalues   == T("values")
Tcode     == T("code")
Tbit      == T("bit")
Tbits     == T("bits")
Tbyte     == T("byte")
Tbytes    == T("bytes")
Tdescription == T("description")
Tdefinition  == T("definition")
Tattribute   == T("attribute")
TpowerScope  == T("power scope")
=============================================================================
