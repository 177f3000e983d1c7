------------------------------- MODULE MC_Style -------------------------------
(* C21: each property of a run given, denied or left open by the run, its     *)
(* style and the styles it is based on.                                       *)
EXTENDS MC1Base

Attrs == {"b", "i", "s", "u", "va", "col"}
(* value of an attribute: left open, and several spellings of what it may be *)
Vals(a) == CASE a \in {"b", "i", "s"} -> {"-", "", "1", "true", "on", "0", "false", "off"}
             [] a = "u" -> {"-", "single", "none", "double"}
             [] a = "va" -> {"-", "baseline", "subscript", "superscript"}
             [] a = "col" -> {"-", "FF0000", "auto", "00ff00"}
Few(a) == CASE a \in {"b", "i", "s"} -> {"-", "", "0"} [] a = "u" -> {"-", "single", "none"} [] a = "va" -> {"-", "baseline", "subscript"} [] a = "col" -> {"-", "FF0000", "0000FF"}
Refs == {"direct", "alias", "second", "undefined", "none", "paragraph"}
Depths == IF Thorough THEN {0, 1, 2, 3, 4, 5} ELSE {0, 1, 2, 3}
(* v[1]: of the run; v[2]: of its style; v[3]: of the style that one is based on ... *)
Chains == UNION {UNION {[kind : {"chain"}, a : {a}, v : [1..(n + 1) -> Few(a)], ref : {"direct"}] : n \in Depths} : a \in Attrs}
          \cup UNION {[kind : {"chain"}, a : {a}, v : [1..3 -> Few(a)], ref : Refs] : a \in Attrs}
          \cup UNION {[kind : {"chain"}, a : {a}, v : [1..2 -> Vals(a)], ref : {"direct"}] : a \in Attrs}
Mixed == [kind : {"mixed"}, b : {"-", "", "0"}, i : {"-", "1", "false"}, s : {"-", "", "0"}, u : {"-", "single", "none"}, va : {"-", "superscript"}, col : {"-", "auto", "ABCDEF"}]
StyleChoices == Chains \cup Mixed

Colour(x) == IF x = "-" THEN None ELSE T(x)
With(r, a, x) == CASE a = "b" -> [r EXCEPT !.b = x] [] a = "i" -> [r EXCEPT !.i = x] [] a = "s" -> [r EXCEPT !.s = x]
                   [] a = "u" -> [r EXCEPT !.u = x] [] a = "va" -> [r EXCEPT !.va = x] [] a = "col" -> [r EXCEPT !.col = Colour(x)]
StyleId(n) == T("S") \o N2T(n)
Style(c, n) ==
  [id |-> StyleId(n), ty |-> "character",
   al |-> IF n = 2 THEN (CASE c.ref = "alias" -> T("Other Name") [] c.ref = "second" -> T("x, Other Name , y") [] OTHER -> None) ELSE None,
   on |-> IF n < Len(c.v) THEN StyleId(n + 1) ELSE IF n % 2 = 0 THEN None ELSE T("Undefined"),
   r |-> IF c.v[n] = "-" /\ n % 2 = 0 THEN <<>> ELSE <<With(NoRpr, c.a, c.v[n])>>]
PStyle(c) == [id |-> T("P1"), ty |-> "paragraph", al |-> T("Other Name"), on |-> None, r |-> <<[NoRpr EXCEPT !.b = "", !.col = T("111111")]>>]
Ref(c) == IF Len(c.v) = 1 THEN None
          ELSE CASE c.ref = "direct" -> StyleId(2) [] c.ref \in {"alias", "second"} -> T("Other Name") [] c.ref = "undefined" -> T("Nowhere")
                 [] c.ref = "paragraph" -> T("P1") [] OTHER -> None
Mix(c) == [b |-> c.b, i |-> c.i, s |-> c.s, u |-> c.u, va |-> c.va, col |-> Colour(c.col), st |-> None]
AllMixed == [b |-> "", i |-> "", s |-> "", u |-> "single", va |-> "subscript", col |-> T("ABCDEF"), st |-> None]
StyleBuild(c) ==
  LET runs == IF c.kind = "mixed" THEN <<Rf(T("a"), <<Mix(c)>>), Rf(T("b"), <<AllMixed>>), Rf(T("c"), <<Mix(c)>>), R(T("d"))>>
              ELSE <<R(T("x")), Rf(T("a"), <<[With(NoRpr, c.a, c.v[1]) EXCEPT !.st = Ref(c)]>>), Rf(T("y"), <<[NoRpr EXCEPT !.st = Ref(c)]>>),
                     Rf(T("z"), <<With(NoRpr, c.a, c.v[1])>>)>>
      doc == DocWith(<<Tbl(<<Tr(<<Tc(<<Para(runs)>>)>>)>>)>>)
  IN IF c.kind = "mixed" THEN doc
     ELSE [doc EXCEPT !.sts = <<PStyle(c)>> \o [k \in 1..(Len(c.v) - 1) |-> Style(c, Len(c.v) + 1 - k)]]

(* how the attribute shows for a value *)
Shows(a, x) == CASE a \in {"b", "i"} -> (IF x = "-" THEN "none" ELSE IF x \in {"0", "false", "off"} THEN "off" ELSE "on")
                 [] a = "s" -> x \notin {"-", "0", "false", "off"}
                 [] a = "u" -> x \notin {"-", "none"}
                 [] a = "va" -> (IF x = "-" THEN "none" ELSE x)
                 [] a = "col" -> (IF x \in {"-", "auto"} THEN None ELSE T(x))
Get(f, a) == CASE a = "b" -> f.b [] a = "i" -> f.i [] a = "s" -> f.s [] a = "u" -> f.u [] a = "va" -> f.va [] a = "col" -> f.col
Open(a, x) == x = "-" \/ (a = "col" /\ x = "auto")
(* the first of the values that says something *)
Resolve(a, vs) == IF \A j \in 1..Len(vs) : Open(a, vs[j]) THEN "-"
                  ELSE vs[CHOOSE j \in 1..Len(vs) : ~Open(a, vs[j]) /\ \A h \in 1..(j - 1) : Open(a, vs[h])]
Texts == Only(machine.ev, {"text"})
C21chain == (Over1(machine) /\ choice.kind = "chain") =>
  LET styled == choice.ref \in {"direct", "alias", "second"}
      a == choice.a
      st == IF styled THEN Tail(choice.v) ELSE <<>>
      others(f) == \A o \in Attrs \ {a} : Get(f, o) = Get(Plain, o)
  IN /\ Texts[1].f = Plain
     /\ Get(Texts[2].f, a) = Shows(a, Resolve(a, <<choice.v[1]>> \o st))
     /\ Get(Texts[3].f, a) = Shows(a, Resolve(a, st))
     /\ Get(Texts[4].f, a) = Shows(a, choice.v[1])
     /\ \A j \in 1..4 : others(Texts[j].f)
C21mixed == (Over1(machine) /\ choice.kind = "mixed") =>
  /\ Texts[1].f = Texts[3].f /\ Texts[4].f = Plain
  /\ \A a \in Attrs : Get(Texts[1].f, a) = Shows(a, CASE a = "b" -> choice.b [] a = "i" -> choice.i [] a = "s" -> choice.s [] a = "u" -> choice.u [] a = "va" -> choice.va [] a = "col" -> choice.col)
=============================================================================
