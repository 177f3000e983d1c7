------------------------------- MODULE MC_Form -------------------------------
(* C13: one character at a time in every place of a document: it must come    *)
(* out of the transformation unaltered (but for the case conversions that     *)
(* are documented).  The characters are those of the table in SPEX_UNI.       *)
EXTENDS MCBase

FormTab == JsonDeserialize(IOEnv.SPEX_UNI)
UniForm == LET t == FormTab IN TLCEval([c \in {t[i].c : i \in 1..Len(t)} |-> t[CHOOSE i \in 1..Len(t) : t[i].c = c]])
Chars == DOMAIN UniForm \cup (IF Thorough THEN (32..126) \cup {9, 10, 13} ELSE {9, 10, 34, 38, 39, 60, 62, 92, 127})
Places == {"spec", "rev", "title", "id", "range", "value", "acronym", "label", "vlabel", "brief", "heading", "nested", "list"}
FormChoices == [ch : Chars, at : Places, skip : {TRUE}]

A(c, p) == IF c.at = p THEN <<97, c.ch, 98>> ELSE T("ab")
Upto(s) == s
Rows1(c) == <<Tr(<<Td(T("7:4")), Td(T("Foo Bar (") \o A(c, "acronym") \o T("): x") \o A(c, "brief") \o T("y"))>>),
              Tr(<<Td(T("n") \o A(c, "range")), Td(A(c, "label") \o T(" (X)"))>>),
              Tr(<<Td(T("3")), TdW(T("Sub (S): z"), <<Table(<<HdrRow(ValueHdr), Tr(<<Td(T("v") \o A(c, "value")), Td(T("k") \o A(c, "vlabel") \o T(": ") \o A(c, "nested"))>>)>>)>>)>>)>>
FormBuild(c) ==
  [title |-> Lower(T("spec ") \o A(c, "spec")), rev |-> Lower(T("1.") \o A(c, "rev")),
   titleAs |-> T("spec ") \o A(c, "spec"), revAs |-> T("1.") \o A(c, "rev"),
   body |-> Node("body", <<>>, <<
     Table(<<Tr(<<Td(T("Figure 1") \o A(c, "id") \o T(": A") \o A(c, "title") \o T("B"))>>), HdrRow(BytesHdr)>> \o Rows1(c)),
     Figure(T("2"), <<T("foo") \o A(c, "heading"), T("bar")>>, <<>>),
     Figure(T("3"), BytesHdr, <<Tr(<<Wide(Th(T("A List")), 2)>>), Tr(<<Td(T("n") \o A(c, "list") \o T(":m")), Td(T("E (F)"))>>)>>)>>)]

OutOf(id) == CHOOSE j \in 1..Len(machine.out) : machine.out[j].id = id
Contains3(s, c) == c \in {s[j] : j \in 1..Len(s)}
F1(k) == machine.out[Len(machine.out) - 1].fields[k]
C13 == Ended(machine) =>
  LET ch == choice.ch
      o == machine.out
  IN /\ machine.pc = "done"
     /\ Len(o) = 3 /\ o[2].par = None /\ o[1].par = o[2].id /\ o[3].id = T("3")
     /\ choice.at = "title" => Contains3(o[2].title, ch)
     /\ choice.at = "brief" => F1(1).brief = T("xa") \o <<ch>> \o T("by")
     /\ choice.at = "range" => \E j \in 1..3 : F1(j).rng = [k |-> "text", lo |-> T("na") \o <<ch>> \o T("b"), hi |-> <<>>]
     /\ choice.at = "value" => o[1].fields[1].rng.lo = T("va") \o LowerOf(ch) \o T("b")
     /\ choice.at = "nested" => o[1].fields[1].brief = T("a") \o <<ch>> \o T("b")
     /\ choice.at = "list" => (o[3].fields[1].rng.k = "str" => o[3].fields[1].rng.hi = T("na") \o (IF ch \in {10, 32} THEN <<>> ELSE <<ch>>) \o T("b")
                                                                \/ ch = COLON)
(* the model conforms to the schema of models *)
Conforms == Ended(machine) => \A j \in 1..Len(machine.out) :
  LET e == machine.out[j]
  IN IF e.type = "values" THEN Len(e.fields) >= 1 ELSE \A h \in 1..Len(e.fields) : e.fields[h].rng.k = "int" =>
        (e.fields[h].rng.lo = MinusOne => e.fields[h].rng.hi = MinusOne)
=============================================================================
