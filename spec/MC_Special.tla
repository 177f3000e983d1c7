------------------------------ MODULE MC_Special ------------------------------
(* C14: documents having the figures and rows for which there is special      *)
(* handling, under every title and revision.                                  *)
EXTENDS MCBase

TitleSeq == <<Nvmeo(" nvm command set specification"), Nvmeo(" zoned namespace command set specification"),
           Nvmeo(" management interface specification"), Nvmeo(" key value command set specification"),
           T("spec"), T("nvm express nvm command set specification"),
           \* titles having a special one within them
           Nvmeo(" nvm command set specification (draft)"), T("the ") \o Nvmeo(" zoned namespace command set specification"),
           Nvmeo(" management interface"), Nvmeo(" key value command set specification, figures")>>
RevSeq == <<T("1.0c"), T("1.1c"), T("1.2c"), T("1.0"), T("2.0"), T("1.0d")>>
Variants == 1..12
NT == 1..6
Near == 7..Len(TitleSeq)
NR == 1..Len(RevSeq)
SpecialChoices ==
  IF Thorough THEN [t : NT \cup Near, r : NR, spell : 0..2, variant : Variants, skip : BOOLEAN]
  ELSE [t : NT, r : NR, spell : {0}, variant : Variants, skip : {TRUE}]
       \cup [t : NT, r : NR, spell : {0}, variant : {1, 6, 7}, skip : {FALSE}]
       \cup [t : NT, r : NR, spell : {1, 2}, variant : {1, 2}, skip : {TRUE}]
       \cup [t : Near, r : NR, spell : {0, 1}, variant : {1, 2}, skip : {TRUE}]

(* spellings of a title or revision; the machine sees them in lower case *)
SpellT(s, k) == CASE k = 0 -> s [] k = 1 -> Upper(s) [] OTHER -> TLCEval([j \in 1..Len(s) |-> IF j % 2 = 1 THEN UpperOf(s[j])[1] ELSE s[j]])

R2(a, b) == Tr(<<Td(T(a)), Td(T(b))>>)
ValTable(vals) == Table(<<HdrRow(ValueHdr)>> \o MapSeq(vals, LAMBDA v : Tr(<<Td(T(v)), Td(T("Foo ") \o T(v) \o T(": x"))>>)))
WithTable(range, sub) == Tr(<<Td(T(range)), Node("td", <<>>, <<P(T("Foo Bar (FB): x")), sub>>)>>)
Codes4 == <<"00b", "01b", "10b", "11B">>
(* a figure into whose table another one is merged *)
Merged(id, row) == Figure(T(id), BitsHdr, <<R2("7", "Foo (A): x"), R2("6:0", "Bar (B)"), row,
                          HdrRow(BitsHdr), R2("3:1", "Baz (C): y"), R2("0", "Qux (D)")>>)
MergeRow(k, n) == CASE k = 1 -> Tr(<<Wide(Td(T("Figure ") \o n \o T(": Other")), 2)>>)
                    [] k = 2 -> Tr(<<Td(T("FIGURE ") \o n \o T(" other"))>>)
                    [] k = 3 -> Tr(<<Wide(Td(T("figure ") \o n), 2)>>)
                    [] k = 4 -> Tr(<<Wide(Td(T("Notes: 1")), 2)>>)
                    [] k = 5 -> Tr(<<Wide(Td(T("See figure ") \o n), 2)>>)
                    [] k = 6 -> Tr(<<Wide(Td(TEllipsis), 2)>>)
                    [] k = 7 -> Tr(<<Wide(Td(T("Figure ") \o <<n[1], 54>> \o T(": Other")), 2)>>)          \* 26, 66
                    [] k = 8 -> Tr(<<Wide(Td(T("Figure ") \o n \o T("1: Other")), 2)>>)
                    [] k = 9 -> Tr(<<Wide(Td(<<SPACE, NEWLINE>> \o T("Figure ") \o n \o T(": Other")), 2)>>)
                    [] k = 10 -> Tr(<<Wide(Td(T("Figure  ") \o n \o T(": Other")), 2)>>)
                    [] k = 11 -> Tr(<<Node("td", <<>>, <<P(T("Figure ")), P(n \o T(": Other"))>>)>>)
                    [] OTHER -> Tr(<<Wide(Td(T("Figure ") \o Tail(n) \o T(": Other")), 2)>>)                \* 4, 5
RemarkRow(k) == CASE k = 1 -> Tr(<<Wide(Td(T("As before (refer to Figure 39).")), 3)>>)
                  [] k = 2 -> Tr(<<Td(T("As")), Td(T("before (refer to Figure 39)."))>>)
                  [] k = 3 -> Tr(<<Td(T("As")), Td(T("before."))>>)
                  [] k = 4 -> Tr(<<Wide(Td(T("As before.")), 3)>>)
                  [] k = 5 -> Tr(<<Td(T("As (refer to Figure 39).")), Td(T("before"))>>)
                  [] k = 6 -> Tr(<<Td(T("As")), Td(T("before (refer to Figure 39)"))>>)
                  [] k = 7 -> Tr(<<Td(T("As")), Td(T("before (Refer to Figure 39)."))>>)
                  [] k = 8 -> Tr(<<Td(T("As")), Td(T("before (refer to Figure 38)."))>>)
                  [] k = 9 -> Tr(<<Td(T("As")), Td(T("before (refer to Figure 39). "))>>)
                  [] k = 10 -> Tr(<<Td(T("As")), Td(T("before (refer to Figure 39).."))>>)
                  [] k = 11 -> Tr(<<Td(T("As")), Td(T("before (refer to  Figure 39)."))>>)
                  [] OTHER -> Tr(<<Td(T("(refer to ")), Td(T("Figure 39)."))>>)
(* figures 42, 49 and 64 with nested tables of the values having fixed labels *)
Deep(id) == Figure(T(id), BytesHdr, <<WithTable("3:0", Table(<<HdrRow(BitsHdr), R2("7:6", "Foo (A)"), WithTable("5:4", ValTable(Codes4)), R2("3:0", "Bar (B)")>>)),
                                      WithTable("5:4", ValTable(Codes4))>>)
Body(v) ==
  << Deep("42"), Deep("49"), IF v \in {2, 4} THEN Deep("64") ELSE Merged("64", MergeRow(v, T("65"))),
     Merged("23", MergeRow(v, T("24"))),
     Figure(T("41"), <<T("Bytes"), T("Attribute"), T("Description")>>, <<Tr(<<Td(T("0")), Td(T("A: x")), Td(T("Foo"))>>), RemarkRow(v), Tr(<<Td(T("1")), Td(T("B: x")), Td(T("Foo"))>>)>>),
     Figure(T("19"), ValueHdr, <<R2("1", "One: x"), R2("2", "[?]: two"), R2("3", "Three")>>),
     Figure(T("37"), ValueHdr, <<R2("0", "Type (ZT): x"), R2("1", "State"), R2("2", "Attr (ZA)"), R2("3", "Other")>>) >>
BodyTab == TLCEval([v \in Variants |-> Node("body", <<>>, Body(v))])
SpecialBuild(c) == [title |-> TitleSeq[c.t], rev |-> RevSeq[c.r], body |-> BodyTab[c.variant],
                    titleAs |-> SpellT(TitleSeq[c.t], c.spell), revAs |-> SpellT(RevSeq[c.r], c.spell)]

(* the property *)
Which == CASE <<choice.t, choice.r>> = <<1, 1>> -> "nvm"
           [] <<choice.t, choice.r>> = <<2, 2>> -> "zoned"
           [] <<choice.t, choice.r>> = <<3, 3>> -> "mi"
           [] <<choice.t, choice.r>> \in {<<4, 1>>, <<4, 4>>} -> "kv"
           [] OTHER -> "plain"
Plain == [choice EXCEPT !.t = 5, !.r = 5]
PlainRun == Run(Plain, choice.skip)
Ids == {machine.out[j].id : j \in 1..Len(machine.out)}
Fixed == SelectSeq(machine.lint, LAMBDA l : l.code = "L1007")
FieldsOf(out, id) == LET e == SelectSeq(out, LAMBDA x : x.id = id) IN IF e = <<>> THEN <<>> ELSE e[1].fields
Others(out, ids) == SelectSeq(out, LAMBDA e : e.id \notin ids)
C14plain == Ended(machine) /\ Which = "plain" =>
  /\ machine.out = PlainRun.out /\ machine.lint = PlainRun.lint /\ machine.pc = PlainRun.pc
  /\ Fixed = <<>> /\ {T("24"), T("65")} \cap Ids = {}
(* under the special titles, only the figures concerned differ *)
Touched == CASE Which = "nvm" -> {T("23"), T("24"), T("42_4"), T("42_0_4"), T("49_0_4"), T("64_0_4")}
             [] Which = "zoned" -> {T("37")}
             [] Which = "mi" -> {T("64"), T("65"), T("19"), T("64_0_4"), T("64_4"), T("64_0")}
             [] Which = "kv" -> {T("41")}
             [] OTHER -> {}
C14special == machine.pc = "done" /\ choice.skip /\ Which /= "plain" =>
  /\ Others(machine.out, Touched) = Others(PlainRun.out, Touched)
  /\ (T("24") \in Ids) <=> (Which = "nvm" /\ choice.variant \in {1, 2, 3, 8, 9, 11})
  /\ (T("65") \in Ids) <=> (Which = "mi" /\ choice.variant \in {1, 3, 8, 9, 11})
  /\ Which = "zoned" => \A j \in 1..3 : FieldsOf(machine.out, T("37"))[j].label = <<T("zt"), T("zs"), T("za")>>[j]
  /\ Which = "mi" => FieldsOf(machine.out, T("19"))[2].label = T("misc")
  /\ Which = "kv" => ((FieldsOf(machine.out, T("41")) /= <<>>) <=> (choice.variant \in {1, 2, 9, 12}))
  /\ Which \in {"zoned", "mi"} => Len(Fixed) = (IF Which = "zoned" THEN 3 ELSE 1)
  /\ Which = "nvm" => Len(Fixed) = 4 + 1 + 3 + (IF choice.variant \in {2, 4} THEN 4 ELSE 0)
=============================================================================
