------------------------------- MODULE MC_Lint -------------------------------
(* C12: a document raising every lint code there is an occasion for, under    *)
(* sets of ignored codes in various spellings, and malformed options.         *)
EXTENDS MCBase, Options

Raised == <<"T1000", "T1001", "T1002", "T1004", "T1006", "T1007", "T1008", "L1000", "L1002", "L1003", "L1004", "L1007", "R1001", "R1002", "V1002">>
NRaised == Len(Raised)
RaisedSet == {Raised[j] : j \in 1..NRaised}
Never == {"O1000", "L1001", "V1000", "V1001", "V1003", "R1000"}
Sets == IF Thorough THEN SUBSET RaisedSet
        ELSE {s \in SUBSET RaisedSet : Cardinality(s) <= 2 \/ Cardinality(s) >= NRaised - 1}
Listed == TLCEval([s \in Sets \cup SUBSET Never |-> SetSeq(s)])
Bad == {<<>>, T("T1000,"), T("T9999"), T("T1000;T1001"), T("T 1000"), T(",T1000"), T("T100"), T("T1000,foo")}
LintChoices == [set : Sets \cup {Never}, spell : {0}, bad : {<<>>}, skip : {TRUE}]
          \cup [set : {s \in Sets : Cardinality(s) \in {2, NRaised}}, spell : 1..4, bad : {<<>>}, skip : {TRUE}]
          \cup [set : {{}}, spell : {9}, bad : Bad, skip : {TRUE}]

LowT(s) == Lower(s)
SpellC(s, k) == CASE k = 1 -> LowT(s) [] k = 2 -> <<SPACE>> \o s \o <<SPACE, SPACE>> [] k = 3 -> <<9>> \o LowT(s) [] OTHER -> s
RECURSIVE Join(_, _)
Join(ss, k) == IF ss = <<>> THEN <<>>
               ELSE LET w == SpellC(T(Head(ss)), k) IN
                 IF Tail(ss) = <<>> THEN w \o (IF k = 4 THEN <<COMMA>> \o w ELSE <<>>) ELSE w \o <<COMMA>> \o Join(Tail(ss), k)
(* the option's value, None when it is not given *)
OptionOf(c) == IF c.spell = 9 THEN c.bad ELSE IF c.set = {} THEN None ELSE Join(Listed[c.set], c.spell)

R2(a, b) == Tr(<<Td(T(a)), Td(T(b))>>)
LintDoc == TLCEval([title |-> Nvmeo(" zoned namespace command set specification"), rev |-> T("1.1c"), body |-> Node("body", <<>>, <<
  Figure(T("37"), <<T("Code"), T("Definition")>>, <<R2("0", "Type: x"), R2("7", "Foo"), R2("7", "Foo")>>),
  Figure(T("1"), BytesHdr, <<Tr(<<Td(T("0")), Node("td", T("x"), <<>>)>>)>>),
  Figure(T("2"), BytesHdr, <<R2("1:0", "Foo (A)"), R2("1", "Foo (B)"), R2("5:7", "Foo (C)"), R2("9", "Bar (A)"), R2("n", "Baz (1A)")>>),
  Figure(T("3"), BitsHdr, <<R2("0", "Foo (A)"), R2("7:1", "Foo (B)")>>),
  Figure(T("4"), <<T("Foo"), T("Bits")>>, <<>>),
  Table(<<Tr(<<Td(T("A Figure"))>>)>>),
  Figure(T("5"), <<T("Bytes"), T("Attribute"), T("Description")>>, <<Tr(<<Td(T("0")), Td(T("Foo Bar")), Td(T("x"))>>)>>),
  Figure(T("6"), ValueHdr, <<R2("0h", "(x) y"), Tr(<<Td(T("1h")), Node("td", <<>>, <<P(T("Foo: x")), Table(<<HdrRow(BitsHdr), R2("3:2", "A b (X)"), R2("1:1", "A b (X)")>>)>>)>>)>>)>>)])
LintBuild(c) == LintDoc

Opt == LET o == OptionOf(choice) IN IF o = None THEN [ok |-> TRUE, codes |-> {}] ELSE IgnoreOption(o)
Kept == SelectSeq(machine.lint, LAMBDA l : l.code \notin Opt.codes)
Has1(code) == \E j \in 1..Len(machine.lint) : machine.lint[j].code = code
C12 == Ended(machine) =>
  /\ \A j \in 1..NRaised : Has1(Raised[j])
  /\ choice.spell /= 9 => Opt.ok /\ Opt.codes = choice.set
  /\ choice.spell = 9 => ~Opt.ok
  /\ \A j \in 1..Len(machine.lint) :
       LET l == machine.lint[j]
           letter == SubSeq(l.code, 1, 1)
       IN /\ letter \in {"L", "V", "R"} => ~IsNone(l.row)
          /\ l.code = "T1008" \/ \E h \in 1..Len(LintDoc.body.k) : \E n \in {T("1"), T("2"), T("3"), T("4"), T("5"), T("6"), T("37"), T("6_1h")} : l.fig = n
(* what the model of the run is to be *)
ExportLint ==
  Ended(machine) =>
    PrintT("D " \o ToJson([doc |-> <<>>, skip |-> TRUE, option |-> OptionOf(choice), ignore |-> Listing(Opt.codes),
                           exit |-> IF Opt.ok THEN 0 ELSE 1,
                           out |-> IF Opt.ok THEN machine.out ELSE <<>>, lint |-> IF Opt.ok THEN Kept ELSE <<>>,
                           said |-> IF Opt.ok THEN machine.said ELSE <<>>, cov |-> <<>>]))
ASSUME PrintT("B " \o ToJson(LintDoc))
=============================================================================
