------------------------------- MODULE MCBase -------------------------------
(***************************************************************************)
(* Exhaustive exploration of families of small documents.  A family is the *)
(* set Choices of records having a field `skip`; Build(c) is the document  *)
(* of a choice.  The machine of Stage2 is explored on each of them, the    *)
(* properties are checked on its states, and the documents are exported,   *)
(* so that the real program can be run on each of them too.                *)
(***************************************************************************)
EXTENDS Stage2, Json, IOUtils
CONSTANTS Choices, Build(_)

Tier == IOEnv.VERIF_TIER
Thorough == Tier = "thorough"

UniNone == [c \in {174, 8230} |-> [w |-> FALSE, s |-> FALSE, d |-> -1, u |-> <<c>>, l |-> <<c>>]]

(* the documents, built once *)
DocTab == TLCEval([c \in Choices |-> Build(c)])
DocOf(c) == DocTab[c]

VARIABLES choice, machine
vars == <<choice, machine>>
Init == choice \in Choices /\ machine = Start0(choice, choice.skip)
Next == ~Ended(machine) /\ machine' = Step(machine) /\ choice' = choice

RECURSIVE Listing(_)
Listing(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listing(S \ {x})
SE == INSTANCE SequencesExt
SetSeq(S) == SE!SetToSeq(S)

(* every explored document is written out when its run has ended, together
   with the outcome that the specification gives it *)
Export ==
  Ended(machine) =>
    PrintT("D " \o ToJson([doc |-> DocOf(choice), skip |-> choice.skip,
                           exit |-> IF machine.pc = "done" THEN 0 ELSE 1,
                           out |-> machine.out, lint |-> machine.lint, said |-> machine.said, cov |-> Listing(machine.cov)]))

(* ---- building documents ---- *)
Node(tag, text, kids) == [t |-> tag, x |-> TLCEval(text), k |-> TLCEval(kids), z |-> <<>>, cs |-> 1, rs |-> 1, hc |-> FALSE, id |-> None]
P(text) == Node("p", text, <<>>)
Td(text) == Node("td", <<>>, <<P(text)>>)
TdW(text, kids) == Node("td", <<>>, <<P(text)>> \o kids)
Th(text) == Node("th", <<>>, <<P(text)>>)
Wide(n, cs) == [n EXCEPT !.cs = cs, !.hc = TRUE]
Tall(n, rs) == [n EXCEPT !.rs = rs]
Tr(cells) == Node("tr", <<>>, cells)
Table(rows) == Node("table", <<>>, rows)
HdrRow(names) == Tr([j \in 1..Len(names) |-> Th(names[j])])
TitleText(id) == T("Figure ") \o id \o T(": X")
Figure(id, hdrs, rows) == Table(<<Tr(<<Td(TitleText(id))>>), HdrRow(hdrs)>> \o rows)
Document(tables) == [title |-> T("spec"), rev |-> T("1.0"), body |-> Node("body", <<>>, tables)]

N2T(n) == T(ToString(n))
BitsHdr == <<T("Bits"), T("Description")>>
BytesHdr == <<T("Bytes"), T("Description")>>
ValueHdr == <<T("Value"), T("Definition")>>
HdrOf(kind) == CASE kind = "bits" -> BitsHdr [] kind = "bytes" -> BytesHdr [] OTHER -> ValueHdr

(* ---- notions for stating properties ---- *)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Filter(s, Test(_)) == SelectSeq(s, Test)
MapSeq(s, F(_)) == [j \in 1..Len(s) |-> F(s[j])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

(* what holds in every state of the machine *)
StackOK == \A j \in 2..Len(machine.stk) :
             IsNone(machine.stk[j].par) \/ machine.stk[j].par = machine.stk[j - 1].id
(* emitted entities and lint are never taken back *)
Monotone == [][IsPrefixOf(machine.out, machine'.out) /\ IsPrefixOf(machine.lint, machine'.lint)]_vars
EntitiesConform == \A j \in 1..Len(machine.out) :
  LET e == machine.out[j]
  IN e.type \in {"bits", "bytes", "values"}
     /\ \A h \in 1..Len(e.fields) :
          IF e.type = "values" THEN e.fields[h].rng.k = "val"
          ELSE e.fields[h].rng.k \in {"int", "str", "text"}
(* ---- C30: what the user is told of a document ---- *)
SaidOf(w) == SelectSeq(machine.said, LAMBDA x : x.w = w)
RaisedAs(code) == SelectSeq(machine.lint, LAMBDA l : l.code = code)
(* each figure that fails is named, once, and so is each title without an id *)
C30named == /\ MapSeq(SaidOf("failed"), LAMBDA x : x.id) = MapSeq(RaisedAs("T1000"), LAMBDA l : l.fig)
            /\ MapSeq(SaidOf("head"), LAMBDA x : <<x.title>>) = MapSeq(RaisedAs("T1008"), LAMBDA l : l.ctx[1].v)
(* after a nested figure come the figures that it is part of *)
C30chain == Ended(machine) => \A j \in 1..Len(machine.said) :
  LET x == machine.said[j]
  IN /\ x.w = "in" => j > 1 /\ machine.said[j - 1].w \in {"failed", "in"} /\ (IsNone(machine.said[j - 1].par) \/ machine.said[j - 1].par = x.id)
     /\ (x.w \in {"failed", "in"} /\ ~IsNone(x.par)) => j < Len(machine.said) /\ machine.said[j + 1].w = "in" /\ machine.said[j + 1].id = x.par
(* a run that is given up has said why *)
C30abort == machine.pc = "abort" => machine.said /= <<>> /\ machine.said[Len(machine.said)].w \in {"failed", "in"}
=============================================================================
