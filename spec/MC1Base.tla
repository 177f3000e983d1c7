------------------------------- MODULE MC1Base -------------------------------
(***************************************************************************)
(* Exhaustive exploration of families of small docx documents: Choices is  *)
(* a set of records, Build(c) the document of a choice.  The machine of    *)
(* Stage1 is explored on each, the properties are checked on its states,   *)
(* and the documents are exported with the HTML model they should become.  *)
(***************************************************************************)
EXTENDS Stage1, Json, IOUtils
CONSTANTS Choices, Build(_)

Tier == IOEnv.VERIF_TIER
Thorough == Tier = "thorough"
UniNone == [c \in {174} |-> [w |-> FALSE, s |-> FALSE, d |-> -1, u |-> <<c>>, l |-> <<c>>]]

DocTab == TLCEval([c \in Choices |-> Build(c)])
DocxOf(c) == DocTab[c]

VARIABLES choice, machine
vars == <<choice, machine>>
Init == choice \in Choices /\ machine = Begin(choice)
Next == ~Over1(machine) /\ machine' = Step1(machine) /\ choice' = choice

RECURSIVE Listing(_)
Listing(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listing(S \ {x})
Export == Over1(machine) => PrintT("D " \o ToJson([doc |-> DocxOf(choice), ev |-> machine.ev, title |-> TitleOf(choice),
                                                  rev |-> RevisionOf(choice), cov |-> Listing(machine.cov)]))

(* ---- building documents ---- *)
Tx(x) == [g |-> "t", x |-> x, k |-> <<>>]
R(x) == [g |-> "r", f |-> <<>>, k |-> <<Tx(x)>>]
Rf(x, f) == [g |-> "r", f |-> f, k |-> <<Tx(x)>>]
Para(ks) == [g |-> "p", num |-> <<>>, lvl |-> <<>>, k |-> ks]
P(x) == Para(<<R(x)>>)
ListP(num, lvl, ks) == [g |-> "p", num |-> num, lvl |-> lvl, k |-> ks]
Tc(ks) == [g |-> "tc", span |-> <<>>, vm |-> "-", fill |-> <<>>, k |-> ks]
Tr(cells) == [g |-> "tr", k |-> cells]
Tbl(rows) == [g |-> "tbl", k |-> rows]
OtherNode(ks) == [g |-> "o", k |-> ks]
Link(ks) == [g |-> "link", k |-> ks]
Fld(ks) == [g |-> "fld", k |-> ks]
N2T(n) == T(ToString(n))
DocWith(body) == [hdr |-> <<T("spec, Revision 1.0")>>, hasnum |-> FALSE, nums |-> <<>>, abss |-> <<>>, sts |-> <<>>, body |-> body]
NoRpr == [b |-> "-", i |-> "-", s |-> "-", u |-> "-", va |-> "-", col |-> None, st |-> None]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Only(s, es) == SelectSeq(s, LAMBDA v : v.e \in es)
TextsOf(ev) == LET t == Only(ev, {"text"}) IN [j \in 1..Len(t) |-> t[j].x]

(* ---- what holds in every state ---- *)
FramesOK == \A j \in 1..Len(machine.stk) : machine.stk[j].f = "list" => j > 1 /\ machine.stk[j - 1].f \in {"cell", "list"}
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Monotone == [][IsPrefixOf(machine.ev, machine'.ev)]_vars
(* the elements are properly nested *)
RECURSIVE Nest(_, _, _)
Nest(ev, j, open) ==
  IF j > Len(ev) THEN open = <<>>
  ELSE CASE ev[j].e \in {"table", "tr", "cell", "p", "list", "li"} -> Nest(ev, j + 1, Append(open, ev[j].e))
         [] ev[j].e = "text" -> open /= <<>> /\ open[Len(open)] \in {"p", "li"} /\ Nest(ev, j + 1, open)
         [] OTHER -> open /= <<>> /\ ev[j].e = "/" \o open[Len(open)] /\ Nest(ev, j + 1, SubSeq(open, 1, Len(open) - 1))
WellNested == Over1(machine) => Nest(machine.ev, 1, <<>>)
=============================================================================
