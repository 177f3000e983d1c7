----------------------------- MODULE Stage1Trace -----------------------------
(***************************************************************************)
(* Conformance of recorded conversions.  Each case of the input file is a  *)
(* docx document and what the real program wrote for it, as events.  The   *)
(* machine of Stage1 is run on each document; when it has ended, each      *)
(* property's clause compares its events with the recorded ones, and the   *)
(* properties that fail are printed, with the situations met.              *)
(***************************************************************************)
EXTENDS Stage1, Json, IOUtils

Cases == JsonDeserialize(IOEnv.SPEX_CASES)
UniTab == JsonDeserialize(IOEnv.SPEX_CASES \o ".uni")
UniDef == LET t == UniTab
          IN TLCEval([c \in {t[i].c : i \in 1..Len(t)} |-> t[CHOOSE i \in 1..Len(t) : t[i].c = c]])
DocxDef(d) == Cases[d].doc

VARIABLES caseNo, machine
vars == <<caseNo, machine>>
Init == caseNo \in 1..Len(Cases) /\ machine = Begin(caseNo)
Next == ~Over1(machine) /\ machine' = Step1(machine) /\ caseNo' = caseNo

-----------------------------------------------------------------------------
Some(s, es) == SelectSeq(s, LAMBDA v : v.e \in es)
MapEv(s, F(_)) == TLCEval([j \in 1..Len(s) |-> F(s[j])])
ToSet(s) == {s[j] : j \in 1..Len(s)}
Violated(c, f) ==
  LET R == Cases[c].rec
      A == f.ev
      (* what is left open is as it should be *)
      B == TLCEval([j \in 1..Len(R.ev) |-> IF j <= Len(A) /\ A[j].k = Unsaid /\ R.ev[j].e = A[j].e THEN [R.ev[j] EXCEPT !.k = Unsaid] ELSE R.ev[j]])
      Same(F(_, _), es) == F(A, es) = F(B, es)
      TBL == {"table", "/table", "tr", "/tr", "cell", "/cell"}
      Geometry(s, es) == MapEv(Some(s, TBL), LAMBDA v : <<v.e, v.c, v.r>>)
      Words2(s, es) == MapEv(Some(s, {"table", "/table", "cell", "/cell", "text"}), LAMBDA v : <<v.e, v.x = None \/ v.e = "table", IF v.e = "text" THEN v.x ELSE <<>> >>)
      Lists(s, es) == MapEv(Some(s, {"list", "/list", "li", "/li", "cell", "text", "p"}), LAMBDA v : <<v.e, IF v.e = "list" THEN v.t ELSE "", IF v.e = "text" THEN v.x ELSE <<>> >>)
      Ids(s, es) == MapEv(Some(s, {"table", "cell"}), LAMBDA v : <<v.e, v.x, v.t>>)
      Shows(s, es) == MapEv(Some(s, {"cell", "list"}), LAMBDA v : <<v.e, v.k>>)
      Looks(s, es) == MapEv(Some(s, {"text"}), LAMBDA v : <<v.x, v.f>>)
      hasList == f.cov \cap {"list"} /= {}
      head == R.title = TitleOf(c) /\ R.rev = RevisionOf(c) /\ R.wf
      c17 == Same(Geometry, {})
      c18 == Same(Words2, {})
      c19 == hasList => Same(Lists, {})
      c20 == head /\ Same(Ids, {})
      c21 == Same(Looks, {})
      (* the model refers to the style sheet beside it *)
      linked == R.links = <<SheetOf(Cases[c].stem)>>
      c31 == Same(Shows, {}) /\ linked
      full == A = B /\ head /\ R.mal = 0
      focus == ToSet(Cases[c].focus)
      bad(id, ok) == IF ok THEN {} ELSE {id}
  IN IF full THEN bad("C31", linked)
     ELSE bad("C17", c17) \cup bad("C18", c18) \cup bad("C19", c19) \cup bad("C20", c20) \cup bad("C21", c21) \cup bad("C31", c31) \cup focus

Judge == Over1(machine) =>
           PrintT("J " \o ToString(caseNo) \o " " \o ToString(Violated(caseNo, machine)) \o " " \o ToString(machine.cov))

(* what holds of every state reached *)
Balanced == LET n(e) == Cardinality({j \in 1..Len(machine.ev) : machine.ev[j].e = e})
            IN Over1(machine) => /\ n("table") = n("/table") /\ n("tr") = n("/tr") /\ n("cell") = n("/cell")
                              /\ n("list") = n("/list") /\ n("li") = n("/li") /\ n("p") = n("/p")
FramesOK == \A j \in 1..Len(machine.stk) : machine.stk[j].f = "list" => j > 1 /\ machine.stk[j - 1].f \in {"cell", "list"}
=============================================================================
