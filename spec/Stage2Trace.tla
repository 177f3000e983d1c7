----------------------------- MODULE Stage2Trace -----------------------------
(***************************************************************************)
(* Conformance of recorded runs.  Each case of the input file is a         *)
(* document, the options of the run and what the real program wrote for    *)
(* it.  The machine of Stage2 is run on each document; when it has ended,  *)
(* each property's clause compares its outcome with the recorded one, and  *)
(* the properties that fail are printed, with the situations met.          *)
(***************************************************************************)
EXTENDS Stage2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.SPEX_CASES)
UniTab == JsonDeserialize(IOEnv.SPEX_CASES \o ".uni")
UniDef == LET t == UniTab
          IN TLCEval([c \in {t[i].c : i \in 1..Len(t)} |-> t[CHOOSE i \in 1..Len(t) : t[i].c = c]])
DocDef(d) == Cases[d].doc

\* (TLC evaluates definitions whose bound identifiers share the name of a
\*  variable over and over, hence the unusual names)
VARIABLES caseNo, machine
vars == <<caseNo, machine>>
Init == caseNo \in 1..Len(Cases) /\ machine = Start0(caseNo, Cases[caseNo].skip)
Next == ~Ended(machine) /\ machine' = Step(machine) /\ caseNo' = caseNo

-----------------------------------------------------------------------------
ToSet(s) == {s[j] : j \in 1..Len(s)}
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameBag(a, b) == a = b \/ (Len(a) = Len(b) /\ \A x \in ToSet(a) : Count(a, x) = Count(b, x))

Message(code) ==
  CASE code = "T1000" -> T("error parsing table - the table's columns implied it should be parsed but some quirk of the table caused the parser to fail")
    [] code = "T1001" -> T("field overlaps with range of prior field")
    [] code = "T1002" -> T("gap between this and the prior field")
    [] code = "T1004" -> T("row order wrong, bits should be in desc order, bytes in asc order")
    [] code = "T1006" -> T("non-standard table header")
    [] code = "T1007" -> T("table skipped")
    [] code = "T1008" -> T("failed to extract figure ID from table header")
    [] code = "L1000" -> T("error extracting label")
    [] code = "L1002" -> T("duplicate label")
    [] code = "L1003" -> T("label missing, using imputed value")
    [] code = "L1004" -> T("label contained invalid characters")
    [] code = "L1007" -> T("label manually overridden")
    [] code = "V1002" -> T("duplicate value")
    [] code = "R1001" -> T("invalid range, neither single offset value, nor a [high:low] range")
    [] code = "R1002" -> T("range reversed")
    [] OTHER -> None

(* the schema of models: what a conforming entity is *)
RangeConforms(r) == CASE r.k = "int" -> (r.lo = MinusOne) => (r.hi = MinusOne)
                      [] r.k \in {"str", "text"} -> TRUE
                      [] OTHER -> FALSE
EntityConforms(e) ==
  IF e.type = "values" THEN Len(e.fields) >= 1 /\ \A j \in 1..Len(e.fields) : e.fields[j].rng.k = "val"
  ELSE e.type \in {"bits", "bytes"} /\ \A j \in 1..Len(e.fields) : RangeConforms(e.fields[j].rng)

(* the verdict on case c, whose run ended in state f *)
Violated(c, f) ==
  LET case == Cases[c]
      R == case.rec
      done == f.pc = "done"
      E == f.out
      O == R.out
      ignore == ToSet(case.ignore)
      focus == ToSet(case.focus)
      L == SelectSeq(f.lint, LAMBDA l : l.code \notin ignore)
      RL == [j \in 1..Len(R.lint) |-> [code |-> R.lint[j].code, fig |-> R.lint[j].fig, row |-> R.lint[j].row, ctx |-> R.lint[j].ctx]]
      Codes(s, cs) == SelectSeq(s, LAMBDA l : l.code \in cs)
      LintOK(cs) == done => SameBag(Codes(L, cs), Codes(RL, cs))
      Key(e) == <<e.id, e.par, e.title>>
      Occurrence(s, k) == Cardinality({j \in 1..k : Key(s[j]) = Key(s[k])})
      Matches(k) == {j \in 1..Len(O) : Key(O[j]) = Key(E[k]) /\ Occurrence(O, j) = Occurrence(E, k)}
      Match(k) == IF k <= Len(O) /\ Key(O[k]) = Key(E[k]) /\ E = O THEN k
                  ELSE IF Matches(k) = {} THEN 0 ELSE CHOOSE j \in Matches(k) : TRUE
      On(types, P(_, _)) == E = O \/ \A k \in 1..Len(E) : E[k].type \in types => (Match(k) /= 0 /\ P(E[k], O[Match(k)]))
      All == {"bits", "bytes", "values"}
      Struct == {"bits", "bytes"}
      exitOK == R.exit = (IF done THEN 0 ELSE 1)
      outOK == E = O
      full == exitOK /\ outOK /\ (done => SameBag(L, RL) /\ R.haslint) /\ R.mal = 0
      TopKeys(s) == LET t == SelectSeq(s, LAMBDA e : IsNone(e.par)) IN [j \in 1..Len(t) |-> <<t[j].id, t[j].title>>]
      Keys(s) == [j \in 1..Len(s) |-> <<s[j].id, s[j].par>>]
      topIds == {e.id : e \in ToSet(SelectSeq(E, LAMBDA e : IsNone(e.par)))}
      NestedLint(s) == SelectSeq(s, LAMBDA l : l.fig \notin topIds)
      Sel(fs, S(_)) == [j \in 1..Len(fs) |-> S(fs[j])]
      specials == {TRESERVED, TOBSOLETE, TEllipsis}
      c01 == /\ TopKeys(E) = TopKeys(O)
             /\ LintOK({"T1000", "T1007", "T1008"})
             /\ done => R.haslint
      c02 == /\ exitOK /\ LintOK({"T1000"})
             /\ f.cov \cap {"failed"} /= {} => full
      c03 == On(All, LAMBDA a, b : /\ Len(a.fields) = Len(b.fields)
                                   /\ \A j \in 1..Len(a.fields) :
                                        LET p == a.fields[j]
                                            q == b.fields[j]
                                        IN /\ p.rng = q.rng \/ p.label = q.label
                                           /\ p.label \in specials \/ q.label \in specials => p.label = q.label)
      c04 == /\ On(Struct, LAMBDA a, b : Sel(a.fields, LAMBDA x : x.rng) = Sel(b.fields, LAMBDA x : x.rng))
             /\ LintOK({"R1001", "R1002"})
      layout == {"T1001", "T1002", "T1004"}
      Relint(s) == LET st == SelectSeq(s, LAMBDA e : e.type \in Struct)
                       RECURSIVE G(_)
                       G(j) == IF j > Len(st) THEN <<>> ELSE StructLint(st[j].fields, st[j].id) \o G(j + 1)
                   IN Codes(SelectSeq(G(1), LAMBDA l : l.code \notin ignore), layout)
      c05 == LintOK(layout) /\ (done /\ R.haslint => outOK \/ SameBag(Relint(O), Codes(RL, layout)))
      structIds == {e.id : e \in ToSet(SelectSeq(E, LAMBDA e : e.type \in Struct))}
      NameLintIn(s, in) == SelectSeq(s, LAMBDA l : l.code \in {"L1000", "L1001", "L1002", "L1003", "L1004", "L1007", "V1000", "V1001", "V1002", "V1003"} /\ (in <=> l.fig \in structIds))
      c06 == /\ On(Struct, LAMBDA a, b : Sel(a.fields, LAMBDA x : x.label) = Sel(b.fields, LAMBDA x : x.label))
             /\ done => SameBag(NameLintIn(L, TRUE), NameLintIn(RL, TRUE))
      c07 == /\ On({"values"}, LAMBDA a, b : Sel(a.fields, LAMBDA x : <<x.rng, x.label>>) = Sel(b.fields, LAMBDA x : <<x.rng, x.label>>))
             /\ done => SameBag(NameLintIn(L, FALSE), NameLintIn(RL, FALSE))
      c08 == On(All, LAMBDA a, b : Sel(a.fields, LAMBDA x : x.brief) = Sel(b.fields, LAMBDA x : x.brief))
      c09 == f.cov \cap {"rowspan", "colspan"} /= {} => full
      c10 == /\ f.cov \cap {"nested", "unsupported-nested"} /= {} =>
                  /\ Keys(E) = Keys(O)
                  /\ On(All, LAMBDA a, b : ~IsNone(a.par) => a = b)
                  /\ done => SameBag(NestedLint(L), NestedLint(RL))
             /\ \A e \in ToSet(O) : IsNone(e.par) \/ \E g \in ToSet(O) : g.id = e.par \/ ~exitOK \/ ~done
      c11 == /\ On(All, LAMBDA a, b : a.type = b.type)
             /\ LintOK({"T1006", "T1007"})
      c12 == /\ done => SameBag(L, RL)
             /\ \A j \in 1..Len(R.lint) : R.lint[j].msg = Message(R.lint[j].code)
             /\ ignore /= {} => (exitOK /\ outOK)
      c13 == done => /\ exitOK /\ R.haslint /\ R.mal = 0
                     /\ R.title = Doc(c).title /\ R.rev = Doc(c).rev
                     /\ \A e \in ToSet(O) : EntityConforms(e) \/ (e.type = "values" /\ e.fields = <<>> /\ e \in ToSet(E))
      c14 == (DocKey(c) \in {NvmDoc, ZonedDoc, MiDoc, KvDoc, KvDoc0}) => full
      (* messages, where they were recorded *)
      c30 == "said" \in DOMAIN R =>
               /\ R.said = f.said
               /\ R.told = IF done /\ L /= <<>> THEN <<[n |-> Len(L), path |-> TRUE]>> ELSE <<>>
               /\ R.announced
               /\ R.sorry = (IF R.exit = 0 THEN 0 ELSE 1)
      bad(id, ok) == IF ok THEN {} ELSE {id}
  IN (IF full THEN {} ELSE
        bad("C01", c01) \cup bad("C02", c02) \cup bad("C03", c03) \cup bad("C04", c04) \cup bad("C05", c05)
        \cup bad("C06", c06) \cup bad("C07", c07) \cup bad("C08", c08) \cup bad("C09", c09) \cup bad("C10", c10)
        \cup bad("C11", c11) \cup bad("C14", c14) \cup focus)
     \cup bad("C12", c12) \cup bad("C13", c13) \cup bad("C30", c30)

(* the known finding: a value figure without any row does not conform *)
EmptyValues(f) == \E e \in ToSet(f.out) : e.type = "values" /\ e.fields = <<>>

Nested(f) == Cardinality({j \in 1..Len(f.out) : ~IsNone(f.out[j].par)})
NumFields(f) == LET RECURSIVE S(_)
                    S(j) == IF j > Len(f.out) THEN 0 ELSE Len(f.out[j].fields) + S(j + 1) IN S(1)
Explain(c, f) ==
  IF IOEnv.SPEX_EXPLAIN = "1"
    THEN JsonSerialize(IOEnv.SPEX_CASES \o ".expected." \o ToString(c) \o ".json", [out |-> f.out, lint |-> f.lint, said |-> f.said, pc |-> f.pc])
    ELSE TRUE
Judge ==
  Ended(machine) => /\ PrintT("J " \o ToString(caseNo) \o " " \o ToString(Violated(caseNo, machine)) \o " " \o ToString(machine.cov)
                        \o " " \o ToString(IF EmptyValues(machine) THEN {"empty-values"} ELSE {})
                        \o " " \o ToString(<<Len(machine.out), Nested(machine), NumFields(machine), Len(machine.lint)>>))
              /\ Explain(caseNo, machine)

(* what holds of every state reached *)
StackOK == \A j \in 2..Len(machine.stk) : machine.stk[j].par = machine.stk[j - 1].id \/ IsNone(machine.stk[j].par)
=============================================================================
