------------------------------- MODULE RunTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded histories of runs.  A case has the inputs, the  *)
(* runs, and what was seen after each of them: the exit status, the files  *)
(* of the output directory with a number for their contents (those that    *)
(* are alike have the same one; 0: no model with a lint section), whether  *)
(* inputs were changed and other files were written.  A case is accepted   *)
(* if some behaviour of Run shows what was seen.                           *)
(***************************************************************************)
EXTENDS Run, Integers, Json, IOUtils

Cases == JsonDeserialize(IOEnv.SPEX_CASES)
VARIABLES caseNo, runNo, machine
vars == <<caseNo, runNo, machine>>
InputDef(n) == n            \* runs name the inputs by their records
HitsDef(r, f) == \E j \in 1..Len(r.hits) : r.hits[j] = f

RunOf(c, k) == Cases[c].runs[k]
Init == caseNo \in 1..Len(Cases) /\ runNo = 1 /\ machine = Begin([f \in {} |-> Absent], RunOf(caseNo, 1))

(* the number of the contents that a file should have *)
Number(x, f, deep) ==
  CASE x.t = "full" -> LET ks == {j \in 1..Len(x.n.models) : x.n.models[j].skip = x.skip /\ x.n.models[j].ignore = x.ignore}
                       IN IF ks = {} THEN -1 ELSE LET k == CHOOSE j \in ks : TRUE IN IF deep THEN x.n.models[k].deep ELSE x.n.models[k].shape
    [] x.t = "html" -> IF f[2] = "html" THEN x.n.html ELSE -2       \* any style sheet
    [] OTHER -> 0
SeenNo(o, deep) == IF deep THEN o.deep ELSE o.shape
Seen(c, k, f) == LET fs == Cases[c].seen[k].files IN {j \in 1..Len(fs) : fs[j].f = f}
FileOK(c, k, fs, f, deep) ==
  LET js == Seen(c, k, f)
      x == At(fs, f)
      n == Number(x, f, deep)
  IN IF x = Absent THEN js = {}
     ELSE /\ js /= {}
          /\ LET o == Cases[c].seen[k].files[CHOOSE j \in js : TRUE]
             IN n = -2 \/ (f[2] /= "json" /\ x = Partial) \/ SeenNo(o, deep) = n
AllFiles(c, k, fs) == {f \in DOMAIN fs : TRUE} \cup {Cases[c].seen[k].files[j].f : j \in 1..Len(Cases[c].seen[k].files)}
(* what is heard of a token of run r: the messages on the figures and the lint
   of an input are known by runs on it alone *)
ModelOf(in, r) == LET ks == {j \in 1..Len(in.models) : in.models[j].skip = r.skip /\ in.models[j].ignore = r.ignore}
                  IN IF ks = {} THEN [said |-> 0, lint |-> 0] ELSE in.models[CHOOSE j \in ks : TRUE]
Heard(x, r) ==
  CASE x.w = "figures" -> LET n == ModelOf(r.inputs[x.k], r).said IN IF n = 0 THEN <<>> ELSE <<[w |-> "figures", k |-> x.k, n |-> n]>>
    [] x.w = "lint" -> LET n == ModelOf(r.inputs[x.k], r).lint IN IF n = 0 THEN <<>> ELSE <<[w |-> "lint", k |-> x.k, n |-> n]>>
    [] OTHER -> <<[w |-> x.w, k |-> x.k, n |-> 0]>>
RECURSIVE HeardAll(_, _), Like(_, _)
HeardAll(s, r) == IF s = <<>> THEN <<>> ELSE Heard(Head(s), r) \o HeardAll(Tail(s), r)
Like(e, s) == IF e = <<>> THEN s = <<>>
              ELSE IF Head(e).w = "any" THEN \E j \in 0..Len(s) : (\A h \in 1..j : s[h].w \in {"parsing", "figures", "lint"}) /\ Like(Tail(e), SubSeq(s, j + 1, Len(s)))
              ELSE s /= <<>> /\ Head(s) = Head(e) /\ Like(Tail(e), Tail(s))
Match(c, k, m) ==
  LET s == Cases[c].seen[k]
      focus == Cases[c].focus
  IN IF focus = "C15"
     THEN /\ s.exit = m.exit
          /\ \A f \in AllFiles(c, k, m.fs) : f[2] = "json" => FileOK(c, k, m.fs, f, FALSE)
     ELSE IF focus = "C30"
     THEN s.exit = m.exit /\ s.logok /\ Like(HeardAll(m.said, m.r), s.said)
     ELSE /\ \A f \in AllFiles(c, k, m.fs) : FileOK(c, k, m.fs, f, TRUE)
          /\ ~s.changed
          /\ s.strays = 0 \/ m.r.kill
Next ==
  \/ machine.pc /= "ended" /\ machine' \in Steps(machine) /\ UNCHANGED <<caseNo, runNo>>
  \/ /\ machine.pc = "ended" /\ runNo <= Len(Cases[caseNo].runs) /\ Match(caseNo, runNo, machine)
     /\ runNo' = runNo + 1 /\ caseNo' = caseNo
     /\ machine' = IF runNo < Len(Cases[caseNo].runs) THEN Begin(machine.fs, RunOf(caseNo, runNo + 1)) ELSE [machine EXCEPT !.pc = "accepted"]

Judge == /\ machine.pc = "accepted" => PrintT("A " \o ToString(caseNo))
         /\ (machine.pc = "ended" /\ Match(caseNo, runNo, machine)) => PrintT("P " \o ToString(caseNo) \o " " \o ToString(runNo))
=============================================================================
