-------------------------------- MODULE MC_Run --------------------------------
(* C15, C16: all short histories of runs on a few sorts of inputs.            *)
EXTENDS Run, Json, IOUtils

Tier == IOEnv.VERIF_TIER
Thorough == Tier = "thorough"
Part == IOEnv.SPEX_PART

Doc(sort, stem, opens, rev, strict, skips, ok) ==
  [sort |-> sort, stem |-> stem, opens |-> opens, rev |-> rev, strict |-> strict, skips |-> skips, ok0 |-> ok, ok1 |-> ok]
No(sort, stem) == Doc(sort, stem, FALSE, FALSE, FALSE, FALSE, FALSE)
Inputs == <<
  Doc("html", "good", TRUE, TRUE, TRUE, TRUE, TRUE),
  Doc("html", "fails", TRUE, TRUE, FALSE, TRUE, TRUE),
  Doc("docx", "word", TRUE, TRUE, TRUE, TRUE, TRUE),
  Doc("html", "other", TRUE, TRUE, TRUE, TRUE, TRUE),
  Doc("html", "odd", TRUE, TRUE, TRUE, TRUE, FALSE),
  Doc("docx", "wordfails", TRUE, TRUE, FALSE, TRUE, TRUE),
  No("html", "broken"),
  Doc("html", "norev", TRUE, FALSE, FALSE, FALSE, FALSE),
  No("docx", "wordbroken"),
  Doc("docx", "wordnorev", TRUE, FALSE, FALSE, FALSE, FALSE),
  No("json", "model"), No("other", "text"), No("missing", "none"), No("dir", "dir"),
  \* others of the same names, elsewhere
  Doc("html", "good", TRUE, TRUE, TRUE, TRUE, TRUE),
  Doc("docx", "word", TRUE, TRUE, TRUE, TRUE, TRUE) >>
InputDef(n) == Inputs[n]
HitsDef(r, f) == f \in r.hits

RECURSIVE SeqsOf(_, _)
SeqsOf(S, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in SeqsOf(S, n - 1), x \in S}
UpTo(S, n) == UNION {SeqsOf(S, k) : k \in 1..n}
R(inputs, skip, validate, ignore, usage, out, hits) ==
  [inputs |-> inputs, skip |-> skip, validate |-> validate, ignore |-> ignore, usage |-> usage, out |-> out, hits |-> hits, kill |-> FALSE]
Plain(inputs, skip, ignore) == R(inputs, skip, FALSE, ignore, TRUE, TRUE, {})

(* single runs on any inputs *)
One == {<<R(s, k, v, "", TRUE, TRUE, {})>> : s \in UpTo(1..14, 2) \cup SeqsOf(IF Thorough THEN 1..12 ELSE {1, 2, 3, 4, 7, 11}, 3), k \in BOOLEAN, v \in BOOLEAN}
(* faults *)
FaultInputs == {<<1>>, <<3>>, <<1, 4>>, <<3, 4>>, <<4, 3>>, <<6>>, <<4, 2>>, <<3, 5>>}
FilesOf(s) == UNION {OutputsOf(s[j]) : j \in 1..Len(s)}
Faults == {<<R(s, k, v, "", TRUE, TRUE, h)>> : s \in FaultInputs, k \in BOOLEAN, v \in BOOLEAN, h \in SUBSET UNION {OutputsOf(n) : n \in {1, 3, 4}}}
FaultRuns == {h \in Faults : h[1].hits \subseteq FilesOf(h[1].inputs)}
(* bad command lines, then a good one *)
Usage == {<<R(s, k, v, "", u, o, {})>> \o t : s \in {<<1>>, <<3>>, <<1, 3>>, <<2>>}, k \in BOOLEAN, v \in BOOLEAN, u \in BOOLEAN, o \in BOOLEAN,
             t \in {<<>>, <<Plain(<<1>>, FALSE, "")>>}}
(* histories *)
Few == {Plain(s, k, g) : s \in {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<3, 4>>, <<7>>}, k \in BOOLEAN, g \in {"", "some"}}
Fewer == {Plain(s, k, g) : s \in {<<1>>, <<2>>, <<3, 1>>}, k \in BOOLEAN, g \in {"", "some"}} \cup {R(<<3>>, TRUE, FALSE, "", TRUE, TRUE, {File("word", x)}) : x \in {"css", "html", "json"}}
(* of the same names *)
Twins == {Plain(s, k, "") : s \in {<<1>>, <<3>>, <<15>>, <<16>>, <<1, 15>>, <<15, 1>>, <<3, 16>>, <<16, 15, 3>>}, k \in BOOLEAN}
Histories == SeqsOf(Few, 2) \cup SeqsOf(Twins, 2) \cup (IF Thorough THEN SeqsOf(Fewer, 3) ELSE SeqsOf({Plain(s, k, "") : s \in {<<1>>, <<2>>, <<3, 1>>}, k \in BOOLEAN}, 3))
(* a failing run, and all that follows it *)
AfterFault == {<<R(<<n>>, TRUE, FALSE, "", TRUE, TRUE, {f})>> \o <<Plain(<<n>>, TRUE, g)>> : n \in {1, 3}, f \in OutputsOf(1) \cup OutputsOf(3), g \in {"", "some"}}
All == CASE Part = "one" -> One [] Part = "fault" -> FaultRuns \cup AfterFault [] Part = "usage" -> Usage [] OTHER -> Histories

VARIABLES hist, runNo, machine
vars == <<hist, runNo, machine>>
NoFiles == [f \in {} |-> Absent]
Init == hist \in All /\ runNo = 1 /\ machine = Begin(NoFiles, hist[1])
Next == \/ runNo' = runNo /\ machine' \in Steps(machine) /\ hist' = hist
        \/ machine.pc = "ended" /\ runNo < Len(hist) /\ runNo' = runNo + 1 /\ machine' = Begin(machine.fs, hist[runNo + 1]) /\ hist' = hist

Export == (runNo = 1 /\ machine.pc = "start") => PrintT("D " \o ToJson([runs |-> hist, inputs |-> Inputs]))

(* ---- C15 ---- *)
Run1 == machine.r
Completes(n, r) ==
  LET in == Input(n)
  IN /\ in.sort \in {"html", "docx"} /\ in.opens /\ in.rev
     /\ (in.strict \/ (r.skip /\ in.skips))
     /\ \A f \in OutputsOf(n) : ~Hits(r, f)
     /\ r.validate => in.ok0
Ended == machine.pc = "ended"
C15exit == Ended => (machine.exit = 0 <=> Run1.usage /\ Run1.out /\ \A j \in 1..Len(Run1.inputs) : Completes(Run1.inputs[j], Run1))
C15lint == \A f \in DOMAIN machine.fs : HasLint(machine.fs[f]) => f[2] = "json" /\ machine.fs[f].t = "full"
(* the inputs before the first that does not complete have their models (the
   last one of those that share a name) *)
Last(j) == \A h \in (j + 1)..Len(Run1.inputs) : Input(Run1.inputs[h]).stem /= Input(Run1.inputs[j]).stem
C15prefix == Ended /\ Run1.usage /\ Run1.out /\ (\A j \in 1..Len(Run1.inputs) : Input(Run1.inputs[j]).sort \notin {"missing", "dir"}) =>
  \A j \in 1..Len(Run1.inputs) :
    ((\A h \in 1..j : Completes(Run1.inputs[h], Run1)) /\ Last(j))
      => At(machine.fs, File(Input(Run1.inputs[j]).stem, "json")) = Full(Run1.inputs[j], Run1)
(* ---- C16 ---- *)
C16own == \A f \in DOMAIN machine.fs :
  /\ \E j \in 1..runNo : \E n \in {hist[j].inputs[h] : h \in 1..Len(hist[j].inputs)} : f \in OutputsOf(n)
  /\ machine.fs[f].t = "full" => f = File(Input(machine.fs[f].n).stem, "json")
(* a model left behind is that of the last run that wrote it, whichever others there were *)
C16history == Ended /\ machine.exit = 0 =>
  \A j \in 1..Len(Run1.inputs) : Last(j) => At(machine.fs, File(Input(Run1.inputs[j]).stem, "json")) = Full(Run1.inputs[j], Run1)
(* the outcome of a run is the same on an empty directory *)
RECURSIVE Ends(_)
Ends(ms) == IF \A m \in ms : m.pc = "ended" THEN ms ELSE Ends(UNION {IF m.pc = "ended" THEN {m} ELSE Steps(m) : m \in ms})
C16alone == Ended => \E e \in Ends({Begin(NoFiles, Run1)}) : e.exit = machine.exit /\ \A f \in DOMAIN e.fs : e.fs[f].t = "full" => At(machine.fs, f) = e.fs[f]
(* ---- C30 ---- *)
Told(w) == SelectSeq(machine.said, LAMBDA x : x.w = w)
(* inputs are announced in order, each when its turn comes *)
C30announced == LET p == Told("parsing") IN
  /\ \A j \in 1..Len(p) : p[j].k = j
  /\ Len(p) <= Len(Run1.inputs)
  /\ machine.pc = "input" => Len(p) = machine.i - 1
  /\ machine.pc = "stage2" => Len(p) = machine.i
(* a run says that it failed if it did, at its end *)
C30ends == Ended => machine.said /= <<>>
  /\ (machine.exit /= 0 <=> machine.said[Len(machine.said)].w \in {"sorry", "refused", "usage"})
  /\ \A j \in 1..(Len(machine.said) - 1) : machine.said[j].w \notin {"sorry", "refused", "usage"}
(* what is told of an input follows its announcement; a run that completes has
   told of each *)
C30lint ==
  /\ \A j \in 1..Len(machine.said) :
       machine.said[j].w \in {"figures", "lint"} => machine.said[j].k = Len(SelectSeq(SubSeq(machine.said, 1, j), LAMBDA x : x.w = "parsing"))
  /\ Ended /\ machine.exit = 0 => \A k \in 1..Len(Run1.inputs) : \A w \in {"figures", "lint"} : Len(SelectSeq(machine.said, LAMBDA x : x = Token(w, k))) = 1
Ends1 == <>(machine.pc = "ended")
=============================================================================
