-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* The command: runs of it, one after another, on a file system.           *)
(*                                                                         *)
(* A run has inputs and options.  Input(n) says what input number n is:    *)
(*   sort    "html", "docx": suffix of a document; "json", "other": suffix *)
(*           of something else; "missing", "dir": there is no such file    *)
(*   stem    the name of the file without its suffix                       *)
(*   opens   it can be opened: an HTML model (or docx) that is what it says*)
(*   rev     it has what stage 2 needs (a title and a revision)            *)
(*   strict  stage 2 completes without --skip-figure-on-error              *)
(*   skips   stage 2 completes with it                                     *)
(*   ok0, ok1  its model conforms to the schema, without and with it       *)
(* Options of a run: skip, validate (BOOLEAN), ignore (the lint codes),    *)
(* usage (the command line is well-formed), out (the output directory is   *)
(* one), kill (it may be killed).  Hits(r, f) says whether writing the     *)
(* output file f = <<stem, suffix>> fails in run r.                        *)
(*                                                                         *)
(* Contents of files are tokens: what is written for input n under options *)
(* o is [t |-> "full", n, o], and nothing else of the world is in it.      *)
(*                                                                         *)
(* A run tells its user what it does: "parsing" input k, what it found     *)
(* about the "figures" of input k, how many "lint" entries its model has,  *)
(* that it "refused" input k or the command line ("usage"), and that it is *)
(* "sorry" to end in an error.  "any" stands for messages up to the point  *)
(* of a fault.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Input(_), Hits(_, _)      \* Hits(run, file)

Absent == [t |-> "absent"]
Partial == [t |-> "partial"]        \* no model, or one without its lint section
(* what of the options a model depends on *)
Opts(r) == [skip |-> r.skip, ignore |-> r.ignore]
Full(n, r) == [t |-> "full", n |-> n, skip |-> r.skip, ignore |-> r.ignore]
FullHtml(n) == [t |-> "html", n |-> n]

File(stem, suffix) == <<stem, suffix>>
OutputsOf(n) == IF Input(n).sort = "docx" THEN {File(Input(n).stem, "html"), File(Input(n).stem, "css"), File(Input(n).stem, "json")}
                ELSE IF Input(n).sort = "html" THEN {File(Input(n).stem, "json")} ELSE {}
At(fs, f) == IF f \in DOMAIN fs THEN fs[f] ELSE Absent
Put(fs, f, x) == IF x = Absent THEN [g \in DOMAIN fs \ {f} |-> fs[g]] ELSE [g \in DOMAIN fs \cup {f} |-> IF g = f THEN x ELSE fs[g]]

(* ---- one run: [r, i, pc, exit, fs, said] ----                           *)
(* pc: "start", "input" (about to process input i), "stage2", "ended"      *)
Begin(fs, r) == [r |-> r, i |-> 1, pc |-> "start", exit |-> 9, fs |-> fs, said |-> <<>>]
Token(w, k) == [w |-> w, k |-> k]
Tell(m, ts) == [m EXCEPT !.said = @ \o ts]
Fail(m, ts, fs) == [Tell(m, ts) EXCEPT !.pc = "ended", !.exit = 1, !.fs = fs]
Sorry == Token("sorry", 0)
Whatever == Token("any", 0)

(* a bad command line or input that there is not is found before anything *)
Start(m) ==
  LET gone == \E j \in 1..Len(m.r.inputs) : Input(m.r.inputs[j]).sort \in {"missing", "dir"}
  IN IF ~m.r.usage \/ ~m.r.out \/ gone \/ m.r.inputs = <<>> THEN {Fail(m, <<Token("usage", 0)>>, m.fs)} ELSE {[m EXCEPT !.pc = "input"]}

(* what may be left of an output file that could not be written *)
Left(fs, f) == {At(fs, f), Absent, Partial}

Convert(m) ==
  LET t == Tell(m, <<Token("parsing", m.i)>>)
      n == m.r.inputs[m.i]
      in == Input(n)
      h == File(in.stem, "html")
      c == File(in.stem, "css")
  IN IF m.i > Len(m.r.inputs) THEN {[m EXCEPT !.pc = "ended", !.exit = 0]}
     ELSE IF in.sort \in {"json", "other"} THEN {Fail(t, <<Token("refused", m.i)>>, m.fs)}
     ELSE IF in.sort = "html" THEN {[t EXCEPT !.pc = "stage2"]}
     ELSE IF ~in.opens THEN {Fail(t, <<Sorry>>, Put(Put(m.fs, h, x), c, y)) : x \in Left(m.fs, h), y \in Left(m.fs, c)}
     ELSE LET done(f, x) == IF Hits(m.r, f) THEN Left(m.fs, f) ELSE {x}
          IN IF Hits(m.r, h) \/ Hits(m.r, c)
             THEN {Fail(t, <<Sorry>>, Put(Put(m.fs, h, x), c, y)) : x \in Left(m.fs, h) \cup {FullHtml(n)}, y \in Left(m.fs, c) \cup {FullHtml(n)}}
             ELSE {[t EXCEPT !.pc = "stage2", !.fs = Put(Put(m.fs, h, FullHtml(n)), c, FullHtml(n))]}

Stage2(m) ==
  LET n == m.r.inputs[m.i]
      in == Input(n)
      j == File(in.stem, "json")
      completes == in.opens /\ in.rev /\ (IF m.r.skip THEN in.skips ELSE in.strict)
      conforms == IF m.r.skip THEN in.ok1 ELSE in.ok0
      full == Put(m.fs, j, Full(n, m.r))
      figures == Token("figures", m.i)
      lint == Token("lint", m.i)
  IN IF Hits(m.r, j) \/ ~completes
       THEN {Fail(m, <<IF Hits(m.r, j) THEN Whatever ELSE figures, Sorry>>, Put(m.fs, j, x)) : x \in Left(m.fs, j)}
     ELSE IF m.r.validate /\ ~conforms THEN {Fail(m, <<figures, lint, Sorry>>, full)}
     ELSE {[Tell(m, <<figures, lint>>) EXCEPT !.pc = "input", !.i = m.i + 1, !.fs = full]}

(* a killed run may end anywhere, leaving anything but a model that is said
   to be complete of the outputs of the input that it was processing *)
Kill(m) ==
  LET n == m.r.inputs[m.i]
      in == Input(n)
      h == File(in.stem, "html")
      c == File(in.stem, "css")
      j == File(in.stem, "json")
      fj == IF m.pc = "stage2" /\ ~Hits(m.r, j) /\ in.opens /\ in.rev /\ (IF m.r.skip THEN in.skips ELSE in.strict) THEN {Full(n, m.r)} ELSE {}
  IN IF ~m.r.kill \/ m.pc \notin {"input", "stage2"} \/ m.i > Len(m.r.inputs) THEN {}
     ELSE IF in.sort = "docx" /\ m.pc = "input"
          THEN {Fail(m, <<Whatever>>, Put(Put(m.fs, h, x), c, y)) : x \in Left(m.fs, h) \cup {FullHtml(n)}, y \in Left(m.fs, c) \cup {FullHtml(n)}}
          ELSE {Fail(m, <<Whatever>>, Put(m.fs, j, x)) : x \in Left(m.fs, j) \cup fj}

Steps(m) == Kill(m) \cup CASE m.pc = "start" -> Start(m) [] m.pc = "input" -> Convert(m) [] m.pc = "stage2" -> Stage2(m) [] OTHER -> {}

(* ---- what can be seen of a model file ---- *)
HasLint(x) == x.t = "full"
=============================================================================
