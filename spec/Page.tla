-------------------------------- MODULE Page --------------------------------
(***************************************************************************)
(* The two pages of the report server, as who looks at them sees them.     *)
(*                                                                         *)
(* The upload page: a document is submitted, the server answers, and its   *)
(* answer's body arrives in pieces that the network cuts anywhere.  Of the *)
(* events in it, those whose end has arrived certainly count, one whose    *)
(* line is all there may; the page shows the progress that the last of     *)
(* them tells, and leaves for the report when the upload is completed.     *)
(*                                                                         *)
(* The report page: the lint entries of a report by code, with a choice of *)
(* codes, and by figure, of the chosen codes only.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y

(* ---- the upload page ---- *)
(* events: [t |-> "html" | "json" | "completed", k, n, url], their lines'
   lengths: each line is followed by two line ends *)
Ends(lens) ==     \* where their lines end
  [j \in 1..Len(lens) |-> LET RECURSIVE Sum(_)
                              Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + lens[i] + 2
                          IN Sum(j) - 2]
Whole(lens) == IF lens = <<>> THEN 0 ELSE Ends(lens)[Len(lens)] + 2
Certain(lens, pos) == Cardinality({j \in 1..Len(lens) : Ends(lens)[j] + 2 <= pos})
Possible(lens, pos) == Cardinality({j \in 1..Len(lens) : Ends(lens)[j] <= pos})

Any == [any |-> TRUE, k |-> 0, n |-> 1]
Bar(k, n) == [any |-> FALSE, k |-> k, n |-> n]
Full == Bar(1, 1)
Of(evs, c, ts) == {j \in 1..c : evs[j].t \in ts}
At(evs, js) == LET e == evs[Most(js)] IN Bar(e.k, e.n)
Completed(evs, c) == Of(evs, c, {"completed"}) /= {}
(* the bars after c events; of a phase that has not begun nothing is claimed *)
HtmlBar(evs, c) == IF Of(evs, c, {"json", "completed"}) /= {} THEN Full
                   ELSE IF Of(evs, c, {"html"}) /= {} THEN At(evs, Of(evs, c, {"html"})) ELSE Any
JsonBar(evs, c) == IF Completed(evs, c) THEN Full
                   ELSE IF Of(evs, c, {"json"}) /= {} THEN At(evs, Of(evs, c, {"json"})) ELSE Any
Url(evs) == evs[Least(Of(evs, Len(evs), {"completed"}))].url

None == "none"
Form == [shown |-> "form", html |-> Any, json |-> Any, left |-> None]
(* what may be seen while the body arrives *)
Reading(evs, c) ==
  IF Completed(evs, c) THEN {[shown |-> "any", html |-> Full, json |-> Full, left |-> l] : l \in {None, Url(evs)}}
  ELSE {[shown |-> "bars", html |-> HtmlBar(evs, c), json |-> JsonBar(evs, c), left |-> None]}
Left(evs) == [shown |-> "any", html |-> Any, json |-> Any, left |-> Url(evs)]

(* p: [ph |-> "idle" | "asked" | "reading" | "left", pos, sub (how often submitted)] *)
NewPage == [ph |-> "idle", pos |-> 0, sub |-> 0]
Views(p, evs, lens) ==
  CASE p.ph = "idle" -> {Form}
    [] p.ph = "asked" -> {[Form EXCEPT !.shown = "any"]}
    [] p.ph = "reading" -> UNION {Reading(evs, c) : c \in Certain(lens, p.pos)..Possible(lens, p.pos)}
    [] p.ph = "left" -> {Left(evs)}
    [] p.ph \in {"unclear", "gone"} -> {Form, Left(evs)}
(* the connection is lost after completion, or the stream ends within its
   last line ends: either is possible *)
Over(p, evs, lens, clean) ==
  LET c == Certain(lens, p.pos)
      d == Possible(lens, p.pos)
  IN IF ~Completed(evs, d) THEN [p EXCEPT !.ph = "idle"]
     ELSE IF Completed(evs, c) /\ clean THEN [p EXCEPT !.ph = "left"] ELSE [p EXCEPT !.ph = "unclear"]
Does(p, a, evs, lens) ==
  CASE a.a = "submit" -> [p EXCEPT !.ph = "asked", !.sub = p.sub + 1]
    [] a.a = "answer" -> IF a.n = 200 THEN [p EXCEPT !.ph = "reading", !.pos = 0] ELSE [p EXCEPT !.ph = "idle"]
    [] a.a = "chunk" -> [p EXCEPT !.pos = p.pos + a.n]
    [] a.a = "end" -> Over(p, evs, lens, TRUE)
    [] a.a = "break" -> Over(p, evs, lens, FALSE)

SameBar(want, seen) == want.any \/ (seen.n > 0 /\ seen.k * want.n = want.k * seen.n)
(* bars are claimed where they are seen *)
Fits(want, seen) ==
  /\ want.shown \in {"any", seen.shown}
  /\ want.left = seen.left
  /\ seen.shown = "bars" => SameBar(want.html, seen.html) /\ SameBar(want.json, seen.json)

(* ---- the report page ---- *)
(* lint: [code, fig, what], in the report's order *)
Codes(lint) == {lint[j].code : j \in 1..Len(lint)}
Figs(lint) == {lint[j].fig : j \in 1..Len(lint)}
Amount(lint, c) == Cardinality({j \in 1..Len(lint) : lint[j].code = c})
Counts(lint) == [c \in Codes(lint) |-> Amount(lint, c)]
NewReport == [tab |-> "summary", sel |-> {}]
Clicks(lint, s) == {[a |-> "tab", x |-> t] : t \in {"summary", "figures"}}
                   \cup IF s.tab = "summary" THEN {[a |-> "row", x |-> c] : c \in Codes(lint)} \cup {[a |-> "clear", x |-> ""]} ELSE {}
Click(s, c) == CASE c.a = "tab" -> [s EXCEPT !.tab = c.x]
                 [] c.a = "row" -> [s EXCEPT !.sel = IF c.x \in s.sel THEN s.sel \ {c.x} ELSE s.sel \cup {c.x}]
                 [] c.a = "clear" -> [s EXCEPT !.sel = {}]
Chosen(lint, sel) == {j \in 1..Len(lint) : sel = {} \/ lint[j].code \in sel}
(* the entries of a figure, in the report's order *)
OfFig(lint, sel, f) ==
  LET RECURSIVE G(_)
      G(j) == IF j > Len(lint) THEN <<>> ELSE (IF lint[j].fig = f /\ j \in Chosen(lint, sel) THEN <<lint[j].what>> ELSE <<>>) \o G(j + 1)
  IN G(1)
ShownFigs(lint, sel) == {lint[j].fig : j \in Chosen(lint, sel)}
=============================================================================
