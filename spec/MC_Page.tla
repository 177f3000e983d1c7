------------------------------- MODULE MC_Page -------------------------------
(* C28, C29: the histories of the two pages.  An event's line is cut in three
   units here: within what introduces it, within what it tells, its end. *)
EXTENDS Page, TLC, Json, IOUtils
Tier == IOEnv.VERIF_TIER
Thorough == Tier = "thorough"
Part == IOEnv.SPEX_PART        \* "upload" or "report"

H(k, n) == [t |-> "html", k |-> k, n |-> n, url |-> ""]
J(k, n) == [t |-> "json", k |-> k, n |-> n, url |-> ""]
C == [t |-> "completed", k |-> 0, n |-> 0, url |-> "u"]
UNITS == 3
Lens(evs) == [j \in 1..Len(evs) |-> UNITS]
Good == {<<J(1, 1), C>>, <<J(1, 2), J(2, 2), C>>, <<H(1, 2), J(1, 1), C>>, <<H(1, 3), H(2, 3), J(1, 2), C>>}
Bad == {<<>>, <<J(1, 2)>>, <<H(1, 2)>>, <<H(1, 2), H(2, 2), J(1, 3)>>}
(* what the second upload is answered with *)
Seconds == {<<J(1, 2)>>, <<H(1, 2), J(1, 1), C>>}
Pieces == IF Thorough THEN 4 ELSE 3

VARIABLES evs, second, page, cuts, hist, lint, rep
vars == <<evs, second, page, cuts, hist, lint, rep>>

(* lint entries: by code and figure *)
L(c, f, w) == [code |-> c, fig |-> f, what |-> w]
LintSets == {<<>>, <<L("a", "1", 1)>>, <<L("a", "1", 1), L("a", "1", 2), L("b", "1", 3)>>,
             <<L("b", "2", 1), L("a", "1", 2), L("a", "2_0", 3), L("b", "1", 4)>>,
             <<L("c", "2", 1), L("a", "1", 2), L("b", "1", 3), L("a", "2", 4), L("b", "3", 5)>>,
             <<L("a", "1", 1), L("b", "2", 2), L("c", "3", 3), L("c", "3", 4), L("c", "10", 5)>>}
Depth == IF Thorough THEN 7 ELSE 5

Init == IF Part = "upload"
        THEN evs \in Good \cup Bad /\ second \in Seconds /\ page = NewPage /\ cuts = 0 /\ hist = <<>> /\ lint = <<>> /\ rep = NewReport
        ELSE evs = <<>> /\ second = <<>> /\ page = NewPage /\ cuts = 0 /\ hist = <<>> /\ lint \in LintSets /\ rep = NewReport
Act(a, n) == [a |-> a, n |-> n]
Evs == IF page.sub = 2 THEN second ELSE evs      \* what is being received
Rest == Whole(Lens(Evs)) - page.pos
(* a second upload follows one that did not lead to a report *)
Acts == CASE page.ph = "idle" /\ page.sub = 0 -> {Act("submit", 0)}
          [] page.ph = "asked" -> {Act("answer", 200)} \cup IF page.sub = 1 THEN {Act("answer", n) : n \in {400, 422, 0}} ELSE {}
          [] page.ph = "reading" -> (IF Rest = 0 THEN {} ELSE {Act("chunk", n) : n \in IF cuts >= Pieces - 1 THEN {Rest} ELSE 1..Rest})
                                    \cup (IF Rest = 0 THEN {Act("end", 0)} ELSE {})
                                    \cup (IF cuts < Pieces THEN {Act("break", 0)} ELSE {})
          [] page.ph \in {"idle", "unclear"} /\ page.sub = 1 -> {Act("submit", 0)}
          [] OTHER -> {}
UploadNext == \E a \in Acts :
  /\ page' = Does(page, a, Evs, Lens(Evs))
  /\ hist' = Append(hist, a)
  /\ cuts' = IF a.a = "chunk" THEN cuts + 1 ELSE IF a.a = "submit" THEN (IF page.sub = 1 THEN Pieces - 1 ELSE 0) ELSE cuts
  /\ UNCHANGED <<evs, second, lint, rep>>
ReportNext == /\ Len(hist) < Depth
              /\ \E c \in Clicks(lint, rep) : rep' = Click(rep, c) /\ hist' = Append(hist, c) /\ UNCHANGED <<evs, second, page, cuts, lint>>
Next == IF Part = "upload" THEN UploadNext ELSE ReportNext
Ended == IF Part = "upload" THEN Acts = {} ELSE Len(hist) = Depth
Export == Ended => PrintT("D " \o (IF Part = "upload" THEN ToJson([evs |-> <<evs, second>>, hist |-> hist]) ELSE ToJson([lint |-> lint, hist |-> hist])))

(* ---- properties ---- *)
LensNow == Lens(Evs)
ViewsNow == Views(page, Evs, LensNow)
(* the page leaves for the report of an upload that completed, only for it *)
C28leaves == /\ \A v \in ViewsNow : v.left /= None => Completed(Evs, Possible(LensNow, page.pos)) /\ v.left = Url(Evs)
             /\ page.ph = "left" => \A v \in ViewsNow : v.left /= None
             /\ (page.ph = "idle" => ViewsNow = {Form})
(* however it is cut, what is certain of the same bytes is the same *)
C28cuts == page.ph = "reading" => Certain(LensNow, page.pos) = page.pos \div (UNITS + 2)
C28some == Part = "upload" => ViewsNow /= {}
(* progress never goes back *)
C28forward == [][\A v \in ViewsNow, w \in ViewsNow' :
                   page.ph = "reading" /\ page'.ph = "reading" /\ ~v.html.any /\ ~w.html.any /\ page.sub = page'.sub
                     => Cardinality(ViewsNow) > 1 \/ v.html.k * w.html.n <= w.html.k * v.html.n]_vars
C29counts == LET Sum[S \in SUBSET Codes(lint)] == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN Amount(lint, c) + Sum[S \ {c}]
             IN Sum[Codes(lint)] = Len(lint)
C29once == LET all == [f \in ShownFigs(lint, rep.sel) |-> OfFig(lint, rep.sel, f)]
           IN /\ \A j \in Chosen(lint, rep.sel) : \E f \in DOMAIN all : \E i \in 1..Len(all[f]) : all[f][i] = lint[j].what /\ f = lint[j].fig
              /\ \A f \in DOMAIN all : Len(all[f]) = Cardinality({j \in Chosen(lint, rep.sel) : lint[j].fig = f}) /\ all[f] /= <<>>
C29all == rep.sel = {} => ShownFigs(lint, rep.sel) = Figs(lint)
C29twice == \A c \in Codes(lint) : Click(Click(rep, [a |-> "row", x |-> c]), [a |-> "row", x |-> c]) = rep
=============================================================================
