------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The report server: uploads that are processed while their event streams *)
(* are read, and reports that are served.                                  *)
(*                                                                         *)
(* Upload(u) says what upload u is:                                        *)
(*   way     "ok"; "odd": a file name that may be refused; "nodoc": without*)
(*           a document; "noaccept": the client does not take event        *)
(*           streams; "big": of more than 50 MiB                           *)
(*   doc     the content: hash, kind ("html", "docx"), nh, nj: numbers of  *)
(*           progress events of either phase, ok: whether it completes     *)
(* Actions: post u (up to its first event), send u (the client takes the   *)
(* pending event, the server prepares the next), abort u (it goes away),   *)
(* stop (the server ends and starts again).                                *)
(*                                                                         *)
(* A state is [up, pub, may].  up[u] is [st, ev, held]: st is "idle",      *)
(* "open", "done", "failed", "aborted", "refused" or "past" (it was done   *)
(* in an earlier life of the server); ev the events that                   *)
(* were delivered; held whether it may have temporary files.  pub: hashes  *)
(* whose reports are there; may: those that may be, since completing is    *)
(* announced after publishing.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Upload(_)

Idle == [st |-> "idle", ev |-> <<>>, held |-> FALSE]
Empty(us) == [up |-> [u \in us |-> Idle], pub |-> {}, may |-> {}]
Hash(u) == Upload(u).doc.hash

(* the event after k events *)
Ev(t, k) == [t |-> t, k |-> k]
Event(u, k) ==
  LET d == Upload(u).doc
  IN IF k < d.nh THEN Ev("html", k)
     ELSE IF k < d.nh + d.nj THEN Ev("json", k - d.nh)
     ELSE IF d.ok /\ k = d.nh + d.nj THEN Ev("completed", 0)
     ELSE Ev("none", 0)
(* the upload goes on until an event is pending or its stream ends *)
Settle(s, u) ==
  LET e == Event(u, Len(s.up[u].ev))
  IN IF s.up[u].st /= "open" THEN s
     ELSE IF e.t = "none" THEN [s EXCEPT !.up[u].st = IF Upload(u).doc.ok THEN "done" ELSE "failed", !.up[u].held = FALSE]
     ELSE IF e.t = "completed" THEN [s EXCEPT !.may = @ \cup {Hash(u)}]
     ELSE s

Refuse(s, u) == [s EXCEPT !.up[u].st = "refused"]
Accept(s, u) == Settle([s EXCEPT !.up[u].st = "open", !.up[u].held = TRUE], u)
(* what is made of a name may turn out later *)
Fail(s, u) == [s EXCEPT !.up[u].st = "failed", !.up[u].held = FALSE]
Post(s, u) ==
  IF s.up[u].st /= "idle" THEN {}
  ELSE CASE Upload(u).way \in {"nodoc", "noaccept", "big"} -> {Refuse(s, u)}
         [] Upload(u).way = "odd" -> {Refuse(s, u), Accept(s, u), Fail(s, u)}
         [] OTHER -> {Accept(s, u)}
Taken(s, u, e) == [s EXCEPT !.up[u].ev = Append(@, e), !.pub = IF e.t = "completed" THEN @ \cup {Hash(u)} ELSE @]
Goes(s, u) == Settle(Taken(s, u, Event(u, Len(s.up[u].ev))), u)
Send(s, u) ==
  IF s.up[u].st /= "open" THEN {}
  ELSE LET e == Event(u, Len(s.up[u].ev))
       IN {Goes(s, u)} \cup (IF Upload(u).way = "odd" /\ e.t /= "completed" THEN {Fail(Taken(s, u, e), u)} ELSE {})
Abort(s, u) == IF s.up[u].st /= "open" THEN {} ELSE {[s EXCEPT !.up[u].st = "aborted", !.up[u].held = FALSE]}
(* nothing outlives the server *)
Stop(s) == {[up |-> [u \in DOMAIN s.up |-> [s.up[u] EXCEPT !.st = IF @ = "open" THEN "aborted" ELSE IF @ = "done" THEN "past" ELSE @, !.held = FALSE]],
             pub |-> {}, may |-> {}]}
Do(s, x) == CASE x.a = "post" -> Post(s, x.u) [] x.a = "send" -> Send(s, x.u) [] x.a = "abort" -> Abort(s, x.u) [] x.a = "stop" -> Stop(s) [] OTHER -> {s}

(* what a request for the report, model or HTML of a hash may get *)
Responses(s, h) == (IF h \in s.pub \cup s.may THEN {h} ELSE {}) \cup (IF h \in s.pub THEN {} ELSE {"404"})
StatusOK(u, code) ==
  CASE Upload(u).way = "nodoc" -> code = 422
    [] Upload(u).way = "noaccept" -> code = 400
    [] Upload(u).way = "big" -> code = 413
    [] Upload(u).way = "odd" -> code >= 400
    [] OTHER -> FALSE

(* ---- the announced protocol ---- *)
Count(ev, t) == Cardinality({j \in 1..Len(ev) : ev[j].t = t})
Protocol(ev) ==
  \A j \in 1..Len(ev) :
    /\ ev[j].t \in {"html", "json", "completed"}
    /\ ev[j].t = "completed" => j = Len(ev)
    /\ ev[j].t = "html" => ev[j].k = j - 1
    /\ ev[j].t = "json" => ev[j].k = j - 1 - Count(ev, "html") /\ \A h \in (j + 1)..Len(ev) : ev[h].t /= "html"
=============================================================================
