----------------------------- MODULE ServerTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded schedules.  A case has the uploads, and for     *)
(* every action what was seen: the events that the client got, whether the *)
(* response has ended and with which status, temporary files that were     *)
(* left, files that were changed outside, and the responses to requests.   *)
(* The state of Server follows what was seen; what it does not allow       *)
(* violates one of the properties, whose names are printed.                *)
(***************************************************************************)
EXTENDS Server, Text, Json, IOUtils

Cases == JsonDeserialize(IOEnv.SPEX_CASES)
UniDef == [c \in {174} |-> [w |-> FALSE, s |-> FALSE, d |-> -1, u |-> c, l |-> c]]
VARIABLES caseNo, actNo, srv, bad
vars == <<caseNo, actNo, srv, bad>>
(* uploads are named by their case and number *)
UploadDef(u) == Cases[u[1]].ups[u[2]]
Init == caseNo \in 1..Len(Cases) /\ actNo = 1 /\ bad = {} /\ srv = Empty({<<caseNo, j>> : j \in 1..Len(Cases[caseNo].ups)})

(* one after another: the state after the events that were seen, and whether
   they are those of the protocol *)
RECURSIVE Deliver(_, _, _, _)
Deliver(s, u, es, j) ==
  IF j > Len(es) THEN [s |-> s, ok |-> TRUE]
  ELSE LET e == Event(u, Len(s.up[u].ev))
       IN IF s.up[u].st /= "open" \/ es[j].t /= e.t \/ es[j].k /= e.k THEN [s |-> s, ok |-> FALSE]
          ELSE Deliver(Goes(s, u), u, es, j + 1)
TotalsOK(es) == \A j \in 1..Len(es) : es[j].t \in {"html", "json"} => es[j].n > es[j].k /\ \A h \in 1..Len(es) : es[h].t = es[j].t => es[h].n = es[j].n
Totals(c, u, k) ==      \* all events of the upload up to action k
  LET RECURSIVE G(_)
      G(j) == IF j > k THEN <<>> ELSE (IF Cases[c].obs[j].n = u[2] THEN Cases[c].obs[j].evs ELSE <<>>) \o G(j + 1)
  IN G(1)

Top(fig) == IF \E j \in 1..Len(fig) : fig[j] = UNDERSCORE
            THEN LET js == {j \in 1..Len(fig) : fig[j] = UNDERSCORE} IN SubSeq(fig, 1, (CHOOSE j \in js : \A h \in js : j <= h) - 1)
            ELSE fig
(* the figures that a report of the document shows *)
ReportOK(d, r) ==
  LET named == {Top(d.lint[j]) : j \in 1..Len(d.lint)}
      ids == {d.ids[j] : j \in 1..Len(d.ids)} \ {None}
  IN /\ {r.figs[j].key : j \in 1..Len(r.figs)} = named \cap ids
     /\ \A j \in 1..Len(r.figs) : \E h \in 1..Len(r.figs[j].tables) : d.ids[r.figs[j].tables[h]] = r.figs[j].key
     /\ r.num = d.json

GetClause(s, c, g) ==
  LET d == Cases[c].ups[g.of].doc
      h == d.hash
      allowed == Responses(s, h)
  IN IF g.of = 0 THEN IF g.code = 404 THEN {} ELSE {"C26"}
     ELSE IF g.code = 404 THEN IF "404" \in allowed THEN {} ELSE {"C23"}
     ELSE IF g.code = 200
          THEN IF h \notin allowed THEN {"C26"}
               ELSE (IF g.kind = "report" THEN IF g.rep.num /= d.json THEN {"C23", "C27"} ELSE IF ReportOK(d, g.rep) THEN {} ELSE {"C27"}
                     ELSE IF g.num = (IF g.kind = "json" THEN d.json ELSE d.html) THEN {} ELSE {"C23"})
     ELSE IF h \in s.pub THEN {"C23", "C27"} ELSE {"C26"}

(* the upload's response has ended, after these events *)
Close(s, u) ==
  IF s.up[u].st /= "open" THEN [s |-> s, ok |-> TRUE]
  ELSE [s |-> Fail(s, u), ok |-> Upload(u).way = "odd"]

(* the server has ended and started again *)
Restart(s, c, o) ==
  LET t == CHOOSE x \in Stop(s) : TRUE
      gets == UNION {GetClause(t, c, o.gets[j]) : j \in 1..Len(o.gets)}
  IN [s |-> t, v |-> gets \cup IF o.left > 0 \/ o.outside > 0 THEN {"C24"} ELSE {}]
Act(s, c, o) ==
  IF o.a = "stop" THEN Restart(s, c, o) ELSE
  LET u == <<c, o.n>>
      up == Upload(u)
      ended == o.st = "ended"
      isPost == o.a = "post" /\ s.up[u].st = "idle"
      refused == isPost /\ (up.way \in {"nodoc", "noaccept", "big", "gone"} \/ (up.way = "odd" /\ ended /\ o.code >= 400))
      s1 == IF refused THEN Refuse(s, u) ELSE IF isPost THEN Accept(s, u) ELSE IF o.a = "abort" THEN (IF Abort(s, u) = {} THEN s ELSE CHOOSE t \in Abort(s, u) : TRUE) ELSE s
      d == Deliver(s1, u, o.evs, 1)
      s2 == d.s
      x == IF ended THEN Close(s2, u) ELSE [s |-> s2, ok |-> TRUE]
      clauses ==
        (IF refused /\ ~(up.way = "gone" \/ StatusOK(u, o.code)) THEN {"C26"} ELSE {})
        \cup (IF o.a \in {"post", "send"} /\ (~d.ok \/ ~TotalsOK(Totals(c, u, actNo)) \/ ~x.ok) THEN {"C25"} ELSE {})
        \cup (IF isPost /\ ~refused /\ up.way = "ok" /\ up.doc.ok /\ o.code /= 200 THEN {"C25"} ELSE {})
        \cup (IF ~ended /\ (o.a = "abort" \/ up.way = "gone") THEN {"C24"} ELSE {})
        \cup (IF ended /\ o.left > 0 THEN {"C24"} ELSE {})
        \cup (IF o.outside > 0 THEN {"C24"} ELSE {})
      gets == UNION {GetClause(x.s, c, o.gets[j]) : j \in 1..Len(o.gets)}
      \* an upload that comes to nothing takes nothing away
      nothing == ended /\ (refused \/ x.s.up[u].st \in {"failed", "aborted"})
  IN [s |-> x.s, v |-> clauses \cup gets \cup IF nothing /\ "C23" \in gets THEN {"C26"} ELSE {}]

Next == /\ actNo <= Len(Cases[caseNo].obs)
        /\ LET r == TLCEval(Act(srv, caseNo, Cases[caseNo].obs[actNo]))
           IN srv' = r.s /\ bad' = bad \cup {<<v, actNo>> : v \in r.v}
        /\ actNo' = actNo + 1 /\ caseNo' = caseNo
Never == {j \in 1..Len(Cases[caseNo].ups) : srv.up[<<caseNo, j>>].st = "open" /\ Cases[caseNo].ups[j].way /= "odd"}
Judge == (actNo = Len(Cases[caseNo].obs) + 1) =>
           PrintT("J " \o ToString(caseNo) \o " " \o ToString(bad \cup (IF Cases[caseNo].whole /\ Never /= {} THEN {<<"C25", 0>>} ELSE {})))
=============================================================================
