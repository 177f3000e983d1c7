------------------------------ MODULE MC_Server ------------------------------
(* C23, C24, C25, C26: all interleavings of the steps of two or three uploads *)
(* and, in the part "lives", of the server ending and starting again          *)
EXTENDS Server, Json, IOUtils
Tier == IOEnv.VERIF_TIER
Thorough == Tier = "thorough"
Part == IOEnv.SPEX_PART

D(hash, kind, nh, nj, ok) == [hash |-> hash, kind |-> kind, nh |-> nh, nj |-> nj, ok |-> ok]
Docs == [one |-> D("one", "html", 0, 1, TRUE), two |-> D("two", "html", 0, 1, TRUE), more |-> D("more", "html", 0, 2, TRUE), word |-> D("word", "docx", 1, 1, TRUE),
         bad |-> D("bad", "html", 0, 0, FALSE), late |-> D("late", "html", 0, 1, FALSE), wordbad |-> D("wordbad", "docx", 0, 0, FALSE), wordlate |-> D("wordlate", "docx", 1, 0, FALSE),
         \* the contents of one that completes, under a name with which it fails
         onelate |-> D("one", "html", 0, 1, FALSE)]
(* names: uploads may have the same file name *)
U(d, name, way) == [doc |-> Docs[d], d |-> d, name |-> name, way |-> way]
Ok(d, name) == U(d, name, "ok")
Names == {"same", "own"}
Firsts == {"one", "word"}
Pairs == {<<Ok(a, "same"), Ok(b, n)>> : a \in Firsts, b \in DOMAIN Docs, n \in Names}
         \cup {<<Ok(a, "same"), U("two", "same", w)>> : a \in Firsts, w \in {"nodoc", "noaccept", "odd"}}
         \cup {<<U("one", "odd", "odd"), U("two", "odd", "odd")>>, <<U("word", "odd", "odd"), Ok("one", "own")>>, <<Ok("more", "same"), Ok("more", "same")>>}
Triples == {<<Ok("one", "same"), Ok(b, "same"), Ok(c, n)>> : b \in {"one", "two", "word"}, c \in {"one", "two", "late", "onelate", "bad"}, n \in Names}
Few == {<<Ok("one", "same"), Ok("two", "same"), Ok("one", n)>> : n \in {"same"}}
Lives == {<<Ok(a, "same"), Ok(b, n)>> : a \in Firsts, b \in {"one", "two", "late", "word"}, n \in Names}
MaxStops == IF Part /= "lives" THEN 0 ELSE IF Thorough THEN 2 ELSE 1
Sets == CASE Part = "pairs" -> Pairs [] Part = "lives" -> Lives [] Part = "triples" -> IF Thorough THEN Triples ELSE Few

VARIABLES ups, sched, srv
vars == <<ups, sched, srv>>
UploadDef(u) == u.what         \* uploads are named by what they are
Named(s) == {[n |-> j, what |-> s[j]] : j \in 1..Len(s)}
Init == ups \in Sets /\ sched = <<>> /\ srv = Empty(Named(ups))
Acts(s) == {[a |-> "post", u |-> u] : u \in {v \in DOMAIN s.up : s.up[v].st = "idle" /\ \A w \in DOMAIN s.up : w.n < v.n => s.up[w].st /= "idle"}}
           \cup {[a |-> x, u |-> u] : x \in {"send", "abort"}, u \in {v \in DOMAIN s.up : s.up[v].st = "open"}}
(* schedules: what was done, as the upload's number *)
Stops == Cardinality({j \in 1..Len(sched) : sched[j].a = "stop"})
Next == \/ \E x \in Acts(srv) : /\ srv' \in Do(srv, x)
                                /\ sched' = Append(sched, [a |-> x.a, n |-> x.u.n])
                                /\ ups' = ups
        \/ /\ Stops < MaxStops /\ sched /= <<>> /\ sched[Len(sched)].a /= "stop"
           /\ srv' \in Do(srv, [a |-> "stop"])
           /\ sched' = Append(sched, [a |-> "stop", n |-> 0])
           /\ ups' = ups
Stopped == sched /= <<>> /\ sched[Len(sched)].a = "stop"
Over == Acts(srv) = {} /\ Stops = MaxStops
Export == Over => PrintT("D " \o ToJson([ups |-> ups, sched |-> sched]))

(* ---- properties ---- *)
All == DOMAIN srv.up
C23served == \A u \in All : srv.up[u].st = "done" => Responses(srv, Hash(u)) = {Hash(u)}
C23stays == [][Stopped' \/ (\A h \in srv.pub : Responses(srv, h) = Responses(srv, h)' /\ h \in srv'.pub)]_vars
C24stopped == Stopped => srv.pub = {} /\ srv.may = {} /\ \A u \in All : ~srv.up[u].held /\ srv.up[u].st /= "open" /\ Responses(srv, Hash(u)) = {"404"}
C24gone == \A u \in All : srv.up[u].held => srv.up[u].st = "open"
C25protocol == \A u \in All : /\ Protocol(srv.up[u].ev)
                              /\ (\E j \in 1..Len(srv.up[u].ev) : srv.up[u].ev[j].t = "completed") <=> srv.up[u].st \in {"done", "past"}
                              /\ srv.up[u].st = "done" => Count(srv.up[u].ev, "html") = Upload(u).doc.nh /\ Count(srv.up[u].ev, "json") = Upload(u).doc.nj
C26none == \A h \in {Hash(u) : u \in All} :
             /\ h \in srv.pub => \E u \in All : Hash(u) = h /\ srv.up[u].st = "done"
             /\ (\A u \in All : Hash(u) = h => ~Upload(u).doc.ok \/ srv.up[u].st \in {"idle", "refused", "past"}) => Responses(srv, h) = {"404"}
C26other == [][Stopped' \/ (\A u \in All : srv.up[u].st = "open" /\ srv.up[u]'.st \in {"aborted", "failed"} => srv'.pub = srv.pub /\ srv'.may = srv.may)]_vars
Frame == [][Stopped' \/ Cardinality({u \in All : srv.up[u] /= srv'.up[u]}) <= 1]_vars
=============================================================================
