------------------------------ MODULE PageTrace ------------------------------
(***************************************************************************)
(* Conformance of what the pages showed.  A case is a history of one page: *)
(* what was done, and after each of it what was seen.  The state of Page   *)
(* follows what was done, what was seen has to be among its views.         *)
(***************************************************************************)
EXTENDS Page, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.SPEX_CASES)
VARIABLES caseNo, actNo, page, rep, bad
vars == <<caseNo, actNo, page, rep, bad>>
Init == caseNo \in 1..Len(Cases) /\ actNo = 0 /\ page = NewPage /\ rep = NewReport /\ bad = {}

(* ---- the upload page ---- *)
(* the streams of its submissions, one after another *)
Stream(c, p) == c.streams[IF p.sub = 0 THEN 1 ELSE p.sub]
UploadOK(c, p, o) ==
  LET st == Stream(c, p)
      want == Views(p, st.evs, st.lens)
  IN /\ \E v \in want : Fits(v, o.view)
     /\ o.did \/ p.ph = "gone"
     \* each submission asks the server once, with the document
     /\ o.posts = p.sub
(* ---- the report page ---- *)
Desc(s) == \A j \in 1..Len(s) - 1 : s[j].n >= s[j + 1].n
SummaryOK(c, r, v) ==
  /\ v.tab = "summary"
  /\ {v.rows[j].code : j \in 1..Len(v.rows)} = Codes(c.lint) /\ Len(v.rows) = Cardinality(Codes(c.lint))
  /\ \A j \in 1..Len(v.rows) : /\ v.rows[j].n = Amount(c.lint, v.rows[j].code)
                               /\ v.rows[j].sel = (v.rows[j].code \in r.sel)
                               /\ v.rows[j].msg
  /\ Desc(v.rows)
  /\ v.total = Len(c.lint)
FiguresOK(c, r, v) ==
  /\ v.tab = "figures"
  /\ {v.groups[j].fig : j \in 1..Len(v.groups)} = ShownFigs(c.lint, r.sel) /\ Len(v.groups) = Cardinality(ShownFigs(c.lint, r.sel))
  /\ \A j \in 1..Len(v.groups) : LET g == v.groups[j] IN g.es = OfFig(c.lint, r.sel, g.fig) /\ g.html
ReportOK(c, r, o) == o.did /\ o.named /\ (IF r.tab = "summary" THEN SummaryOK(c, r, o.view) ELSE FiguresOK(c, r, o.view))

(* what there is to be seen before anything is done is seen at 0 *)
Next == /\ actNo <= Len(Cases[caseNo].acts)
        /\ LET c == TLCEval(Cases[caseNo])
               up == c.page = "upload"
               p == IF actNo = 0 \/ ~up THEN page
                    \* it had left, though the connection was lost
                    ELSE IF page.ph = "gone" \/ (page.ph = "unclear" /\ ~c.obs[actNo + 1].did) THEN [page EXCEPT !.ph = "gone"]
                    ELSE Does(page, c.acts[actNo], Stream(c, page).evs, Stream(c, page).lens)
               r == IF actNo = 0 \/ up THEN rep ELSE Click(rep, c.acts[actNo])
           IN /\ page' = p /\ rep' = r
              /\ bad' = bad \cup IF (IF up THEN UploadOK(c, p, c.obs[actNo + 1]) ELSE ReportOK(c, r, c.obs[actNo + 1])) THEN {} ELSE {actNo}
        /\ actNo' = actNo + 1 /\ caseNo' = caseNo
Judge == (actNo = Len(Cases[caseNo].acts) + 1) => PrintT("J " \o ToString(caseNo) \o " " \o ToString(bad))
=============================================================================
