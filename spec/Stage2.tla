------------------------------- MODULE Stage2 -------------------------------
(***************************************************************************)
(* The transformation of an HTML model into an NVMe model as a state       *)
(* machine.  A state m is                                                  *)
(*   d    the document (an argument of Doc)                                *)
(*   skip whether figures that fail are skipped                            *)
(*   pc   "top": between figures; "fig": working on the top frame;         *)
(*        "raise": unwinding a failure; "done"; "abort"                    *)
(*   fi   child of the body to look at next                                *)
(*   miss number of figures without an id so far                           *)
(*   unw  whether the failure being unwound has been reported              *)
(*   stk  frames of the figures being parsed, innermost last               *)
(*   out  entities emitted, lint: lint entries raised                      *)
(*   said messages to the user: a title without figure id ("head"), the    *)
(*        figure that failed ("failed"), then those it is part of ("in")   *)
(*   cov  situations met (for coverage reports only)                       *)
(* Doc(d) is [title, rev, body]: title and revision in lower case, and the *)
(* body node.                                                              *)
(***************************************************************************)
EXTENDS Layout
CONSTANT Doc(_)

Start0(d, skip) ==
  [d |-> d, skip |-> skip, pc |-> "top", fi |-> 1, miss |-> 0, unw |-> FALSE,
   stk |-> <<>>, out |-> <<>>, lint |-> <<>>, said |-> <<>>, cov |-> {}]

Top(m) == m.stk[Len(m.stk)]
Pop(m) == [m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
WithTop(m, f) == [m EXCEPT !.stk[Len(m.stk)] = f]
Raise(m) == [m EXCEPT !.pc = "raise"]
Lint(m, es) == IF es = <<>> THEN m ELSE [m EXCEPT !.lint = @ \o es]
Says(m, w, id, par, title) == [m EXCEPT !.said = Append(@, [w |-> w, id |-> id, par |-> par, title |-> title])]
Cov(m, s) == IF s \subseteq m.cov THEN m ELSE [m EXCEPT !.cov = @ \cup s]

(* ---- special documents ---- *)
Reg == <<174>>                         \* the registered sign
Nvmeo(rest) == T("nvm express") \o Reg \o T(rest)
NvmDoc  == <<Nvmeo(" nvm command set specification"), T("1.0c")>>
ZonedDoc== <<Nvmeo(" zoned namespace command set specification"), T("1.1c")>>
MiDoc   == <<Nvmeo(" management interface specification"), T("1.2c")>>
KvDoc   == <<Nvmeo(" key value command set specification"), T("1.0c")>>
KvDoc0  == <<Nvmeo(" key value command set specification"), T("1.0")>>
DocKey(d) == <<Doc(d).title, Doc(d).rev>>

Special(d, id) ==
  CASE DocKey(d) = NvmDoc /\ id = T("23") -> [x |-> "split", kind |-> "bits", at |-> T("figure 24"), id |-> T("24")]
    [] DocKey(d) = MiDoc /\ id = T("64") -> [x |-> "split", kind |-> "bits", at |-> T("figure 65"), id |-> T("65")]
    [] DocKey(d) \in {KvDoc, KvDoc0} /\ id = T("41") -> [x |-> "remark", kind |-> "bytes", at |-> T("(refer to Figure 39)."), id |-> <<>>]
    [] OTHER -> [x |-> "no", kind |-> "none", at |-> <<>>, id |-> <<>>]

NvmLabels == {<<T(i), T(v), T(l)>> : i \in {"42_4", "49_0_4", "64_0_4"}, v \in {"00b"}, l \in {"none"}}
        \cup {<<T(i), T("01b"), T("idle")>> : i \in {"42_4", "42_0_4", "64_0_4"}}
        \cup {<<T(i), T("10b"), T("normal")>> : i \in {"42_4", "49_0_4", "64_0_4"}}
        \cup {<<T(i), T("11b"), T("low")>> : i \in {"42_4", "49_0_4", "64_0_4"}}
MiLabels == {<<T("19"), T("2"), T("misc")>>}
ZonedLabels == {<<T("37"), T("0"), T("zt")>>, <<T("37"), T("1"), T("zs")>>, <<T("37"), T("2"), T("za")>>}
FixedLabels(d) == IF DocKey(d) = NvmDoc THEN NvmLabels ELSE IF DocKey(d) = MiDoc THEN MiLabels
                  ELSE IF DocKey(d) = ZonedDoc THEN ZonedLabels ELSE {}
FixedLabel(d, id, val) ==
  LET c == {x \in FixedLabels(d) : x[1] = id /\ x[2] = val}
  IN IF c = {} THEN None ELSE (CHOOSE x \in c : TRUE)[3]

(* ---- opening a figure ---- *)
TblOf(m, f) == NodeAt(Doc(m.d).body, f.path)

TitleCtx(title) == IF IsNone(title) THEN <<>> ELSE Ctx1("title", title)
Headings(tbl, from) ==
  LET i == FirstRowIdx(tbl, from)
  IN IF i = 0 THEN <<>> ELSE TLCEval([j \in 1..Len(tbl.k[i].k) |-> Heading(NodeText(tbl.k[i].k[j]))])
RECURSIVE SynonymLint(_, _, _)
SynonymLint(hs, i, id) ==
  IF i > Len(hs) THEN <<>>
  ELSE (IF Synonym(hs[i]) /= hs[i]
          THEN <<Issue("T1006", id, None, <<[k |-> "expected", v |-> <<Synonym(hs[i])>>], [k |-> "got", v |-> <<hs[i]>>]>>)>>
          ELSE <<>>) \o SynonymLint(hs, i + 1, id)

(* the figure itself cannot be read by the special rules made for it: it fails
   before a frame of its own exists *)
Open(m0, id, par, title, path, from) ==
  LET tbl == NodeAt(Doc(m0.d).body, path)
      hs == Headings(tbl, from)
      hdrs == TLCEval([i \in 1..Len(hs) |-> Synonym(hs[i])])
      m == Lint([m0 EXCEPT !.unw = FALSE, !.pc = IF Len(m0.stk) = 0 THEN "top" ELSE "fig"], SynonymLint(hs, 1, id))
      sp == Special(m.d, id)
      kind == IF sp.x /= "no" THEN sp.kind ELSE KindOf(hdrs)
      cols == IF kind = "none" THEN <<>> ELSE Columns(kind, hdrs)
      rows == TLCEval(RowsOf(tbl, from))
      frame == [id |-> id, par |-> par, title |-> title, path |-> path, from |-> from, kind |-> kind,
                rc |-> LastIdx(hdrs, cols[1]), lc |-> LastIdx(hdrs, cols[2]), cc |-> LastIdx(hdrs, cols[3]),
                rows |-> rows, ri |-> 1, fields |-> <<>>, dyn |-> FALSE, sp |-> sp,
                wait |-> <<>>, subs |-> <<>>, split |-> 0, stitle |-> None]
      bare == [id |-> id, par |-> par, title |-> title]
  IN IF kind = "none"
       THEN Cov(Lint(m, <<Issue("T1007", id, None, <<[k |-> "columns", v |-> hdrs]>>)>>),
                {IF IsNone(par) THEN "unsupported" ELSE "unsupported-nested"})
     ELSE IF cols = <<>> THEN Raise([m EXCEPT !.stk = Append(@, bare)])
     ELSE Cov([m EXCEPT !.stk = Append(@, frame), !.pc = "fig"],
              {kind} \cup (IF IsNone(par) THEN {} ELSE {"nested"})
                     \cup (IF Len(m.stk) >= 2 THEN {"nested-deep"} ELSE {})
                     \cup (IF \E i \in 1..Len(rows) : ~rows[i].hdr /\ \E j \in 1..Len(rows[i].cells) : rows[i].cells[j][1] /= rows[i].tr
                             THEN {"rowspan"} ELSE {})
                     \cup (IF \E i \in from..Len(tbl.k) : \E j \in 1..Len(tbl.k[i].k) : tbl.k[i].k[j].t = "td" /\ tbl.k[i].k[j].cs > 1
                             THEN {"colspan"} ELSE {})
                     \cup (IF cols[2] = cols[3] THEN {"shared"} ELSE {"own-column"}))

(* ---- top level ---- *)
FirstElem(tbl) ==    \* the element that a wrapping table would have its table at
  LET r == FirstRowIdx(tbl, 1) IN
  IF r = 0 THEN <<>>
  ELSE LET tds == KidIdx(tbl.k[r], "td") IN
    IF tds = <<>> \/ tbl.k[r].k[tds[1]].k = <<>> THEN <<>> ELSE <<r, tds[1], 1>>
ResolveWrap(body, i) ==
  LET p == FirstElem(body.k[i]) IN
  IF p /= <<>> /\ NodeAt(body.k[i], p).t = "table" THEN <<i>> \o p ELSE <<i>>

FigId(title) ==
  IF ~StartsWith(title, TFigure) \/ Len(title) < 7 \/ ~IsSpace(title[7]) THEN None
  ELSE LET i == Skip(title, "space", 7)
           j == Skip(title, "figid", i)
       IN IF j = i THEN None ELSE SubSeq(title, i, j - 1)

AtEnd(m) == m.pc = "top" /\ m.fi > Len(Doc(m.d).body.k)
Finish(m) == [m EXCEPT !.pc = "done"]

AtTable(m) == m.pc = "top" /\ m.fi <= Len(Doc(m.d).body.k)
NextTable(m0) ==
  LET m == [m0 EXCEPT !.fi = @ + 1]
      body == Doc(m.d).body
      path == ResolveWrap(body, m0.fi)
      tbl == NodeAt(body, path)
      r == FirstRowIdx(tbl, 1)
      title == NodeText(tbl.k[r])
      id == FigId(title)
  IN IF body.k[m0.fi].t /= "table" THEN m
     ELSE IF r = 0 THEN Cov(m, {"no-rows"})
     ELSE IF ~Contains(title, TFigure) THEN Cov(m, {"untitled"})
     ELSE IF id = None
       THEN Cov(Lint(Says([m EXCEPT !.miss = @ + 1], "head", None, None, title),
                     <<Issue("T1008", T("FIG_ID_MISSING[") \o T(ToString(m.miss)) \o T("]"), None, Ctx1("title", title))>>), {"no-id"})
     ELSE Cov(Open(m, id, None, title, path, r + 1), IF Len(path) > 1 THEN {"wrapped"} ELSE {})

(* ---- rows ---- *)
AtRow(m) == m.pc = "fig" /\ Top(m).wait = <<>> /\ Top(m).ri <= Len(Top(m).rows)

Cell(tbl, row, i) == CellAt(tbl, row.cells[i])
Advance(m, f) == WithTop(m, [f EXCEPT !.ri = @ + 1])
StopRows(m, f) == WithTop(m, [f EXCEPT !.ri = Len(f.rows) + 1])
AddField(m, f, fld) == WithTop(m, [f EXCEPT !.ri = @ + 1, !.fields = Append(@, fld)])
Field(rng, label, brief) == [rng |-> rng, label |-> label, brief |-> brief]
(* the row's field is complete but for the tables nested in its content cell *)
AwaitNested(m, f, fld, tbl, ref) ==
  LET ts == KidIdx(CellAt(tbl, ref), "table")
  IN IF ts = <<>> THEN AddField(m, f, fld)
     ELSE Cov(WithTop(m, [f EXCEPT !.wait = <<fld>>, !.subs = [i \in 1..Len(ts) |-> ref \o <<ts[i]>>]]),
              IF Len(ts) > 1 THEN {"several-nested"} ELSE {})

HeaderRow(m, f, tbl, row) ==
  LET tr == tbl.k[row.tr]
      spanning == SelectSeq(tr.k, LAMBDA c : c.hc)
      elems == [i \in 1..Len(spanning) |-> spanning[i].k]
      list == \E i \in 1..Len(elems) : \E j \in 1..Len(elems[i]) : Contains(NodeText(elems[i][j]), TList)
      \* "List" may also be split over elements
      whole == LET RECURSIVE Cat(_, _), All(_)
                   Cat(ks, j) == IF j > Len(ks) THEN <<>> ELSE NodeText(ks[j]) \o Cat(ks, j + 1)
                   All(i) == IF i > Len(elems) THEN <<>> ELSE Cat(elems[i], 1) \o All(i + 1)
               IN All(1)
      dyn == list \/ Contains(whole, TList)
  IN Cov(Advance(m, [f EXCEPT !.dyn = @ \/ dyn]), {"header-row"} \cup (IF dyn THEN {"dynamic"} ELSE {}))

ShortRow(m, f, tbl, row) ==     \* a bits/bytes row lacking a needed cell
  LET text == RowText(tbl, row)
  IN IF Start(text, 1) = TEllipsis
       THEN Cov(AddField(m, f, Field(EllipsisRange, TEllipsis, None)), {"short-ellipsis"})
     ELSE IF IsNote(text) THEN Cov(StopRows(m, f), {"closing-note"})
     ELSE IF f.sp.x = "split" THEN
       IF StartsWith(Lower(text), f.sp.at)
         THEN Cov(StopRows(m, [f EXCEPT !.split = row.tr + 1, !.stitle = IF Contains(text, TFigure) THEN text ELSE None]), {"split"})
         ELSE Raise(m)
     ELSE IF f.sp.x = "remark" THEN IF EndsWith(text, f.sp.at) THEN Cov(Advance(m, f), {"kv-remark"}) ELSE Raise(m)
     ELSE IF Len(row.cells) = 1 THEN Cov(Advance(m, f), {"remark"})
     ELSE Cov(Raise(m), {"short-row"})

StructRow(m, f, tbl, row) ==
  LET n == Len(row.cells)
      range == NodeText(Cell(tbl, row, f.rc))
      content == NodeText(Cell(tbl, row, f.cc))
      label == NodeText(FirstKid(Cell(tbl, row, f.lc), "p"))
      sr == Range(range, f.id)
      word == IF IsSpecial(content) THEN content ELSE label
      r == IF f.dyn THEN DynamicRange(range, f.id) ELSE sr
      key == RowKey(r.r)
      name == IF f.lc = f.cc THEN SharedName(label, f.id, key) ELSE OwnColumnName(label, f.id, key)
  IN IF n < f.rc \/ n < f.cc \/ n < f.lc THEN ShortRow(m, f, tbl, row)
     ELSE IF ~HasKid(Cell(tbl, row, f.lc), "p") THEN ShortRow(m, f, tbl, row)
     ELSE IF IsSpecial(range) THEN Cov(Advance(m, f), {"special-range"})
     ELSE IF IsSpecial(label) \/ IsSpecial(content) THEN
       LET m2 == Lint(m, sr.lint) IN
       IF word = TEllipsis THEN Cov(AddField(m2, f, Field(sr.r, TEllipsis, None)), {"ellipsis"})
       ELSE IF Upper(word) = TRESERVED THEN Cov(AddField(m2, f, Field(sr.r, TRESERVED, None)), {"reserved"})
       ELSE IF Upper(word) = TOBSOLETE THEN Cov(AddField(m2, f, Field(sr.r, TOBSOLETE, None)), {"obsolete"})
       ELSE Cov(Advance(m2, f), {"note-row"})
     ELSE AwaitNested(Lint(m, r.lint \o name.lint), f, Field(r.r, name.n, StructBrief(content)), tbl, row.cells[f.cc])

ValueRow(m, f, tbl, row) ==
  LET n == Len(row.cells)
      text == RowText(tbl, row)
      val == Lower(NodeText(Cell(tbl, row, f.rc)))
      vr == [k |-> "val", lo |-> val, hi |-> <<>>]
      ccell == Cell(tbl, row, f.cc)
      fixed == FixedLabel(m.d, f.id, val)
      lcell == IF f.lc = f.cc THEN ccell ELSE Cell(tbl, row, f.lc)
      nolabel == n < f.lc \/ ~HasKid(lcell, "p")
      ltext == NodeText(FirstKid(lcell, "p"))
      name == IF f.lc = f.cc THEN SharedValueName(ltext, f.id, val) ELSE OwnColumnValueName(ltext, f.id, val)
      brief == Brief(NodeText(ccell))
  IN IF n < f.rc \/ n < f.cc THEN
       IF Start(text, 1) = TEllipsis
         THEN Cov(AddField(m, f, Field([k |-> "val", lo |-> TEllipsis, hi |-> <<>>], TEllipsis, None)), {"short-ellipsis"})
       ELSE IF Lower(Start(text, 6)) = TnotesC THEN Cov(StopRows(m, f), {"closing-note"})
       ELSE Cov(Advance(m, f), {"short-value-row"})
     ELSE IF val = TEllipsis THEN Cov(AddField(m, f, Field(vr, TEllipsis, None)), {"ellipsis"})
     ELSE IF fixed /= None
       THEN AwaitNested(Cov(Lint(m, <<Issue("L1007", f.id, val, <<>>)>>), {"fixed-label"}), f, Field(vr, fixed, brief), tbl, row.cells[f.cc])
     ELSE IF nolabel
       THEN Cov(Raise(IF f.lc = f.cc THEN Lint(m, <<Issue("L1000", f.id, val, <<>>)>>) ELSE m), {"no-label"})
     ELSE AwaitNested(Lint(m, name.lint), f, Field(vr, name.n, brief), tbl, row.cells[f.cc])

DoRow(m) ==
  LET f == Top(m)
      tbl == TblOf(m, f)
      row == f.rows[f.ri]
  IN IF row.hdr THEN HeaderRow(m, f, tbl, row)
     ELSE IF f.kind = "values" THEN ValueRow(m, f, tbl, row)
     ELSE StructRow(m, f, tbl, row)

(* ---- nested tables ---- *)
AtNested(m) == m.pc = "fig" /\ Top(m).wait /= <<>>
DoNested(m) ==
  LET f == Top(m)
      m2 == WithTop(m, [f EXCEPT !.subs = Tail(@)])
  IN IF f.subs = <<>> THEN AddField(m, [f EXCEPT !.wait = <<>>], f.wait[1])
     ELSE Open(m2, f.id \o <<UNDERSCORE>> \o RowKey(f.wait[1].rng), f.id, None, f.path \o f.subs[1], 1)

(* ---- end of a figure ---- *)
AtFigureEnd(m) == m.pc = "fig" /\ Top(m).wait = <<>> /\ Top(m).ri = Len(Top(m).rows) + 1
Reverse(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
Entity(f, fields) == [id |-> f.id, par |-> f.par, title |-> f.title, type |-> f.kind, fields |-> fields]
FinishFigure(m) ==
  LET f == Top(m)
      fields == IF f.kind = "bits" THEN Reverse(f.fields) ELSE f.fields
      lint == IF f.kind = "values" THEN ValueLint(fields, f.id) ELSE StructLint(fields, f.id)
      m1 == Lint([m EXCEPT !.out = Append(@, Entity(f, fields))], lint)
      m2 == Pop(m1)
  IN IF f.split /= 0
       THEN Open(WithTop(m1, [f EXCEPT !.ri = Len(f.rows) + 2]), f.sp.id, None, f.stitle, f.path, f.split)
     ELSE [m2 EXCEPT !.pc = IF Len(m2.stk) = 0 THEN "top" ELSE "fig"]
(* back from the figure split off *)
AtSplitEnd(m) == m.pc = "fig" /\ Top(m).wait = <<>> /\ Top(m).ri = Len(Top(m).rows) + 2
FinishSplit(m) == LET m2 == Pop(m) IN [m2 EXCEPT !.pc = "top"]

(* ---- failures ---- *)
AtRaise(m) == m.pc = "raise"
Unwind(m) ==
  LET f == Top(m)
      m1 == IF m.unw THEN Says(m, "in", f.id, f.par, f.title)
            ELSE Lint(Says([m EXCEPT !.unw = TRUE], "failed", f.id, f.par, f.title), <<Issue("T1000", f.id, None, TitleCtx(f.title))>>)
      m2 == Pop(m1)
      on == ~IsNone(f.par) \/ ~m.skip
  IN Cov(IF on THEN (IF m2.stk = <<>> THEN [m2 EXCEPT !.pc = "abort"] ELSE m2)
         ELSE [m2 EXCEPT !.pc = IF m2.stk = <<>> THEN "top" ELSE "fig"],
         {IF IsNone(f.par) THEN "failed" ELSE "failed-nested"})

(* ---- the machine ---- *)
Ended(m) == m.pc \in {"done", "abort"}
Step(m) ==
  IF AtEnd(m) THEN Finish(m)
  ELSE IF AtTable(m) THEN NextTable(m)
  ELSE IF AtRow(m) THEN DoRow(m)
  ELSE IF AtNested(m) THEN DoNested(m)
  ELSE IF AtFigureEnd(m) THEN FinishFigure(m)
  ELSE IF AtSplitEnd(m) THEN FinishSplit(m)
  ELSE Unwind(m)
RECURSIVE RunFrom(_)
RunFrom(m) == IF Ended(m) THEN m ELSE RunFrom(Step(m))
Run(d, skip) == RunFrom(Start0(d, skip))
=============================================================================
