------------------------------- MODULE Stage1 -------------------------------
(***************************************************************************)
(* The transformation of a docx specification into an HTML model as a      *)
(* state machine.  Docx(d) is the document:                                *)
(*   hdr    texts of the page header, in order                             *)
(*   hasnum whether there is a numbering part;                             *)
(*   nums   its <<[id, abs]>>, abss its <<[id, lvls: <<[f, x]>>]>>         *)
(*   sts    styles <<[id, ty, al, on, r]>>: aliases, base style or None,   *)
(*          formatting (<<>> or <<rPr>>)                                   *)
(*   body   nodes, each a record with g and k (children), g being          *)
(*     p    paragraph: num, lvl (<<>> or <<n>>)                            *)
(*     r    run: f (<<>> or <<rPr>>);  t  text: x                          *)
(*     link, fld   hyperlink and simple field;  o  anything else           *)
(*     tbl, tr, tc table, row, cell: span (<<>> or <<n>>), vm, fill        *)
(* rPr records have b, i, s, u ("-": absent, or the attribute's value, ""  *)
(* for none), va ("-": absent), col and st (text or None).                 *)
(*                                                                         *)
(* A state m is                                                            *)
(*   d    the document;  pc "run" or "done"                                *)
(*   ti   the table to look at next, in document order                     *)
(*   seen paths of the tables already rendered                             *)
(*   stk  frames, innermost last: a table (with the row and cell to do), a *)
(*        cell (with the child to do) or a list being collected            *)
(*   ev   what was written: start and end of elements, and texts; k is the *)
(*        background of a cell (None: none) or the marker of a list, as the *)
(*        style sheet has it; Unsaid where the specification leaves it open*)
(*   cov  situations met                                                   *)
(***************************************************************************)
EXTENDS Text
CONSTANT Docx(_)

(* ---- formatting ---- *)
NoFmt == [b |-> "none", i |-> "none", u |-> "none", s |-> "none", va |-> "none", col |-> None]
OnOff(v) == IF v = "-" THEN "none" ELSE IF v \in {"0", "false", "off"} THEN "off" ELSE "on"
FmtOf(r) == [b |-> OnOff(r.b), i |-> OnOff(r.i), s |-> OnOff(r.s),
             u |-> IF r.u = "-" THEN "none" ELSE IF r.u = "none" THEN "off" ELSE "on",
             va |-> IF r.va = "-" THEN "none" ELSE r.va,
             col |-> IF Len(r.col) = 6 THEN r.col ELSE None]
Over(base, f) ==     \* what f says, and else what base says
  [b |-> IF f.b = "none" THEN base.b ELSE f.b, i |-> IF f.i = "none" THEN base.i ELSE f.i,
   s |-> IF f.s = "none" THEN base.s ELSE f.s, u |-> IF f.u = "none" THEN base.u ELSE f.u,
   va |-> IF f.va = "none" THEN base.va ELSE f.va, col |-> IF IsNone(f.col) THEN base.col ELSE f.col]

StylesOf(d, ty) == SelectSeq(Docx(d).sts, LAMBDA s : s.ty = ty)
RECURSIVE Words(_, _)
Words(s, sep) == LET i == Find(s, sep, 1)
                 IN IF i = 0 THEN <<Strip(s)>> ELSE <<Strip(SubSeq(s, 1, i - 1))>> \o Words(From(s, i + 1), sep)
AliasOf(s) == IF IsNone(s.al) THEN {} ELSE LET w == Words(s.al, 44) IN {w[j] : j \in 1..Len(w)}
HasStyle(ss, id) == \E j \in 1..Len(ss) : ss[j].id = id
StyleNamed(ss, id) == ss[CHOOSE j \in 1..Len(ss) : ss[j].id = id /\ \A h \in 1..(j - 1) : ss[h].id /= id]
RECURSIVE StyleFmt(_, _)
StyleFmt(ss, id) ==
  IF ~HasStyle(ss, id) THEN NoFmt
  ELSE LET s == StyleNamed(ss, id)
           own == IF s.r = <<>> THEN NoFmt ELSE FmtOf(s.r[1])
       IN IF IsNone(s.on) THEN own ELSE Over(StyleFmt(ss, s.on), own)
(* a style may be referred to by one of its other names *)
NamedFmt(ss, name) ==
  IF HasStyle(ss, name) THEN StyleFmt(ss, name)
  ELSE LET c == {j \in 1..Len(ss) : name \in AliasOf(ss[j])}
       IN IF c = {} THEN NoFmt ELSE StyleFmt(ss, ss[CHOOSE j \in c : \A h \in c : h <= j].id)
RunFmt(d, f) ==
  IF f = <<>> THEN NoFmt
  ELSE LET own == FmtOf(f[1])
       IN IF IsNone(f[1].st) THEN own ELSE Over(NamedFmt(StylesOf(d, "character"), f[1].st), own)
(* as it shows: underlining and striking through are there or not *)
Look(f) == [b |-> f.b, i |-> f.i, u |-> f.u = "on", s |-> f.s = "on", va |-> f.va, col |-> f.col]
Plain == Look(NoFmt)

(* ---- paragraphs ---- *)
KidsOf(n, g) == SelectSeq(n.k, LAMBDA c : c.g = g)
RECURSIVE JoinText(_, _)
JoinText(ts, j) == IF j > Len(ts) THEN <<>> ELSE ts[j].x \o JoinText(ts, j + 1)
RunText(r) == JoinText(KidsOf(r, "t"), 1)
RECURSIVE RunsFrom(_, _)
RunsFrom(ks, j) ==
  IF j > Len(ks) THEN <<>>
  ELSE (CASE ks[j].g = "r" -> <<ks[j]>>
          [] ks[j].g \in {"link", "fld"} -> KidsOf(ks[j], "r")
          [] OTHER -> <<>>) \o RunsFrom(ks, j + 1)
(* the runs of a paragraph that have text *)
Spans(p) == SelectSeq(RunsFrom(p.k, 1), LAMBDA r : RunText(r) /= <<>>)

NumsOf(d) == IF Docx(d).hasnum THEN Docx(d).nums ELSE <<>>
IsListP(d, p) == p.g = "p" /\ p.num /= <<>> /\ \E j \in 1..Len(NumsOf(d)) : NumsOf(d)[j].id = p.num[1]
Level(p) == IF p.lvl = <<>> THEN 0 ELSE p.lvl[1]
(* the list that a list paragraph belongs to (a later definition of its
   number takes precedence) *)
ListOf(d, p) == LET ns == NumsOf(d)
                    js == {j \in 1..Len(ns) : ns[j].id = p.num[1]}
                IN ns[CHOOSE j \in js : \A h \in js : h <= j].abs
LevelOf(d, abs, l) == LET as == Docx(d).abss
                          js == {j \in 1..Len(as) : as[j].id = abs}
                      IN as[CHOOSE j \in js : \A h \in js : h <= j].lvls[l + 1]
ListTag(d, abs, l) == LET x == LevelOf(d, abs, l).x IN IF x /= <<>> /\ x[1] = 37 THEN "ol" ELSE "ul"

(* ---- tables ---- *)
RECURSIVE At(_, _)
At(n, path) == IF path = <<>> THEN n ELSE At(n.k[path[1]], Tail(path))
Root(d) == [g |-> "body", k |-> Docx(d).body]
RECURSIVE TablesIn(_, _, _)
(* paths of all tables from child j of node n on, in document order *)
TablesIn(n, path, j) ==
  IF j > Len(n.k) THEN <<>>
  ELSE LET c == n.k[j]
           p == Append(path, j)
       IN (IF c.g = "tbl" THEN <<p>> ELSE <<>>) \o (IF c.g = "t" THEN <<>> ELSE TablesIn(c, p, 1)) \o TablesIn(n, path, j + 1)
Tables(d) == TLCEval(TablesIn(Root(d), <<>>, 1))

KidNos(n, g) == SelectSeq([j \in 1..Len(n.k) |-> j], LAMBDA j : n.k[j].g = g)
Width(tc) == IF tc.span = <<>> THEN 1 ELSE tc.span[1]
Merged(tc) == tc.vm \in {"", "continue"}
RECURSIVE WidthTo(_, _)
WidthTo(tcs, j) == IF j = 0 THEN 0 ELSE Width(tcs[j]) + WidthTo(tcs, j - 1)
LeftOf(tr, j) == WidthTo(KidsOf(tr, "tc"), j - 1)          \* first column of the j-th cell
RECURSIVE Below(_, _, _)
(* the rows from r on that continue a cell of column c *)
Below(rows, r, c) ==
  IF r > Len(rows) THEN 0
  ELSE LET tcs == KidsOf(rows[r], "tc")
       IN IF \E j \in 1..Len(tcs) : Merged(tcs[j]) /\ LeftOf(rows[r], j) = c THEN 1 + Below(rows, r + 1, c) ELSE 0
Height(tbl, r, j) == LET rows == KidsOf(tbl, "tr") IN 1 + Below(rows, r + 1, LeftOf(rows[r], j))

Hex6(f) == f /= <<>> /\ Len(f[1]) = 6
White(f) == Lower(f[1]) = T("ffffff")
Grey(f) == SubSeq(f[1], 1, 2) = SubSeq(f[1], 3, 4) /\ SubSeq(f[1], 3, 4) = SubSeq(f[1], 5, 6)
CellTag(tc) == IF Hex6(tc.fill) /\ ~White(tc.fill) /\ Grey(tc.fill) THEN "th" ELSE "td"

(* what a cell's first piece of contents is: a paragraph with text, something
   else (a table, a list), or nothing *)
RECURSIVE FirstPiece(_, _, _)
FirstPiece(d, tc, j) ==
  IF j > Len(tc.k) THEN <<>>
  ELSE LET n == tc.k[j]
       IN IF n.g = "tbl" THEN <<n>>
          ELSE IF n.g = "p" /\ (IsListP(d, n) \/ Spans(n) /= <<>>) THEN <<n>>
          ELSE FirstPiece(d, tc, j + 1)
RECURSIVE SpansText(_, _)
SpansText(rs, j) == IF j > Len(rs) THEN <<>> ELSE RunText(rs[j]) \o SpansText(rs, j + 1)
FigureNo(x) ==      \* "Figure <number>:..."
  LET p == T("Figure ")
      rest == From(x, 8)
      n == Prefix(rest, "digit")
  IN IF StartsWith(x, p) /\ n /= <<>> /\ Len(rest) > Len(n) /\ rest[Len(n) + 1] = COLON THEN n ELSE None
TableId(d, tbl) ==
  LET rows == KidsOf(tbl, "tr")
  IN IF rows = <<>> THEN None
     ELSE LET tcs == KidsOf(rows[1], "tc")
          IN IF tcs = <<>> THEN None
             ELSE LET f == FirstPiece(d, tcs[1], 1)
                  IN IF CellTag(tcs[1]) /= "td" \/ f = <<>> THEN None
                     ELSE IF f[1].g /= "p" \/ IsListP(d, f[1]) THEN None
                     ELSE FigureNo(SpansText(Spans(f[1]), 1))

(* ---- events ---- *)
Unsaid == <<-2>>
Ev(e) == [e |-> e, t |-> "", c |-> 0, r |-> 0, x |-> None, f |-> Plain, k |-> None]
OpenTable(id) == [Ev("table") EXCEPT !.x = id]
OpenCell(tag, cs, rs, back) == [Ev("cell") EXCEPT !.t = tag, !.c = cs, !.r = rs, !.k = back]
OpenList(tag, mark) == [Ev("list") EXCEPT !.t = tag, !.k = mark]
HexDigits == {c \in 48..102 : c <= 57 \/ (c >= 65 /\ c <= 70) \/ c >= 97}
(* a cell shows its shading, unless that is white *)
Background(tc) ==
  IF tc.fill = <<>> \/ ~Hex6(tc.fill) THEN None
  ELSE IF \E j \in 1..6 : tc.fill[1][j] \notin HexDigits THEN Unsaid
  ELSE IF White(tc.fill) THEN None ELSE Lower(tc.fill[1])
Marks == [decimal |-> T("decimal"), lowerLetter |-> T("lower-alpha"), lowerRoman |-> T("lower-roman")]
(* ls: the lists from the outermost on to this one, as <<[t tag, l level]>>.
   Markers go by the level where the lists are of one kind and no level has
   been left out *)
Marker(ls, fmt) ==
  LET n == Len(ls)
  IN IF \E j \in 1..n : ls[j].t /= ls[n].t \/ ls[j].l /= j - 1 THEN Unsaid
     ELSE IF ls[n].t = "ul" THEN (IF ls[n].l % 2 = 0 THEN T("disc") ELSE T("circle"))
     ELSE IF fmt \in DOMAIN Marks THEN Marks[fmt] ELSE Unsaid
Txt(x, f) == [Ev("text") EXCEPT !.x = x, !.f = f]
SpanEvents(d, p) == LET rs == Spans(p) IN [j \in 1..Len(rs) |-> Txt(RunText(rs[j]), Look(RunFmt(d, rs[j].f)))]

(* ---- the machine ---- *)
Begin(d) == [d |-> d, pc |-> "run", ti |-> 1, seen |-> {}, stk |-> <<>>, ev |-> <<>>, cov |-> {}]
Over1(m) == m.pc = "done"

Frame(m) == m.stk[Len(m.stk)]
Push(m, f) == [m EXCEPT !.stk = Append(@, f)]
Drop(m) == [m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
Put(m, es) == [m EXCEPT !.ev = @ \o es]
Met(m, s) == IF s \subseteq m.cov THEN m ELSE [m EXCEPT !.cov = @ \cup s]
(* the cell whose children are being read is the innermost cell frame *)
CellNo(m) == CHOOSE j \in 1..Len(m.stk) : m.stk[j].f = "cell" /\ \A h \in (j + 1)..Len(m.stk) : m.stk[h].f = "list"
Advance(m) == [m EXCEPT !.stk[CellNo(m)].pos = @ + 1]

EnterTable(m, path) ==
  LET t == At(Root(m.d), path)
      id == TableId(m.d, t)
  IN Met(Push(Put([m EXCEPT !.seen = @ \cup {path}], <<OpenTable(id)>>), [f |-> "tbl", at |-> path, r |-> 0, c |-> 0]),
         (IF Len(m.stk) > 0 THEN {"nested"} ELSE {}) \cup (IF IsNone(id) THEN {} ELSE {"figure"}))

(* the next table of the document, unless it has been rendered in a cell *)
NextTable(m) ==
  LET ts == Tables(m.d)
  IN IF m.ti > Len(ts) THEN [m EXCEPT !.pc = "done"]
     ELSE IF ts[m.ti] \in m.seen THEN [m EXCEPT !.ti = @ + 1]
     ELSE EnterTable([m EXCEPT !.ti = @ + 1], ts[m.ti])

(* the next cell of the row, or the next row, or the end of the table *)
TableStep(m) ==
  LET fr == Frame(m)
      t == At(Root(m.d), fr.at)
      rows == KidNos(t, "tr")
      cells == IF fr.r = 0 THEN <<>> ELSE KidNos(t.k[rows[fr.r]], "tc")
  IN IF fr.r > 0 /\ fr.c < Len(cells)
       THEN LET j == fr.c + 1
                tc == t.k[rows[fr.r]].k[cells[j]]
                m1 == [m EXCEPT !.stk[Len(m.stk)].c = j]
                h == Height(t, fr.r, j)
            IN IF Merged(tc) THEN Met(m1, {"continued"})
               ELSE Met(Push(Put(m1, <<OpenCell(CellTag(tc), Width(tc), h, Background(tc))>>),
                             [f |-> "cell", at |-> fr.at \o <<rows[fr.r], cells[j]>>, pos |-> 1]),
                        (IF Width(tc) > 1 THEN {"wide"} ELSE {}) \cup (IF h > 1 THEN {"tall"} ELSE {})
                        \cup (IF CellTag(tc) = "th" THEN {"head"} ELSE {}))
     ELSE LET m1 == IF fr.r > 0 THEN Put(m, <<Ev("/tr")>>) ELSE m
          IN IF fr.r < Len(rows) THEN Put([m1 EXCEPT !.stk[Len(m.stk)].r = fr.r + 1, !.stk[Len(m.stk)].c = 0], <<Ev("tr")>>)
             ELSE Drop(Put(m1, <<Ev("/table")>>))

StartList(m, p) ==
  LET abs == ListOf(m.d, p)
      l == Level(p)
      inner == SubSeq(m.stk, CellNo(m) + 1, Len(m.stk))
      here(lv) == [t |-> ListTag(m.d, abs, lv), l |-> lv]
      lists == [j \in 1..(Len(inner) + 1) |-> here(IF j > Len(inner) THEN l ELSE inner[j].lvl)]
      mark == Marker(lists, LevelOf(m.d, abs, l).f)
  IN Met(Push(Put(m, <<OpenList(ListTag(m.d, abs, l), mark)>>), [f |-> "list", abs |-> abs, lvl |-> l, open |-> FALSE]),
         {"list"} \cup (IF l > 0 THEN {"level"} ELSE {}))

(* the next child of the cell *)
CellStep(m) ==
  LET fr == Frame(m)
      tc == At(Root(m.d), fr.at)
  IN IF fr.pos > Len(tc.k) THEN Drop(Put(m, <<Ev("/cell")>>))
     ELSE LET n == tc.k[fr.pos]
              path == Append(fr.at, fr.pos)
          IN CASE n.g = "tbl" -> LET m1 == Advance(m) IN IF path \in m.seen THEN m1 ELSE EnterTable(m1, path)
               [] n.g = "p" /\ IsListP(m.d, n) -> StartList(m, n)
               [] n.g = "p" /\ ~IsListP(m.d, n) ->
                    LET es == SpanEvents(m.d, n)
                    IN IF es = <<>> THEN Met(Advance(m), {"empty-paragraph"})
                       ELSE Met(Put(Advance(m), <<Ev("p")>> \o es \o <<Ev("/p")>>), {"paragraph"})
               [] OTHER -> Met(Advance(m), {"ignored"})

(* the next paragraph, while collecting a list *)
ListStep(m) ==
  LET fr == Frame(m)
      ce == m.stk[CellNo(m)]
      tc == At(Root(m.d), ce.at)
      n == IF ce.pos > Len(tc.k) THEN [g |-> "none", k |-> <<>>] ELSE tc.k[ce.pos]
      goes == n.g = "p" /\ IsListP(m.d, n) /\ ListOf(m.d, n) = fr.abs
      close == IF fr.open THEN <<Ev("/li")>> ELSE <<>>
      (* a list within a list is part of the item open in it *)
      within == Len(m.stk) > 1 /\ m.stk[Len(m.stk) - 1].f = "list"
      leave == LET m1 == Drop(Put(m, close \o <<Ev("/list")>>))
               IN IF within THEN Put([m1 EXCEPT !.stk[Len(m1.stk)].open = FALSE], <<Ev("/li")>>) ELSE m1
  IN IF goes /\ Level(n) > fr.lvl
       THEN LET m1 == IF fr.open THEN m ELSE Put([m EXCEPT !.stk[Len(m.stk)].open = TRUE], <<Ev("li")>>)
            IN Met(StartList(m1, n), {"sublist"} \cup (IF fr.open THEN {} ELSE {"sublist-without-item"}))
     ELSE IF goes /\ Level(n) = fr.lvl
       THEN Put([Advance(m) EXCEPT !.stk[Len(m.stk)].open = TRUE], close \o <<Ev("li")>> \o SpanEvents(m.d, n))
     ELSE Met(leave, IF goes THEN {"back-out"} ELSE {"list-end"})

Step1(m) ==
  IF m.stk = <<>> THEN NextTable(m)
  ELSE CASE Frame(m).f = "tbl" -> TableStep(m)
         [] Frame(m).f = "cell" -> CellStep(m)
         [] Frame(m).f = "list" -> ListStep(m)

RECURSIVE RunOn(_)
RunOn(m) == IF Over1(m) THEN m ELSE RunOn(TLCEval(Step1(m)))

(* ---- the head ---- *)
RECURSIVE JoinAll(_, _)
JoinAll(ts, j) == IF j > Len(ts) THEN <<>> ELSE ts[j] \o JoinAll(ts, j + 1)
HeaderText(d) == JoinAll(Docx(d).hdr, 1)
(* the style sheet beside the HTML model of an input (its name without .docx) *)
SheetOf(stem) == stem \o T(".css")
TitleOf(d) == Strip(Before(HeaderText(d), 44))
(* the word after the last "revision" *)
RevAt(h) == {i \in 1..(Len(h) - 9) :
               /\ h[i] \in {82, 114} /\ SubSeq(h, i + 1, i + 7) = T("evision") /\ IsSpace(h[i + 8])
               /\ Skip(h, "space", i + 8) <= Len(h)}
RevisionOf(d) ==
  LET h == HeaderText(d)
      c == RevAt(h)
  IN IF c = {} THEN None
     ELSE LET i == CHOOSE i \in c : \A j \in c : j <= i
              b == Skip(h, "space", i + 8)
              e == CHOOSE e \in b..Len(h) : (\A j \in b..e : ~IsSpace(h[j])) /\ (e = Len(h) \/ IsSpace(h[e + 1]))
          IN SubSeq(h, b, e)
=============================================================================
