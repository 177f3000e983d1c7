"""Random docx documents, in the form of the specification (Stage1)."""
from .real import codes, NONE

WORDS = ["alpha", "beta", "Command Set", "bit", "0h", "1:0", "x", "Reserved", "  two  blanks ", "a<b>&\"c'", "&amp;", "\u00a0", "\u2026", "n\u00e9e",
         "\u65e5\u672c", "\U0001f600", "tab\there", "]]>", "<!--", "Figure 7: no", "\\n", "%s", "{0}", "\u2028", "\u0085", "a\u0301", "line\nbreak", "'", "\u200b", " "]
TITLES = ["Figure 1: Alpha", "Figure 12:Beta", "Figure 3:", "Figure 4 : no", "figure 5: no", " Figure 6: no", "Figure A: no", "Figure 7.1: no", "Figure  8: no",
          "Figure 9", "Figure: 3", "Figure 007: x", "Figure \u0663: arabic", "Figure 1: a, Figure 2: b", "Figure 10: <&>\"'"]
FILLS = ["auto", "D9D9D9", "d9d9d9", "BFBFBF", "FFFFFF", "ffffff", "FfFfFf", "FFFF00", "00B0F0", "000000", "c0C0c0", "ABABAB", "AB", "fff", "123456", "FFFFFE", "112211", "yellow", "abcdef", "0F0F0F"]
HEADERS = [["NVM Express\u00ae Base Specification, Revision 2.0c"], ["Spec", ", ", "revision 1.0"], ["A & B <x> \"q\" 'p', Revision 1.0\"<&"], ["No revision here"], [],
           ["Revision 3"], ["a, b, Revision 1, revision 2.1 final"], ["  spaced  title  , Revision\t 4.0 "], ["T, Revision"], ["T, Revision  "], ["T, ReRevision 5x"],
           ["T,Revision\u00a07\u00a0z"], [",, Revision 1"], ["Title only, rev 1.0"], ["REVISION 3, Revision 2revision 4"], ["\u65e5\u672c, Revision \u0662.0"]]
ON = ["", "1", "true", "on"]
OFF = ["0", "false", "off"]


def rpr(rnd, styles, p=.25):
    tri = lambda: "-" if rnd.random() > p else rnd.choice(ON if rnd.random() < .6 else OFF)
    return {"b": tri(), "i": tri(), "s": tri(),
            "u": "-" if rnd.random() > p else rnd.choice(["single", "none", "double", "words"]),
            "va": "-" if rnd.random() > p * .7 else rnd.choice(["baseline", "subscript", "superscript"]),
            "col": NONE if rnd.random() > p else codes(rnd.choice(["FF0000", "auto", "000000", "00ff00", "0000FF", "red"])),
            "st": codes(rnd.choice(styles)) if styles and rnd.random() < .4 else NONE}


class G:
    def __init__(self, rnd, **kw):
        self.rnd = rnd
        self.o = dict(tables=(1, 3), rows=(1, 4), cols=(1, 4), kids=(0, 3), p_list=.3, p_nest=.12, p_merge=.4, p_fmt=.3, p_fill=.25, depth=2, p_odd=.2, p_title=.6)
        self.o.update(kw)
        self.names = []

    def n(self, k):
        return self.rnd.randint(*self.o[k])

    def word(self):
        r = self.rnd
        return r.choice(WORDS) if r.random() < .4 else f"w{r.randint(0, 999)}"

    def run(self, text=None):
        r = self.rnd
        ks = [{"g": "t", "x": codes(text if text is not None else self.word()), "k": []} for _ in range(1 if text is not None else r.choice([0, 1, 1, 1, 1, 2, 3]))]
        if r.random() < self.o["p_odd"]:
            ks.insert(r.randint(0, len(ks)), {"g": "o", "k": []})
        if ks and r.random() < .05:
            ks[0] = dict(ks[0], x=[]) if ks[0]["g"] == "t" and text is None else ks[0]
        return {"g": "r", "k": ks, "f": [rpr(r, self.refs)] if r.random() < self.o["p_fmt"] else []}

    def para(self, listy=None, text=None):
        r = self.rnd
        ks = []
        if text is not None:
            cut = r.randint(0, len(text)) if r.random() < .5 else 0
            ks = [self.run(t) for t in (text[:cut], text[cut:]) if t]
        else:
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                x = r.random()
                ks.append(self.run() if x < .7 else {"g": r.choice(["link", "fld"]), "k": [self.run() for _ in range(r.randint(0, 2))]} if x < .85 else {"g": "o", "k": []})
        num = lvl = None
        if text is None and r.random() < (self.o["p_list"] if listy is None else listy):
            num = r.choice(self.numids)
            if r.random() < .85:
                lvl = r.choice([0, 0, 0, 1, 1, 2, 3])
        elif r.random() < .03:
            lvl = 1
        return {"g": "p", "k": ks, "num": [] if num is None else [num], "lvl": [] if lvl is None else [lvl]}

    def kids(self, depth):
        r = self.rnd
        res = []
        if r.random() < .25:
            res = [self.para(listy=.9) for _ in range(r.randint(2, 8))]
        for _ in range(self.n("kids")):
            x = r.random()
            if x < self.o["p_nest"] and depth > 0:
                res.append(self.table(depth - 1))
            elif x < .95:
                res.append(self.para())
            else:
                res.append({"g": "o", "k": []})
        return res

    def table(self, depth):
        r = self.rnd
        R, C = self.n("rows"), self.n("cols")
        free = {(y, x) for y in range(R) for x in range(C)}
        rows = [[] for _ in range(R)]
        for y in range(R):
            for x in range(C):
                if (y, x) not in free:
                    continue
                h = w = 1
                if r.random() < self.o["p_merge"]:
                    while x + w < C and (y, x + w) in free and r.random() < .4:
                        w += 1
                    while y + h < R and all((y + h, x + j) in free for j in range(w)) and r.random() < .4:
                        h += 1
                for dy in range(h):
                    for dx in range(w):
                        free.discard((y + dy, x + dx))
                    vm = "-" if h == 1 else "restart" if dy == 0 else r.choice(["", "continue"])
                    if h == 1 and r.random() < .03:
                        vm = "restart"
                    ks = self.kids(depth) if dy == 0 else ([self.para(listy=0, text="hidden")] if r.random() < .1 else [])
                    if y == 0 and x == 0 and dy == 0 and r.random() < self.o["p_title"]:
                        ks = ([{"g": "o", "k": []}] if r.random() < .1 else []) + ([self.para(listy=0, text="")] if r.random() < .15 else []) + [self.para(text=r.choice(TITLES))] + ks
                    rows[y + dy].append((x, {"g": "tc", "k": ks, "span": [w] if w > 1 or r.random() < .1 else [], "vm": vm,
                                             "fill": [codes(r.choice(self.fills))] if r.random() < self.o["p_fill"] else []}))
        trs = [{"g": "tr", "k": [c for _, c in sorted(cs, key=lambda t: t[0])]} for cs in rows]
        for tr in trs:
            if r.random() < .05:
                tr["k"].insert(r.randint(0, len(tr["k"])), {"g": "o", "k": []})
        if r.random() < .05:
            trs.insert(r.randint(0, len(trs)), {"g": "o", "k": []})
        return {"g": "tbl", "k": trs}

    def doc(self):
        r = self.rnd
        self.fills = FILLS[:r.randint(1, 20)]
        if r.random() < .5:         # colours alike but for a digit or two
            c = "".join(r.choice("0123456789ABCDEFabcdef") for _ in range(6))
            for _ in range(r.randint(2, 12)):
                k = r.randint(0, 5)
                c = c[:k] + r.choice("0123456789ABCDEF") + c[k + 1:]
                self.fills.append(c)
        ids = [f"S{k}" for k in range(r.randint(0, 6))]
        if r.random() < .1:
            ids += [f"T{k}" for k in range(70)]        # more than are kept in mind
        chain = r.random() < .15                        # one style based on the next one, many times over
        if chain:
            ids = [f"S{k}" for k in range(r.randint(6, 40))]
        sts = []
        for k, i in enumerate(ids):
            sts.append({"id": codes(i), "ty": "character" if r.random() < (.99 if chain else .85) else "paragraph",
                        "al": NONE if r.random() > .3 else codes(r.choice([f"alias {k}", f"A{k}, B{k}", f"A{k},B{k} "])),
                        "on": codes(r.choice(ids[k + 1:] if r.random() < .5 else ids[k + 1:k + 2])) if ids[k + 1:] and r.random() < (1 if chain else .7) else codes("Gone") if r.random() < .1 else NONE,
                        "r": [rpr(r, [], .15 if chain else .4)] if r.random() < .85 else []})
        r.shuffle(sts)
        self.refs = (ids[:2] if chain else ids) + [f"A{k}" for k in range(len(ids))][:6] + [f"alias {k}" for k in range(len(ids))][:6] + ["None such"]
        abss = [{"id": k, "lvls": [{"f": r.choice(["decimal", "lowerLetter", "lowerRoman", "bullet"]), "x": codes(r.choice(["%1.", "%2)", "\u2022", "o", "(%1)", ""]))}
                                   for _ in range(4)]} for k in r.sample(range(0, 12), r.choice([1, 2, 3, 3, 3, 6]))]
        nums = [{"id": k, "abs": r.choice(abss)["id"]} for k in r.sample(range(1, 9), r.choice([1, 2, 4, 4, 4, 6]))]
        self.numids = [n["id"] for n in nums] * 3 + [0, 99]
        hasnum = r.random() < .93
        body = []
        for _ in range(self.n("tables")):
            if r.random() < .5:
                body.append(self.para())
            t = self.table(self.o["depth"])
            body.append({"g": "o", "k": [t]} if r.random() < .1 else t)
        if r.random() < .5:
            body.append(self.para())
        return {"hdr": [codes(t) for t in r.choice(HEADERS)], "hasnum": hasnum, "nums": nums if hasnum else [], "abss": abss if hasnum else [], "sts": sts, "body": body}


def doc(rnd, **kw):
    return G(rnd, **kw).doc()


class FigG(G):
    """docx documents whose tables are figures"""
    def __init__(self, rnd, **kw):
        super().__init__(rnd, p_list=0, p_fmt=kw.pop("p_fmt", .3), p_odd=.1)
        from . import gen
        self.h = gen.G(rnd, p_span=0, p_short=0, **kw)
        self.fno = 0

    def texty(self, text):
        """paragraphs that have the text"""
        return [self.para(text=t) for t in text.split("\r") if t] or ([self.para(listy=0, text="")] if self.rnd.random() < .5 else [])

    def cell(self, text, nested=(), **kw):
        r = self.rnd
        ks = self.texty(text)
        if r.random() < .12:
            ks += self.texty(self.h.brief())
        if r.random() < .12:
            n = r.choice(self.numids)
            ks += [dict(self.para(text=self.h.words(r.randint(2, 12))), num=[n], lvl=[r.choice([0, 0, 1])]) for _ in range(r.randint(1, 3))]
        for t in nested:
            ks.insert(r.randint(0, len(ks)), t)
        if nested and r.random() < .7:
            ks.append(self.para(listy=0, text=""))
        return dict({"g": "tc", "k": ks, "span": [], "vm": "-", "fill": []}, **kw)

    def figure_rows(self, depth):
        r, h = self.rnd, self.h
        kind, cols = h.figure(depth)
        n = max(1, len(cols))
        grey = codes(r.choice(["D9D9D9", "BFBFBF", "d9d9d9"]))
        rows = [{"g": "tr", "k": [self.cell(c.replace("\n", " "), fill=[grey]) for c in h.heading(cols)]}]
        m = h.num("rows")
        rngs = h.ranges("bits" if kind == "odd" else kind, m)
        norm = [" ".join(c.lower().split()) for c in cols]
        rc = next((i for i, c in enumerate(norm) if c in ("bits", "bit", "bytes", "byte", "value", "values", "code")), 0)
        tall = {}        # column -> rows that its cell still covers
        for i in range(m):
            x = r.random()
            if x < .1 and not tall:
                rows.append({"g": "tr", "k": [self.cell(r.choice(["Reserved", "Notes: 1. x", "Remark", "\u2026", "General List"]), span=[n], fill=r.choice([[], [], [grey]]))]})
                continue
            cells, c = [], 0
            while c < n:
                if c in tall:
                    cells.append(self.cell("", vm=r.choice(["", "continue"])))
                    tall[c] -= 1
                    if not tall[c]:
                        del tall[c]
                    c += 1
                    continue
                w = 1
                while c + w < n and c + w not in tall and r.random() < .08:
                    w += 1
                if c == rc:
                    cell = self.cell(rngs[i])
                else:
                    nested = []
                    if depth > 0 and h.chance("p_nest"):
                        nested = [{"g": "tbl", "k": self.figure_rows(depth - 1)} for _ in range(r.choice([1, 1, 2]))]
                    cell = self.cell(h.content() if norm[c] != "attribute" else h.name(), nested)
                if w > 1:
                    cell["span"] = [w]
                elif r.random() < .15 and i + 1 < m:
                    k = r.randint(1, min(3, m - i - 1))
                    cell["vm"] = "restart"
                    tall[c] = k
                cells.append(cell)
                c += w
            rows.append({"g": "tr", "k": cells})
        # cells that were to cover more rows than there are
        return rows

    def table(self, depth):
        r, h = self.rnd, self.h
        h.nfig += 1
        title = h.title(r.choice([h.nfig, h.nfig, h.nfig, f"{h.nfig}-a", 1])) if not h.chance("p_untitled") else r.choice(["Some text", "figure 3", "", "Fig 4"])
        rows = self.figure_rows(self.h.p["depth"])
        return {"g": "tbl", "k": [{"g": "tr", "k": [self.cell(title.replace("\n", " "), span=[r.randint(1, 2)])]}] + rows}

    def doc(self):
        d = super().doc()
        d["hdr"] = [codes(self.rnd.choice(["Some Spec, Revision 1.0", "NVM Express\u00ae Base Specification, Revision 2.0c", "A & B, revision 1.0"]))]
        return d


def figures(rnd, **kw):
    return FigG(rnd, **kw).doc()
