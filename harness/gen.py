"""Random HTML models for conformance runs.  A profile is a set of weights;
each property's check uses profiles that stress what it is about."""
import random
from .stage2 import Case

ESC = lambda s: s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")
ATT = lambda s: ESC(s).replace('"', "&quot;")

SOUP = " ab1_-/.(:)&,;'\nZ0…é–®\u00a0٣中’+*\t7x"
ODD = "ßİıǅﬁµK²½Ⅷ\u3000e\u0301ẞ𝐀😀ŉſÅ\u2028\u200b\ufeff\u0085ª𝟘५ΐ"
NAMES = ["Foo Bar (FB)", "Foo Bar", "Namespace Size (NSZE)", "Controller ID (CNTLID)", "Status", "Power State (PS)", "Foo-Bar Baz",
         "Read/Write (RW)", "R&D Field", "Foo  Bar", "Foo_Bar", "A__B", "a - b", "1 Foo", "12 dwords", "2-wire mode", "3", "Max. Size (MX.S)",
         "foo, bar", "x", "Größe".replace("ß", "ss"), "Édition (ÉD)", "中文 字 (ZW)", "Foo’s Bar", "FOO (bar baz)", "Foo (A-B)", "Foo ()", "(ACR)", "( A )",
         "foo\nbar", "\nfoo", "Foo (FB", "Foo FB)", "_x", "x_", "__", "9", "a.b", "-x-", "é", "Foo\u00a0Bar", "FooBar (FB) tail", "Vendor Specific", "LPA/RPA", "<red>Foo</red> (<b>)", "{0} %d", "Foo \\g<1> ({x})", "Host Id (HID) ", "٣ Foo"]
SPECIALS = ["Reserved", "RESERVED", "reserved", "Obsolete", "OBSOLETE", "…", "Note: x", "NOTE 1: y", "note", "Notes: z", "Reserved ", " Reserved.", "… ", "Reserved: x", "Obsolete bits", "ReSeRvEd"]
VOCAB = ["note", "notes", "notes:", "note:", "list", "reserved", "obsolete", "figure", "Figure 3", "value", "values", "code", "bits", "bytes", "bit", "byte", "definition", "description",
         "attribute", "…", "...", "0", "7:4", "1h", "10b", "(FB)", "FB", "foo", "the", "this", "of", "a", "see", "please", "NVMe®", "é", "_", "/", "&", "other", "others", "to", "all", "vendor specific", "<b>", "</red>", "{}", "%s", "\\1"]
RANGES = ["0", "7", "31:00", "3:2", "15:8", "2:3", " 4 : 3 ", "07:04", "0007", "n+1:n", "n", "(x*4)+3:x*4", "…", "Reserved", "note", "63:32 bytes", "5-4", "", "a", "12:", ":4", "1 0:2", "99999999999999999999:88888888888888888888",
          "8:\n4", "3\n:2", "٣:٢", "x+1 : x", "1:0:2", "100h", "0:0", "00", "2:2", "Obsolete", "NOTE", "31: 16", "– ", "7 – 4", "\u00a05:4"]
VALUES = ["0h", "1h", "00b", "01b", "10b", "11b", "0", "1", "2", "FFh", "C0h to FFh", "0Ah", "…", "1h", "a", "01H", "", "Reserved", "10h – 1Fh", "é", "0 h", "80h\n", "others"]
HBITS = [["Bits", "Description"], ["Bits", "Attribute", "Description"], ["Description", "Bits"], ["Bits", "Type", "Reset", "Description"], ["bit", "Description"], ["BITS", "ATTRIBUTE", "DESCRIPTION"]]
HBYTES = [["Bytes", "Description"], ["Bytes", "Attribute", "Description"], ["Description", "Bytes"], ["Bytes", "I/O", "Admin", "Description"], ["Byte", "Description"]]
HVALS = [["Value", "Definition"], ["Value", "Description"], ["Code", "Description"], ["Value", "Attribute", "Description"], ["Values", "Definition"], ["Value", "Foo"], ["Foo", "Value"], ["Definition", "Value"], ["Value", "Power Scope"], ["Value", "Description", "Definition"], ["Value", "M", "Definition"]]
HODD = [["Foo", "Bar"], ["Bits"], ["Description"], ["Value"], ["Bits", "Value"], ["Bytes", "Bits", "Description"], ["Bits", "Bytes", "Description"], ["Value", "Bits", "Description"], ["Value", "Bytes", "Attribute"], [""], [], ["", "Value"], ["Value", ""],
        ["Value", "Value"], ["Code", "Value"], ["Bits", "Bits", "Description"], ["Bits", "Description", "Description"], ["Bits", "Attribute"], ["Codes", "Definition"], ["Value", "Values"], ["Values", "Foo"], ["Bits ", "Description (note)"], ["Attribute", "Description", "Bytes"], ["Definition", "Bits"], ["Value", "Definition", "Definition"]]


def spaced(r, s):
    """white space and case that headings may have"""
    s = "".join(c + (" " * r.choice([0, 0, 0, 2]) if c == " " else "") for c in s)
    k = r.randrange(6)
    if k == 0:
        s = s.upper()
    elif k == 1:
        s = s.lower()
    elif k == 2:
        s = s.title()
    if r.random() < .3:
        s = r.choice([" ", "\n", "\r\n", "\t", "  "]) + s
    if r.random() < .3:
        s = s + r.choice([" ", "\n", " \r", "  "])
    if r.random() < .15 and " " in s:
        s = s.replace(" ", r.choice(["\n", " \n ", "\r ", "\n\n"]), 1)
    return s


BASE = dict(tables=(1, 4), rows=(0, 7), kinds=(4, 4, 4, 1), p_special=.2, p_soup=.08, p_nest=.12, depth=2, p_span=.0, p_note=.04, p_remark=.04, p_ellipsis=.06,
            p_noid=.05, p_untitled=.05, p_wrap=.05, p_empty=.03, p_hdr=.05, p_list=.15, p_nop=.06, p_short=.03, p_oddhdr=.06, p_case=.2, p_brief=.4, p_dupe=.25, p_seq=.6,
            titles=("Some Spec",), revs=("1.0",), ids=None, ascii=False, p_longbrief=.3, p_bad_layout=.3, p_key=.05, seps=(": ", ":", " ", ":\n", " – ", "^x: "))


class G:
    def __init__(self, r, **kw):
        self.r = r
        self.p = dict(BASE, **kw)
        self.nfig = 0

    def chance(self, k):
        return self.r.random() < self.p[k]

    def num(self, k):
        a, b = self.p[k]
        return self.r.randint(a, b)

    # ---- texts
    def soup(self, n=8):
        r = self.r
        odd = r.random() < .25
        return "".join(r.choice(ODD) if odd and r.random() < .4 else r.choice(SOUP) for _ in range(r.randint(0, n)))

    def odd(self, s):
        """s with a few unusual characters put in or over others"""
        r = self.r
        for _ in range(r.randint(1, 3)):
            i = r.randint(0, len(s))
            s = s[:i] + r.choice(ODD) + s[i + r.randint(0, 1):]
        return s

    def keyword(self, n=3):
        """words the code may look for, in any case, place and with any blanks"""
        r = self.r
        out = ""
        for _ in range(r.randint(1, n)):
            w = r.choice(VOCAB)
            k = r.randrange(5)
            w = w.upper() if k == 0 else w.lower() if k == 1 else w.title() if k == 2 else w
            out += w + r.choice(["", " ", " ", " ", ": ", ":", ".", ", ", "  ", "\n", "\t", "-", "\u00a0", " (", ") ", "\n\n"])
        if r.random() < .1:
            out = self.odd(out)
        return r.choice(["", "", "", " ", "\n"]) + out + r.choice(["", "", " ", "\n", "x"])

    def words(self, n):
        r = self.r
        s = ""
        while len(s) < n:
            s += r.choice(["the", "size", "of", "this", "controller", "is", "a", "value", "x", "it’s", "0's", "NVMe®", "e.g", "set:"]) + " "
        return s[:n].rstrip() .ljust(n, "z")

    def brief(self):
        r = self.r
        if self.chance("p_key"):
            return self.keyword(r.choice([3, 8, 20]))
        k = r.randrange(12)
        if k == 0:
            return self.words(r.choice([57, 58, 59, 60, 61, 62, 63]))
        if k == 1:
            return self.words(r.choice([59, 60, 61])) + "." * r.choice([1, 2, 3])
        if k == 2:
            return self.words(r.choice([20, 59, 60, 61])) + ". " + self.words(r.choice([10, 50, 70]))
        if k == 3:
            return self.words(r.randint(100, 200))
        if k == 4:
            return "  " + self.words(r.choice([10, 60])) + ". "
        if k == 5:
            return ". " + self.words(70)
        if k == 6:
            return ""
        if k == 7:
            return "..."
        if k == 8:
            return self.words(r.choice([30, 70])) + "\n" + self.words(20) + "."
        if k == 9:
            return self.words(r.choice([56, 57, 58, 59])) + " " + r.choice(["é.", "…", "®", "."])
        if k == 10:
            return self.soup(70)
        return self.words(r.randint(1, 40)) + r.choice([".", "", ". Then more: x. "])

    def name(self):
        if self.chance("p_special"):
            return self.r.choice(SPECIALS)
        if self.chance("p_key"):
            return self.keyword()
        if self.chance("p_soup"):
            return self.soup()
        return self.r.choice(NAMES)

    def content(self):
        n = self.name()
        if self.chance("p_brief"):
            sep = self.r.choice([": ", ":", " : ", ":\n"])
            n += sep + self.brief()
        return self.odd(n) if self.r.random() < .06 else n

    def cell_inner(self, text, nested=""):
        """markup of a content cell with text in its first paragraph"""
        r = self.r
        if self.chance("p_nop"):
            return ESC(text) + nested
        if r.random() < .25 and len(text) > 2:
            k = r.randrange(1, len(text))
            inner = f"<p><span class=\"a\">{ESC(text[:k])}</span>{ESC(text[k:])}</p>" if r.random() < .5 else f"<p>{ESC(text[:k])}<span>{ESC(text[k:])}</span></p>"
        else:
            inner = f"<p>{ESC(text)}</p>"
        if r.random() < .12:
            inner += f"<p>{ESC(self.brief())}</p>"
        if r.random() < self.p["p_list"] * .5:
            inner += "<ul>" + "".join(f"<li><p>{ESC(self.words(r.randint(2, 12)))}</p></li>" for _ in range(r.randint(1, 3))) + "</ul>"
        if nested:
            k = r.randrange(4)
            if k == 0:
                inner = inner + nested + "<p>after</p>"
            elif k == 1:
                inner = nested + inner
            else:
                inner = inner + nested
        ws = r.choice(["", "", "\n  ", " "])
        return ws + inner + ws

    # ---- figures
    def heading(self, cols):
        if self.chance("p_case"):
            cols = [spaced(self.r, c) for c in cols]
        return cols

    def figure(self, depth):
        """(heading row markup, kind, columns)"""
        r = self.r
        k = r.choices(["bits", "bytes", "values", "odd"], self.p["kinds"])[0]
        hs = {"bits": HBITS, "bytes": HBYTES, "values": HVALS, "odd": HODD}[k]
        cols = list(r.choice(hs))
        if k != "odd" and self.chance("p_oddhdr"):
            r.shuffle(cols)
        return k, cols

    def hdr_row(self, cols):
        r = self.r
        tags = "th" if r.random() < .9 else "td"
        shown = self.heading(cols)
        return "<tr>" + "".join(f"<{tags}><p>{ESC(c)}</p></{tags}>" if r.random() < .8 else f"<{tags}>{ESC(c)}</{tags}>" for c in shown) + "</tr>"

    def expr(self):
        """an arbitrary range, numeric or not"""
        r = self.r
        if r.random() < .2:
            return self.keyword(2)
        bl = lambda: r.choice(["", "", "", " ", "\n", "  ", "\n\n", " \n", "\t"])
        side = lambda: bl().join(r.choice([str(r.randint(0, 40)), "x", "n", "(n*8)", "+", "-", "*", "m+1", "offset of x", "y\nz", "h"]) for _ in range(r.randint(1, 4)))
        return bl() + side() + (bl() + r.choice([":", ":", ":", "–", ""]) + bl() + side() if r.random() < .8 else "") + bl()

    def ranges(self, kind, n):
        """texts of the range cells of n rows"""
        r = self.r
        if kind == "values":
            vs = []
            for i in range(n):
                if self.chance("p_key") and r.random() < .5:
                    vs.append(self.keyword(2))
                elif vs and self.chance("p_dupe") and r.random() < .4:
                    vs.append(r.choice(vs))
                elif r.random() < .6:
                    vs.append(f"{i:x}h".upper() if r.random() < .5 else f"{i:02b}b")
                else:
                    vs.append(r.choice(VALUES))
                if r.random() < .06:
                    vs[-1] = self.odd(vs[-1])
            return vs
        res = []
        cur = 0 if r.random() < .8 else r.randint(1, 300)
        for i in range(n):
            if not self.chance("p_seq") and r.random() < .5:
                res.append(r.choice(RANGES) if r.random() < .6 else self.expr())
                if r.random() < .1:
                    res[-1] = self.odd(res[-1])
                continue
            w = r.choice([1, 1, 2, 4, 8, 16])
            lo, hi = cur, cur + w - 1
            cur = hi + 1
            if self.chance("p_bad_layout") and r.random() < .4:
                k = r.randrange(4)
                if k == 0:
                    cur += r.randint(1, 3)
                elif k == 1:
                    cur = max(0, cur - r.randint(1, 4))
                elif k == 2 and hi > lo:
                    lo, hi = hi, lo
                else:
                    cur = r.choice([0, lo, cur])
            f = r.choice(["{}", "{:02}", "{}"])
            if lo == hi and r.random() < .8:
                res.append(f.format(lo))
            else:
                res.append(f.format(hi) + r.choice([":", ":", " : ", ":\n"]) + f.format(lo))
        return res[::-1] if kind == "bits" and r.random() < .85 else res

    def table_rows(self, kind, cols, depth):
        """data rows"""
        r = self.r
        n = self.num("rows")
        norm = [" ".join(c.lower().split()) for c in cols]
        base = {"bits": ("bits", "bit"), "bytes": ("bytes", "byte"), "values": ("value", "values", "code"), "odd": ()}[kind]
        rc = next((i for i, c in enumerate(norm) if c in base), 0)
        names = [i for i, c in enumerate(norm) if c == "attribute"]
        ncol = max(1, len(cols))
        rngs = self.ranges("bits" if kind == "odd" else kind, n)
        out = []
        pend = []            # pending spans: [col, cs, rows left]
        used = []
        for i in range(n):
            pend = [[c, w, k - 1] for c, w, k in pend if k > 1]
            if not pend:
                x = r.random()
                q = self.p
                if x < q["p_note"]:
                    out.append(f'<tr><td colspan="{ncol}"><p>{ESC(r.choice(["Notes:", "NOTES: 1. x", "Note: foo", "notes: y", "Notes", "\nNotes:", " note", "NoTes:\n1. x", "Footnotes: x", "Not es:"]))}</p></td></tr>')
                    if r.random() < .5:
                        continue
                    else:
                        continue
                x -= q["p_note"]
                if x < q["p_remark"]:
                    out.append(f'<tr><td colspan="{ncol}"><p>{ESC(r.choice(["Remark over all columns", "Reserved", "General", "foo (refer to Figure 39).", "Refer to the note", self.keyword(4), self.keyword(2), self.name()]))}</p></td></tr>')
                    continue
                x -= q["p_remark"]
                if x < q["p_ellipsis"]:
                    out.append(f'<tr><td colspan="{ncol}"><p>{r.choice(["…", "… ", "…and so on"])}</p></td></tr>' if r.random() < .6
                               else "<tr>" + "<td><p>…</p></td>" * ncol + "</tr>")
                    continue
                x -= q["p_ellipsis"]
                if x < q["p_hdr"]:
                    out.append(r.choice(["<tr>" + "".join(f"<th>{ESC(c)}</th>" for c in cols) + "</tr>",
                                         f'<tr><th colspan="{ncol}"><p>{ESC(r.choice(["General", "Foo List", "Descriptor List 1", "list", "Lists", "Li st", "Listing", self.keyword(3)]))}</p></th></tr>',
                                         f'<tr><th colspan="{ncol}"><p><span>Li</span><span>st</span></p></th></tr>',
                                         f'<tr><th colspan="{ncol}"><span>Li</span><span>st</span></th></tr>',
                                         f'<tr><td colspan="2"><p>A List</p></td><th>x</th></tr>']))
                    continue
                x -= q["p_hdr"]
                if x < q["p_short"]:
                    k = r.randint(0, max(0, ncol - 1))
                    out.append("<tr>" + "".join(f"<td><p>{ESC(r.choice(RANGES))}</p></td>" for _ in range(k)) + "</tr>")
                    continue
            # an ordinary row
            cells, c = "", 0
            while c < ncol:
                hit = [p for p in pend if p[0] == c]
                if hit:
                    c += hit[0][1]
                    continue
                limit = min([p[0] for p in pend if p[0] > c] + [ncol])
                w = 1
                rs = 1
                if self.p["p_span"] and r.random() < self.p["p_span"]:
                    if r.random() < .35:
                        w = r.randint(1, limit - c)
                    if r.random() < .6:
                        rs = r.randint(1, min(4, n - i))
                        # a header or note row may follow instead; spans then simply end in it
                at = (f' colspan="{w}"' if w > 1 or r.random() < .02 else "") + (f' rowspan="{rs}"' if rs > 1 else "")
                nested = ""
                if c == rc:
                    body = f"<p>{ESC(rngs[i])}</p>" if r.random() < .8 else ESC(rngs[i])
                elif c in names:
                    nm = self.name()
                    if r.random() < .5:
                        nm = r.choice(["FB", "NSZE", "R W", "Foo", "x1", "1x", "Foo Bar", "", "SQE/CQE", "É", "Reserved", "reserved"]) + r.choice([": ", ":", " : "]) + nm
                    if used and self.chance("p_dupe") and r.random() < .5:
                        nm = r.choice(used)
                    used.append(nm)
                    body = self.cell_inner(nm)
                else:
                    tx = self.content()
                    if used and self.chance("p_dupe") and r.random() < .5:
                        tx = r.choice(used)
                    used.append(tx)
                    if depth > 0 and self.chance("p_nest"):
                        nested = "".join(self.nested(depth - 1) for _ in range(r.choice([1, 1, 1, 2, 3])))
                    body = self.cell_inner(tx, nested)
                cells += f"<td{at}>{body}</td>"
                if rs > 1:
                    pend.append([c, w, rs])
                c += w
            out.append(f"<tr>{cells}</tr>")
        return out

    def nested(self, depth):
        kind, cols = self.figure(depth)
        return "<table>" + self.hdr_row(cols) + "".join(self.table_rows(kind, cols, depth)) + "</table>"

    def title(self, fid):
        r = self.r
        if self.chance("p_noid"):
            return r.choice(["Table Figure 5: x", "Figure", "Figure : x", "See Figure 3", "Figure: 3 y", "Figures 3",
                             "Figure <red>", "See Figure <b>3</b>", "Figure {0}: %s"])
        sep = r.choice(self.p["seps"])
        return r.choice(["Figure ", "Figure ", "Figure ", "Figure  ", "Figure\n", "Figure\u00a0"]) + str(fid) + sep + r.choice(
            ["Identify – Data", "Command Dword 11", "Foo’s", "X <&> \"Y\"", "é", "Status (see Figure 7)", "", "a: b",
             "The <red> Zone", "{record[x]} {}", "a </b> %s \\1"])

    def split_title(self, t):
        """the title row's text over several paragraphs and cells"""
        r = self.r
        k = sorted(r.randint(0, len(t)) for _ in range(r.randint(1, 3)))
        parts = [t[a:b] for a, b in zip([0] + k, k + [len(t)])]
        out = ""
        for x in parts:
            out += r.choice(["{}", "<p>{}</p>", "<span>{}</span>", "</td><td>{}", "</td><td><p>{}</p>", "</td>\n<td><p>{}</p>", "<p>\n{}</p>"]).format(ESC(x))
        return f"<tr><td>{out}</td></tr>"

    def table(self):
        r = self.r
        self.nfig += 1
        if self.p["ids"]:
            fid = r.choice(self.p["ids"])
        else:
            fid = r.choice([self.nfig, self.nfig, self.nfig, f"{self.nfig}-a", f"A.{self.nfig}", f"{self.nfig}x", f"{max(1, self.nfig - 1)}X", f"a.{self.nfig}", 1])
        if self.chance("p_untitled"):
            trow = r.choice(["<tr><td><p>Some text</p></td></tr>", "<tr><th>figure 3</th></tr>", "<tr></tr>", "<tr><td>Fig 4</td></tr>"])
        else:
            t = self.title(fid)
            if r.random() < .06:
                t = self.odd(t)
            trow = r.choice([f'<tr><td colspan="2"><p>{ESC(t)}</p></td></tr>', f"<tr><td>{ESC(t)}</td></tr>", f"<tr><th><p>{ESC(t)}</p></th></tr>",
                             f'<tr><td><p>{ESC(t[:4])}<span>{ESC(t[4:])}</span></p></td></tr>',
                             self.split_title(t)])
        if self.chance("p_empty"):
            return r.choice(["<table></table>", "<table>" + trow + "</table>", "<table><caption>x</caption></table>"])
        kind, cols = self.figure(self.p["depth"])
        inner = trow + self.hdr_row(cols) + "".join(self.table_rows(kind, cols, self.p["depth"]))
        at = f' id="fig{fid}"' if r.random() < .3 else ""
        tbl = f"<table{at}>{inner}</table>"
        if self.chance("p_wrap"):
            extra = r.choice(["", "<td>x</td>", "<p>more</p>"])
            if extra.startswith("<p>"):
                tbl = f"<table><tr><td>{tbl}{extra}</td></tr></table>"
            else:
                tbl = f"<table><tr><td>{tbl}</td>{extra}</tr><tr><td><p>Figure 99: shadow</p></td></tr></table>"
        return tbl

    def doc(self):
        r = self.r
        body = ""
        for _ in range(self.num("tables")):
            if r.random() < .1:
                body += r.choice(["<p>Figure 9: loose text</p>", "<h1>x</h1>", "\n", "<div><table><tr><td>Figure 8: inner</td></tr></table></div>"])
            body += self.table()
        title, rev = r.choice(self.p["titles"]), r.choice(self.p["revs"])
        return ('<!DOCTYPE html>\n<html lang="en"><head><meta charset="utf-8"/>'
                f'<meta data-spec="{ATT(title)}"/><meta data-revision="{ATT(rev)}"/><title>x</title></head><body>{body}</body></html>\n')


def case(r, focus=(), skip=None, ignore=(), **kw):
    g = G(r, **kw)
    return Case(html=g.doc(), skip=(r.random() < .85 if skip is None else skip), focus=focus, ignore=ignore)


def cases(seed, n, **kw):
    return [case(random.Random(f"{seed}/{i}"), **kw) for i in range(n)]
