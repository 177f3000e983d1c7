"""Conformance of the docx -> HTML model conversion: build docx files, run the
real code on them, read HTML and CSS back as events, and let TLC judge them by
Stage1Trace."""
import json, os, re, shutil, urllib.parse, zipfile
from pathlib import Path
from lxml import etree
from . import real, tlc

W = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
NSDECL = f'xmlns:w="{W}"'
NONE = real.NONE


# ---------------------------------------------------------------- docx files
def txt(s):
    return "".join(map(chr, s))


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")


def att(s):
    return esc(s).replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")


def rpr_xml(r):
    def onoff(tag, v):
        return "" if v == "-" else f"<w:{tag}/>" if v == "" else f'<w:{tag} w:val="{att(v)}"/>'
    a = ""
    if r["st"] != NONE:
        a += f'<w:rStyle w:val="{att(txt(r["st"]))}"/>'
    a += onoff("b", r["b"]) + onoff("i", r["i"]) + onoff("strike", r["s"])
    if r["col"] != NONE:
        a += f'<w:color w:val="{att(txt(r["col"]))}"/>'
    a += '<w:sz w:val="18"/>' if len(a) % 3 == 0 else ""
    if r["u"] != "-":
        a += f'<w:u w:val="{att(r["u"])}"/>'
    if r["va"] != "-":
        a += f'<w:vertAlign w:val="{r["va"]}"/>'
    return f"<w:rPr>{a}</w:rPr>"


OTHER = ('<w:bookmarkStart w:id="0" w:name="x"/>', '<w:proofErr w:type="spellStart"/>', '<w:bookmarkEnd w:id="0"/>')


def node_xml(n, place="", k=0):
    g = n["g"]
    def kids(where):
        return "".join(node_xml(c, where, j) for j, c in enumerate(n["k"]))
    if g == "t":
        return f'<w:t xml:space="preserve">{esc(txt(n["x"]))}</w:t>'
    if g == "r":
        return "<w:r>" + (rpr_xml(n["f"][0]) if n["f"] else "") + kids("r") + "</w:r>"
    if g == "link":
        return f'<w:hyperlink w:anchor="a">{kids("p")}</w:hyperlink>'
    if g == "fld":
        return f'<w:fldSimple w:instr=" REF x ">{kids("p")}</w:fldSimple>'
    if g == "p":
        a = ""
        if n["num"] or n["lvl"]:
            a = "<w:numPr>" + (f'<w:ilvl w:val="{n["lvl"][0]}"/>' if n["lvl"] else "") + (f'<w:numId w:val="{n["num"][0]}"/>' if n["num"] else "") + "</w:numPr>"
        if a or k % 2:
            a = f'<w:pPr><w:pStyle w:val="Normal"/>{a}<w:jc w:val="left"/></w:pPr>'
        return f"<w:p>{a}{kids('p')}</w:p>"
    if g == "tc":
        a = '<w:tcW w:w="100" w:type="dxa"/>'
        if n["span"]:
            a += f'<w:gridSpan w:val="{n["span"][0]}"/>'
        if n["vm"] != "-":
            a += "<w:vMerge/>" if n["vm"] == "" else f'<w:vMerge w:val="{n["vm"]}"/>'
        if n["fill"]:
            a += f'<w:shd w:val="clear" w:color="auto" w:fill="{att(txt(n["fill"][0]))}"/>'
        return f"<w:tc><w:tcPr>{a}</w:tcPr>{kids('tc')}</w:tc>"
    if g == "tr":
        return f'<w:tr><w:trPr><w:trHeight w:val="20"/></w:trPr>{kids("tr")}</w:tr>'
    if g == "tbl":
        return f'<w:tbl><w:tblPr><w:tblW w:w="0" w:type="auto"/></w:tblPr><w:tblGrid/>{kids("tbl")}</w:tbl>'
    if g == "o":
        if n["k"]:
            return f"<w:sdt><w:sdtContent>{kids(place)}</w:sdtContent></w:sdt>"
        return ("<w:tab/>", "<w:br/>", "<w:lastRenderedPageBreak/>")[k % 3] if place == "r" else OTHER[k % 3]
    raise real.Machinery(f"unknown node {g}")


def docx_parts(doc):
    head = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'
    parts = {"word/document.xml": head + f"<w:document {NSDECL}><w:body>{''.join(node_xml(n, 'body', j) for j, n in enumerate(doc['body']))}<w:sectPr/></w:body></w:document>"}
    ts = "".join(f'<w:r><w:t xml:space="preserve">{esc(txt(t))}</w:t></w:r>' for t in doc["hdr"])
    parts["word/header1.xml"] = head + f'<w:hdr {NSDECL}><w:p><w:pPr><w:pStyle w:val="Header"/></w:pPr>{ts}</w:p></w:hdr>'
    st = ""
    for s in doc["sts"]:
        st += f'<w:style w:type="{s["ty"]}" w:styleId="{att(txt(s["id"]))}"><w:name w:val="x"/>'
        if s["al"] != NONE:
            st += f'<w:aliases w:val="{att(txt(s["al"]))}"/>'
        if s["on"] != NONE:
            st += f'<w:basedOn w:val="{att(txt(s["on"]))}"/>'
        st += (rpr_xml(s["r"][0]) if s["r"] else "") + "</w:style>"
    parts["word/styles.xml"] = head + f"<w:styles {NSDECL}>{st}</w:styles>"
    if doc["hasnum"]:
        nb = ""
        for a in doc["abss"]:
            lv = "".join(f'<w:lvl w:ilvl="{j}"><w:start w:val="1"/><w:numFmt w:val="{l["f"]}"/><w:lvlText w:val="{att(txt(l["x"]))}"/></w:lvl>' for j, l in enumerate(a["lvls"]))
            nb += f'<w:abstractNum w:abstractNumId="{a["id"]}">{lv}</w:abstractNum>'
        nb += "".join(f'<w:num w:numId="{n["id"]}"><w:abstractNumId w:val="{n["abs"]}"/></w:num>' for n in doc["nums"])
        parts["word/numbering.xml"] = head + f"<w:numbering {NSDECL}>{nb}</w:numbering>"
    return parts


def write_docx(path, doc):
    with zipfile.ZipFile(path, "w", zipfile.ZIP_STORED) as z:
        for name, data in docx_parts(doc).items():
            z.writestr(name, data.encode("utf-8"))


# ---------------------------------------------------------------- HTML models
def read_css(text):
    """class name -> declarations of the rules for that class alone"""
    res = {}
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    for sel, body in re.findall(r"([^{}]*)\{([^{}]*)\}", text):
        for s in sel.split(","):
            m = re.fullmatch(r"\s*(?:span)?\.([\w-]+)\s*", s)
            if m:
                d = res.setdefault(m.group(1), {})
                for decl in body.split(";"):
                    k, colon, v = decl.partition(":")
                    if colon:
                        d[k.strip().lower()] = v.strip()
    return res


SIMPLE = re.compile(r"([a-z][\w-]*|\*)?((?:[.#][\w-]+|:[\w-]+(?:\([^)]*\))?)*)", re.I)


class Rules:
    """the rules of a style sheet on some properties, by the cascade"""
    def __init__(self, text, *props):
        self.rules, self.memo = [], {}
        for n, (sel, body) in enumerate(re.findall(r"([^{}]*)\{([^{}]*)\}", re.sub(r"/\*.*?\*/", "", text, flags=re.S))):
            decl = [tuple(x.strip() for x in d.split(":", 1)) for d in body.split(";") if ":" in d]
            vals = {k.lower(): v for k, v in decl if k.lower() in props}
            if not vals:
                continue
            for s in sel.split(","):
                path, direct = [], False
                for w in s.replace(">", " > ").split():
                    if w == ">":
                        direct = True
                        continue
                    m = SIMPLE.fullmatch(w)
                    if not m or ":" in w or "#" in w:
                        path = None
                        break
                    path.append(((m.group(1) or "*").lower(), frozenset(m.group(2).split(".")[1:]), direct))
                    direct = False
                if path:
                    weight = (sum(len(c) for _, c, _ in path), sum(t != "*" for t, _, _ in path), n)
                    self.rules.append((weight, path, vals))
        self.rules.sort(key=lambda r: r[0], reverse=True)

    @staticmethod
    def fits(path, chain):
        """chain: <<tag, classes>> of an element and what it is in, innermost first"""
        def one(p, e):
            return p[0] in ("*", e[0]) and p[1] <= e[1]
        def rest(i, j):     # path[..i] is to match at or around chain[j]
            if i < 0:
                return True
            for k in range(j, len(chain)):
                if one(path[i], chain[k]) and rest(i - 1, k + 1):
                    return True
                if path[i + 1][2]:
                    return False
            return False
        return bool(chain) and one(path[-1], chain[0]) and rest(len(path) - 2, 1)

    def value(self, e, *props):
        """the value of the first property of props that a rule gives e"""
        chain = []
        x = e
        while x is not None and isinstance(x.tag, str):
            chain.append((x.tag, frozenset((x.get("class") or "").split())))
            x = x.getparent()
        key = (tuple(chain), props)
        if key not in self.memo:
            self.memo[key] = next((vals[p] for _, path, vals in self.rules if self.fits(path, chain) for p in props if p in vals), None)
        return self.memo[key]


PLAIN = {"b": "none", "i": "none", "u": False, "s": False, "va": "none", "col": NONE}


def look(attrs, mal):
    f = dict(PLAIN)
    for k, v in attrs.items():
        if k == "font-weight" and v in ("bold", "normal"):
            f["b"] = "on" if v == "bold" else "off"
        elif k == "font-style" and v in ("italic", "normal"):
            f["i"] = "on" if v == "italic" else "off"
        elif k == "text-decoration-line":
            for w in v.split():
                if w == "underline":
                    f["u"] = True
                elif w == "line-through":
                    f["s"] = True
                elif w != "none":
                    mal.append(f"decoration {v!r}")
        elif k == "vertical-align" and v in ("baseline", "sub", "super"):
            f["va"] = {"baseline": "baseline", "sub": "subscript", "super": "superscript"}[v]
        elif k == "color" and v.startswith("#"):
            f["col"] = real.codes(v[1:])
        else:
            mal.append(f"declaration {k}: {v}")
    return f


def ev(e, **kw):
    d = {"e": e, "t": "", "c": 0, "r": 0, "x": NONE, "f": PLAIN, "k": NONE}
    d.update(kw)
    return d


def refers(href):
    """the file in the directory of a page that a reference of the page is to, or none, as the browsers read it"""
    href = re.sub(r"[\t\n\r]", "", href.strip("".join(map(chr, range(33)))))
    if re.match(r"[A-Za-z][A-Za-z0-9+.-]*:", href):
        return b""
    path = re.split(r"[?#]", href, maxsplit=1)[0].replace("\\", "/")
    path = path.removeprefix("./")
    return b"" if "/" in path else urllib.parse.unquote_to_bytes(path)


def codes_of(b):
    return list(b)


def sheet(stem):
    """name of the style sheet written for an input"""
    return codes_of(os.fsencode(stem + ".css"))


def read_model(html, css):
    """HTML model and CSS texts -> record of a conversion"""
    rec = {"ev": [], "title": NONE, "rev": NONE, "links": [], "wf": True, "mal": 0, "why": []}
    mal = rec["why"]
    try:
        root = etree.fromstring(html, etree.XMLParser(remove_comments=True, remove_pis=True, huge_tree=True, resolve_entities=False))
        metas = [m for m in root.findall("./head/meta") if m.get("data-spec") is not None]
        rec["title"] = real.codes(metas[0].get("data-spec"))
        revs = [m.get("data-revision") for m in root.findall("./head/meta") if m.get("data-revision") is not None]
        rec["rev"] = real.codes(revs[0]) if revs else NONE
        rec["links"] = [codes_of(refers(m.get("href", ""))) for m in root.iter("link") if "stylesheet" in m.get("rel", "").lower().split()]
        body = root.find("./body")
        assert body is not None
    except (etree.XMLSyntaxError, IndexError, AssertionError, ValueError) as x:
        rec.update(wf=False, mal=1)
        mal.append(f"not well-formed: {x}")
        return rec
    rules = read_css(css) if css is not None else {}
    cascade = Rules(css or "", "background-color", "background", "list-style-type", "list-style")

    def shown(e, *props):
        v = cascade.value(e, *props)
        return NONE if v is None else real.codes(v.lower().lstrip("#"))
    if css is None:
        mal.append("no style sheet")
    out = rec["ev"]

    def blank(s, e):
        if s and s.strip():
            mal.append(f"text {s.strip()[:40]!r} in <{e.tag}>")

    def span_no(e, k):
        try:
            return int(e.get(k, "1"))
        except ValueError:
            mal.append(f"{k}={e.get(k)!r}")
            return 1

    def walk(e):
        for c in e:
            visit(c)
            blank(c.tail, e)

    def visit(e):
        t = e.tag
        if t == "span":
            if len(e):
                mal.append("elements in a span")
            attrs = {}
            for cls in (e.get("class") or "").split():
                if cls in rules:
                    attrs.update(rules[cls])
                else:
                    mal.append(f"class {cls!r} has no rule")
            out.append(ev("text", x=real.codes("".join(e.itertext())), f=look(attrs, mal)))
            return
        blank(e.text, e)
        if t == "table":
            i = e.get("id")
            out.append(ev("table", x=NONE if i is None else real.codes(i)))
            walk(e)
            out.append(ev("/table"))
        elif t in ("tbody", "thead"):
            walk(e)
        elif t in ("td", "th"):
            out.append(ev("cell", t=t, c=span_no(e, "colspan"), r=span_no(e, "rowspan"), k=shown(e, "background-color", "background")))
            walk(e)
            out.append(ev("/cell"))
        elif t in ("ul", "ol"):
            out.append(ev("list", t=t, k=shown(e, "list-style-type", "list-style")))
            walk(e)
            out.append(ev("/list"))
        elif t in ("tr", "p", "li"):
            out.append(ev(t))
            walk(e)
            out.append(ev("/" + t))
        else:
            mal.append(f"element <{t}>")
            walk(e)
    blank(body.text, body)
    walk(body)
    rec["mal"] = len(mal)
    del mal[5:]
    return rec


def no_model(why):
    return {"ev": [], "title": NONE, "rev": NONE, "links": [], "wf": False, "mal": 1, "why": [why]}


class Case:
    stem = "doc"
    def __init__(self, doc, name="", focus=(), skip=True, ignore=()):
        self.doc, self.name, self.focus = doc, name, list(focus)
        self.skip, self.ignore = skip, list(ignore)
        self.rec = self.exp = self.verdict = None
        self.cov = set()
        self.model = self.model2 = None      # of the run on the docx, and of a run on its HTML model
        self.html = None


def convert(w, c, d, timeout=60, again=False, old=False):
    """run the command on the document of a case, in directory d"""
    d.mkdir(parents=True)
    src, out = d / f"{c.stem}.docx", d / "out"
    write_docx(src, c.doc)
    out.mkdir()
    opts = (["-s"] if c.skip else []) + (["--lint-ignore=" + ",".join(c.ignore)] if c.ignore else [])
    if old:
        real.litter(d, *(c.stem + x for x in (".html", ".css", ".json")))
        real.litter(out, *(c.stem + x for x in (".html", ".css", ".json", ".docx")))
    rc = real.steadily(lambda: w.call(opts + ["-o", str(out), str(src)], timeout), c.name)
    h, s = out / f"{c.stem}.html", out / f"{c.stem}.css"
    if real.fresh(h) is None:
        c.rec = no_model(f"no HTML model (exit {rc})")
    else:
        data = h.read_bytes()
        css = real.fresh(s)
        css = css.decode("utf-8", "replace") if css is not None else None
        c.rec = read_model(data, css)
        if again:
            c.html = data.decode("utf-8", "replace")
            c.model = real.canon_model(real.fresh(out / f"{c.stem}.json"), rc)
            two = d / "two"
            two.mkdir()
            shutil.copy(h, two / "doc.html")
            out2 = d / "out2"
            out2.mkdir()
            rc2 = w.call(opts + ["-o", str(out2), str(two / "doc.html")], timeout)
            f = out2 / "doc.json"
            c.model2 = real.canon_model(f.read_bytes() if f.exists() else None, rc2)
    c.rec["exit"] = 99 if rc is None else 0 if rc == 0 else 1
    shutil.rmtree(d, ignore_errors=True)


def run_real(cases, root, workers=8, timeout=60, again=False, env=None):
    def one(ctx, item):
        k, c = item
        if "w" not in ctx:
            d = root / f"w{id(ctx)}"
            d.mkdir(parents=True, exist_ok=True)
            ctx["w"] = real.Worker(d, env)
        convert(ctx["w"], c, root / f"c{k}", timeout, again, k % 3 == 1)
    real.pmap(one, list(enumerate(cases)), workers)


# ---------------------------------------------------------------- judgement
LINE = re.compile(r"(\d+) \{([^}]*)\} \{([^}]*)\}")


def judge(cases, root, chunk=300, workers=8):
    stats = {"generated": 0, "distinct": 0, "wall": 0.0}
    for b in range(0, len(cases), chunk):
        batch = cases[b:b + chunk]
        f = root / f"docx{b}.json"
        data, used = [], set()
        for c in batch:
            data.append({"doc": c.doc, "focus": c.focus, "stem": codes_of(os.fsencode(c.stem)), "rec": {k: c.rec[k] for k in ("ev", "title", "rev", "links", "wf", "mal")}})
        real.collect(data, used)
        f.write_text(json.dumps(data))
        Path(str(f) + ".uni").write_text(json.dumps(real.uni_table(used)))
        r = tlc.run("Stage1Trace", env={"SPEX_CASES": str(f)}, workers=workers)
        n = 0
        for line in r.printed("J"):
            m = LINE.fullmatch(line.strip())
            if not m:
                raise real.Machinery("unreadable verdict " + line)
            words = lambda s: set(re.findall(r'"([^"]*)"', s))
            c = batch[int(m.group(1)) - 1]
            c.verdict, c.cov = words(m.group(2)), words(m.group(3))
            n += 1
        if n != len(batch):
            raise real.Machinery(f"{n} verdicts for {len(batch)} conversions")
        stats["generated"] += r.generated
        stats["distinct"] += r.distinct
        stats["wall"] += r.wall
        f.unlink()
    return stats


# ---------------------------------------------------------------- for people
def show(rec):
    t = lambda s: None if s == NONE else txt(s)
    mark = lambda v: "" if v["k"] == NONE else "(?)" if v["k"] == [-2] else f"({t(v['k'])})"
    res = []
    for v in rec["ev"]:
        if v["e"] == "table":
            res.append(f"table {t(v['x'])}" if v["x"] != NONE else "table")
        elif v["e"] == "cell":
            res.append(f"{v['t']} {v['c']}x{v['r']}" + mark(v))
        elif v["e"] == "list":
            res.append(v["t"] + mark(v))
        elif v["e"] == "text":
            f = v["f"]
            l = [k + ("" if x == "on" or x is True else ":" + (t(x) if isinstance(x, list) else x))
                 for k, x in f.items() if x not in ("none", False, NONE)]
            res.append(json.dumps(t(v["x"])) + ("{" + " ".join(l) + "}" if l else ""))
        else:
            res.append(v["e"])
    return {"title": t(rec.get("title", NONE)), "revision": t(rec.get("rev", NONE)), "events": " ".join(res)[:6000]}
