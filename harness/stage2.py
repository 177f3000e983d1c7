"""Conformance of the HTML model -> NVMe model transformation: run the real
code on documents and let TLC judge the outcomes by Stage2Trace."""
import json, os, re, shutil, time
from html import escape
from pathlib import Path
from . import real, said, tlc


# ---------------------------------------------------------------- documents
def to_html(doc):
    """document of the specification -> HTML model text"""
    t = lambda s: "".join(map(chr, s))
    esc = lambda s: t(s).replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")
    att = lambda s: esc(s).replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")

    def nd(n):
        a = ""
        if n["hc"] or n["cs"] != 1:
            a += f' colspan="{n["cs"]}"'
        if n["rs"] != 1:
            a += f' rowspan="{n["rs"]}"'
        if n["id"] != real.NONE:
            a += f' id="{att(n["id"])}"'
        return f'<{n["t"]}{a}>{esc(n["x"])}{"".join(nd(k) for k in n["k"])}</{n["t"]}>{esc(n["z"])}'
    return ('<!DOCTYPE html>\n<html lang="en"><head><meta charset="utf-8"/>'
            f'<meta data-spec="{att(doc.get("titleAs", doc["title"]))}"/><meta data-revision="{att(doc.get("revAs", doc["rev"]))}"/><title>x</title></head>'
            + nd(doc["body"]) + "</html>\n")


class Case:
    __slots__ = ("html", "skip", "ignore", "focus", "name", "doc", "rec", "verdict", "cov", "extra", "n", "argv", "exp", "valid", "keep", "data", "src", "listen")

    def __init__(self, html=None, doc=None, skip=True, ignore=(), focus=(), name="", argv=()):
        self.html = html if html is not None else to_html(doc)
        self.skip, self.ignore, self.focus, self.name = skip, list(ignore), list(focus), name
        self.argv = list(argv)
        self.doc = self.rec = self.verdict = self.exp = None
        self.valid = True
        self.keep = self.listen = False
        self.data = None

    def options(self):
        a = ["-s"] if self.skip else []
        if self.argv:
            return a + self.argv
        if self.ignore:
            a.append("--lint-ignore=" + ",".join(self.ignore))
        return a


def run_real(cases, root, workers=8, timeout=60, env=None):
    """execute the command on each case, in several processes"""
    def one(ctx, item):
        k, c = item
        if "w" not in ctx:
            d = root / f"w{id(ctx)}"
            d.mkdir(parents=True, exist_ok=True)
            ctx["w"] = real.Worker(d, env)
        d = root / f"c{k}"
        d.mkdir(parents=True)
        src = d / "doc.html"
        src.write_text(c.html, encoding="utf-8")
        out = d / "out"
        out.mkdir()
        if k % 3 == 1:
            real.litter(d, "doc.json", "doc.docx", "doc.css")
            real.litter(out, "doc.json", "doc.html", "doc.css")
        err = d / "err" if c.listen else None
        rc = real.steadily(lambda: ctx["w"].call(c.options() + ["-o", str(out), str(src)], timeout, err=err), c.name)
        data = real.fresh(out / "doc.json")
        c.rec = real.canon_model(data, rc)
        if c.listen:
            c.rec.update(said.document(err.read_bytes(), str(src), str(out / "doc.json")))
        if c.keep:
            c.data = data
        shutil.rmtree(d, ignore_errors=True)
        return c.rec
    real.pmap(one, list(enumerate(cases)), workers)


def payload(cases):
    data, used = [], set()
    for c in cases:
        if c.doc is None:
            c.doc = real.read_html(c.html)
        rec = {k: v for k, v in c.rec.items() if k != "why"}
        data.append({"doc": c.doc, "skip": c.skip, "ignore": c.ignore, "focus": c.focus, "rec": rec})
    real.collect(data, used)
    return data, real.uni_table(used)


LINE = re.compile(r"(\d+) \{([^}]*)\} \{([^}]*)\} \{([^}]*)\} <<(\d+), (\d+), (\d+), (\d+)>>")


def judge(cases, root, workers=8, chunk=400, explain=False):
    """TLC's verdict on recorded runs; sets verdict (set of property ids), cov"""
    stats = {"generated": 0, "distinct": 0, "wall": 0.0, "runs": 0}
    # group by size so that each TLC run has a bounded input
    batches, cur, size = [], [], 0
    for c in cases:
        cur.append(c)
        size += len(c.html)
        if len(cur) >= chunk or size > 4_000_000:
            batches.append(cur)
            cur, size = [], 0
    if cur:
        batches.append(cur)
    for b, batch in enumerate(batches):
        f = root / f"cases{b}.json"
        data, uni = payload(batch)
        f.write_text(json.dumps(data))
        Path(str(f) + ".uni").write_text(json.dumps(uni))
        r = tlc.run("Stage2Trace", env={"SPEX_CASES": str(f), "SPEX_EXPLAIN": "1" if explain else "0"}, workers=workers)
        seen = set()
        for line in r.printed("J"):
            m = LINE.fullmatch(line.strip())
            if not m:
                raise real.Machinery("unreadable verdict " + line)
            c = batch[int(m.group(1)) - 1]
            words = lambda s: set(re.findall(r'"([^"]*)"', s))
            c.verdict, c.cov, c.extra = words(m.group(2)), words(m.group(3)), words(m.group(4))
            c.n = tuple(int(m.group(x)) for x in (5, 6, 7, 8))
            seen.add(int(m.group(1)))
        if len(seen) != len(batch):
            raise real.Machinery(f"{len(seen)} verdicts for {len(batch)} cases")
        stats["generated"] += r.generated
        stats["distinct"] += r.distinct
        stats["wall"] += r.wall
        stats["runs"] += 1
        if not explain:
            f.unlink()
    return stats
