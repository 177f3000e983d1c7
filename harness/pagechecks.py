"""C28, C29: histories of the two pages of the server, run by page.js as a
browser would run them."""
import base64, itertools, json, os, random, re, subprocess, threading
from html.parser import HTMLParser
from pathlib import Path
from . import real, tlc, srvchecks, srvread

CFG = {"C28": ["C28leaves", "C28cuts", "C28some"], "C29": ["C29counts", "C29once", "C29all", "C29twice"]}
PROPS = {"C28": ["C28forward"], "C29": []}
VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}


# ---------------------------------------------------------------- pages
class Tree(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root, self.open = None, []

    def handle_starttag(self, t, a):
        e = {"t": t, "a": [[k, v or ""] for k, v in a], "c": []}
        if self.open:
            self.open[-1]["c"].append(e)
        elif self.root is None:
            self.root = e
        if t not in VOID:
            self.open.append(e)

    def handle_startendtag(self, t, a):
        self.handle_starttag(t, a)

    def handle_endtag(self, t):
        for i in range(len(self.open) - 1, -1, -1):
            if self.open[i]["t"] == t:
                del self.open[i:]
                break

    def handle_data(self, d):
        if self.open:
            self.open[-1]["c"].append(d)


def parse(page):
    p = Tree()
    p.feed(page)
    p.close()
    if p.root is None:
        return {"t": "html", "a": [], "c": [{"t": "body", "a": [], "c": []}]}
    return p.root


def sources(tree):
    res = [v for k, v in tree["a"] if k == "src" and tree["t"] == "script"]
    for c in tree["c"]:
        if not isinstance(c, str):
            res += sources(c)
    return res


class Browser(real.Worker):
    def start(self):
        self.cwd.mkdir(parents=True, exist_ok=True)
        env = {k: v for k, v in os.environ.items() if not k.startswith("NODE")}
        self.p = subprocess.Popen(["node", str(real.HERE / "page.js")], cwd=self.cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, encoding="utf-8")

    def ask(self, **req):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            r = self._read(60)
        except (BrokenPipeError, OSError):
            r = None
        if r is None:
            self.stop()
            raise real.Machinery("the page's interpreter did not answer")
        if "failed" in r:
            raise real.Machinery("the page's interpreter failed: " + r["failed"])
        return r


def squeeze(s):
    return re.sub(r"[\s\ufeff]+", "", s)          # what is white space in Python or in JavaScript


def words(seen):
    return squeeze("".join(x["s"] for x in seen if "s" in x))


def ratio(bar):
    """what a progress bar shows, as natural numbers"""
    try:
        v, m = (float(x) if x is not None else 1.0 for x in bar)
        if v == int(v) and m == int(m) and v >= 0 and m > 0:
            return {"k": int(v), "n": int(m)}
    except (TypeError, ValueError, OverflowError):
        pass
    return {"k": 0, "n": 0}


# ---------------------------------------------------------------- upload page
class Upload:
    page = "upload"

    def __init__(self, name, streams, acts):
        """streams: (events, bytes, line lengths); acts: {"a", "n", "data"}"""
        self.name, self.streams, self.acts = name, streams, acts
        self.obs = self.bad = None

    def run(self, b, site):
        self.obs = []
        r = b.ask(op="open", tree=site["/"], scripts=site["scripts"])
        self.see(r)
        for a in self.acts:
            req = {"op": a["a"]}
            if a["a"] == "answer":
                req["status"] = a["n"]
            if a["a"] == "chunk":
                req["data"] = base64.b64encode(a["data"]).decode()
            if a["a"] == "submit":
                req["name"] = a["file"]
            self.see(b.ask(**req))

    def see(self, r):
        bars = [x["bar"] for x in r["seen"] if "bar" in x]
        form = any("form" in x for x in r["seen"])
        v = {"shown": "form" if form and not bars else "bars" if len(bars) == 2 and not form else "other",
             "html": ratio(bars[0]) if len(bars) == 2 else {"k": 0, "n": 0}, "json": ratio(bars[1]) if len(bars) == 2 else {"k": 0, "n": 0},
             "left": r["left"] if r["left"] is not None else "none"}
        posts = [c for c in r["calls"] if c[0].split("://", 1)[-1].split("/", 1)[-1].lstrip("/") == "parse" and c[1].upper() == "POST"]
        k = len(self.obs)
        files = [a["file"] for a in self.acts[:k] if a["a"] == "submit"]
        good = len(r["calls"]) == len(posts) and [p[2] for p in posts] == [[["document", f]] for f in files]
        self.obs.append({"view": v, "did": r["did"], "posts": len(posts) if good else 1000, "errors": r["errors"]})

    def payload(self):
        return {"page": "upload", "streams": [{"evs": e, "lens": l} for e, _, l in self.streams], "acts": [{"a": a["a"], "n": a["n"]} for a in self.acts],
                "obs": [{"view": o["view"], "did": o["did"], "posts": o["posts"]} for o in self.obs]}

    def readable(self):
        return {"history": self.name, "streams": [s.decode("ascii", "replace")[:1500] for _, s, _ in self.streams],
                "actions": [{"do": a["a"] + (" " + str(a["n"]) if a["n"] else ""), "bytes": a.get("data", b"").decode("latin-1")[:300]} for a in self.acts][:60],
                "seen": [dict(o["view"], errors=o["errors"][:2]) for o in self.obs][:60], "not allowed at": sorted(self.bad or [])}

    def what(self):
        k = min(self.bad)
        o = self.obs[k]
        done = [a["a"] + (f" {a['n']}" if a["n"] else "") for a in self.acts[:k]]
        got = b"".join(a.get("data", b"") for a in self.acts[:k])
        return f"{self.name}: the upload page after {', '.join(done[-6:])} (received ...{got[-90:].decode('latin-1')!r}): shows {o['view']}, {o['posts']} uploads, errors {o['errors'][:1]}"


def line(ev):
    d = {"type": "report-completed", "url": ev["url"]} if ev["t"] == "completed" else {"type": "progress-update", "phase": ev["t"], "fig_ndx": ev["k"], "num_figs": ev["n"]}
    return b"data: " + json.dumps(d).encode()


def stream(evs):
    lines = [line(e) for e in evs]
    return evs, b"".join(l + b"\n\n" for l in lines), [len(l) for l in lines]


def scaled(evs, rnd):
    """the same sort of events with numbers of any size"""
    f = {t: rnd.choice([1, 1, 1, 7, 37, 250]) for t in ("html", "json")}
    res = []
    for e in evs:
        e = dict(e)
        if e["t"] == "completed":
            e["url"] = "/report/" + "%032x" % rnd.getrandbits(128)
        else:
            m = f[e["t"]]
            e["n"] = e["n"] * m
            e["k"] = e["k"] * m - rnd.randrange(m)
        res.append(e)
    return res


def offset(ev_line, unit, rnd):
    """where in an event its abstract places are"""
    n = len(ev_line)
    return [0, rnd.randint(1, 5), rnd.randint(6, n - 1), n, n + 1, n + 2][unit]


def from_model(d, rnd, name):
    streams = [stream(scaled([{k: e[k] for k in ("t", "k", "n", "url")} for e in evs], rnd)) for evs in d["evs"]]
    acts, sub, pos, at = [], -1, 0, 0
    for a in d["hist"]:
        x = {"a": a["a"], "n": a["n"]}
        if a["a"] == "submit":
            sub += 1
            x["file"] = rnd.choice(["spec.docx", "spec.html", "a b.docx"])
        elif a["a"] == "answer":
            pos = at = 0
        elif a["a"] == "chunk":
            pos += a["n"]
            lines = [line(e) for e in streams[sub][0]]
            j, u = divmod(pos, 5)
            to = sum(len(l) + 2 for l in lines[:j]) + (offset(lines[j], u, rnd) if u else 0)
            x["data"] = streams[sub][1][at:to]
            x["n"] = to - at
            at = to
        acts.append(x)
    return Upload(name, streams, acts)


def any_cut(evs, rnd, name, how):
    """any events, their bytes cut anywhere"""
    st = stream(evs)
    data = st[1]
    if how == "bytes":
        cuts = list(range(1, len(data)))
    elif how == "lines":
        cuts = [i + 1 for i in range(len(data)) if data[i:i + 1] == b"\n"]
    else:
        cuts = sorted(rnd.sample(range(1, len(data)), min(len(data) - 1, rnd.randint(0, 40)))) if len(data) > 1 else []
    ps = [0] + cuts + [len(data)]
    acts = [{"a": "submit", "n": 0, "file": "spec.docx"}, {"a": "answer", "n": 200}]
    acts += [{"a": "chunk", "n": b - a, "data": data[a:b]} for a, b in zip(ps, ps[1:]) if b > a]
    return Upload(name, [st], acts + [{"a": rnd.choice(["end", "end", "break"]) if not evs or evs[-1]["t"] != "completed" else "end", "n": 0}])


def random_events(rnd):
    h, j = rnd.choice([0, 0, 1, 3, 12]), rnd.choice([0, 1, 2, 5, 20])
    evs = [{"t": "html", "k": k, "n": h + 1, "url": ""} for k in range(1, h + 1)]
    evs += [{"t": "json", "k": k, "n": j + 1, "url": ""} for k in range(1, j + 1)]
    if rnd.random() < .6:
        evs.append({"t": "completed", "k": 0, "n": 0, "url": "/report/" + "%032x" % rnd.getrandbits(128)})
    return evs


def real_streams(docs, k0, rnd):
    """what the server sent, cut anywhere, for a page to show"""
    res = []
    for k, c in enumerate(docs):
        data = base64.b64decode(c.streams[0])
        evs, lens, at, ok = [], [], 0, True
        for l in data.split(b"\n\n")[:-1]:
            try:
                d = json.loads(l[6:])
                if d["type"] == "report-completed":
                    evs.append({"t": "completed", "k": 0, "n": 0, "url": d["url"]})
                else:
                    evs.append({"t": d["phase"], "k": d["fig_ndx"], "n": d["num_figs"], "url": ""})
                lens.append(len(l))
            except (ValueError, KeyError, TypeError):
                ok = False
        if not ok or not evs or sum(lens) + 2 * len(lens) != len(data):
            continue              # not the protocol: C25 says so
        u = any_cut(evs, rnd, f"the server's own stream {k0 + k}", "random")
        if u.streams[0][1] != data:
            u.streams = [(evs, data, lens)]
            acts, at = u.acts[:2], 0
            while at < len(data):
                n = rnd.randint(1, max(2, len(data) // 3))
                acts.append({"a": "chunk", "n": len(data[at:at + n]), "data": data[at:at + n]})
                at += n
            u.acts = acts + u.acts[-1:]
        res.append(u)
    return res


# ---------------------------------------------------------------- report page
def js_text(v):
    """as JavaScript writes it"""
    if v is None:
        return ""
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, list):
        return ",".join(js_text(x) for x in v)
    if isinstance(v, dict):
        return "[object Object]"
    return str(v)


def entry_texts(l):
    """what there is to be read of an entry: its context in any order"""
    head = "Row:" + js_text(l.get("row")) + "Linting error:" + l["msg"] + "(" + l["code"] + ")"
    ctx = sorted(k + ":" + js_text(v) for k, v in l["context"].items())
    orders = itertools.permutations(ctx) if len(ctx) <= 4 else [ctx]
    return [squeeze(head + "".join(o)) for o in orders]


def canonical(html):
    """a table, whatever its layout"""
    try:
        from lxml import etree
        root = etree.fromstring(html, etree.XMLParser(huge_tree=True, resolve_entities=False))
    except Exception:
        return None

    def walk(e):
        return (e.tag if isinstance(e.tag, str) else "?", sorted(e.attrib.items()), squeeze(e.text or ""), [(walk(c), squeeze(c.tail or "")) for c in e])
    return walk(root)


class Site:
    """a report's page, and what is known of the report"""
    def __init__(self, name, pages, model, html):
        self.name, self.pages, self.model = name, pages, model
        lint = model["meta"]["lint"]
        texts, kinds = [], {}
        for l in lint:
            ts = entry_texts(l)
            texts.append(ts[0])
            for t in ts:
                kinds.setdefault(t, kinds.get(ts[0], len(kinds) + 1))
        self.kinds = kinds
        self.lint = [{"code": l["code"], "fig": l["fig"], "what": kinds[t]} for l, t in zip(lint, texts)]
        self.codes = list(dict.fromkeys(l["code"] for l in lint))
        self.figs = sorted({l["fig"] for l in lint})
        self.msgs = {}
        for l in lint:
            self.msgs.setdefault(l["code"], set()).add(squeeze(l["msg"]))
        self.tables = {}
        from lxml import etree
        for t in srvread.html_root(html).findall("./body/table"):
            if t.get("id") is not None:
                self.tables.setdefault(t.get("id"), []).append(canonical(etree.tostring(t, encoding="unicode", with_tail=False)))


class Report:
    page = "report"

    def __init__(self, name, site, which, acts):
        self.name, self.site, self.which, self.acts = name, site, which, acts
        self.obs = self.bad = None

    def run(self, b):
        self.obs = []
        page = self.site.pages[self.which]
        self.see(b.ask(op="open", tree=page["tree"], scripts=page["scripts"]), "summary")
        tab = "summary"
        for a in self.acts:
            if a["a"] == "tab":
                tab = a["x"]
                r = b.ask(op="click", text={"summary": "Summary", "figures": "Figures"}[tab])
            elif a["a"] == "clear":
                r = b.ask(op="click", text="Clear all filters")
            else:
                r = b.ask(op="click", row=a["x"])
            self.see(r, tab)

    def see(self, r, tab):
        s = self.site
        seen = r["seen"]
        text = words(seen)
        meta = s.model["meta"]
        named = squeeze("Specification:" + js_text(meta.get("specification"))) in text and squeeze("Revision:" + js_text(meta.get("revision"))) in text
        v = {"tab": "other", "rows": [], "total": 0, "groups": []}
        if "Figures:" in [squeeze(x.get("s", "")) for x in seen]:
            v["tab"] = "figures" if "ErrorSummary" not in text else "other"
            at = max(k for k, x in enumerate(seen) if squeeze(x.get("s", "")) == "Figures:")
            seen = seen[at + 1:]
            marks = [k for k, x in enumerate(seen) if "html" in x]
            for n, k in enumerate(marks):
                head = squeeze(seen[k - 1].get("s", "")) if k else ""
                end = marks[n + 1] - 1 if n + 1 < len(marks) else len(seen)
                body = [x.get("s", "") for x in seen[k + 1:end]]
                es, cur = [], None
                for x in body:
                    if squeeze(x).startswith("Row:"):
                        cur = []
                        es.append(cur)
                    if cur is None:
                        cur = []
                        es.append(cur)
                    cur.append(x)
                fig = next((f for f in s.figs if squeeze("Figure " + f) == head), "?" + head)
                top = fig.split("_")[0]
                html = seen[k]["html"]
                ok = canonical(html) in s.tables[top] if top in s.tables else squeeze(html) in (squeeze(fig), squeeze(top))
                v["groups"].append({"fig": fig, "html": ok, "es": [s.kinds.get(squeeze("".join(e)), 0) for e in es]})
            if not marks and words(seen):
                v["groups"].append({"fig": "?", "html": False, "es": []})
        elif "ErrorSummary" in text:
            v["tab"] = "summary"
            rows, cur = [], None
            for x in seen:
                if "row" in x:
                    cur = {"sel": x["row"], "cells": []}
                elif "rowEnd" in x:
                    if cur:
                        rows.append(cur)
                    cur = None
                elif cur is not None and "s" in x:
                    cur["cells"].append(squeeze(x["s"]))
            for row in rows:
                c = row["cells"]
                n = int(c[-1]) if c and re.fullmatch(r"\d{1,9}", c[-1]) else 0
                if c and c[0] == "Allerrors":
                    v["total"] = n
                else:
                    v["rows"].append({"code": c[0] if c else "", "n": n, "sel": row["sel"], "msg": len(c) == 3 and c[1] in s.msgs.get(c[0], ())})
        self.obs.append({"view": v, "did": r["did"], "named": named, "errors": r["errors"]})

    def payload(self):
        return {"page": "report", "lint": self.site.lint, "acts": self.acts, "obs": [{"view": o["view"], "did": o["did"], "named": o["named"]} for o in self.obs]}

    def readable(self):
        return {"history": self.name, "report": self.site.name, "page": self.which, "lint": self.site.model["meta"]["lint"][:40], "actions": self.acts,
                "seen": [{"tab": o["view"]["tab"], "rows": o["view"]["rows"], "total": o["view"]["total"], "groups": o["view"]["groups"][:20], "errors": o["errors"][:2]} for o in self.obs][:12],
                "not allowed at": sorted(self.bad or [])}

    def what(self):
        k = min(self.bad)
        o = self.obs[k]
        v = o["view"]
        shown = {"rows": [[r["code"], r["n"], r["sel"]] for r in v["rows"]], "total": v["total"]} if v["tab"] == "summary" else {"figures": [[g["fig"], g["es"], g["html"]] for g in v["groups"][:8]]}
        return f"{self.name}: the report page ({self.which}) of {self.site.name} after {[a['a'] + ' ' + a['x'] for a in self.acts[:k]]}: shows {shown}, lint {[(l['code'], l['fig'], l['what']) for l in self.site.lint][:8]}, errors {o['errors'][:1]}"


SPECIAL = ["</script><b>x</b>", "{{ 1 + 1 }}", "a & b \"q\" 'r'", "<!-- c -->", "back\\slash `t` ${x}", "\u2028line", "caf\u00e9 \u4e2d\u6587", "__proto__", "constructor", "<template x-if=\"1\">"]


def crafted(rnd, k):
    """reports with many entries, of many figures, with texts of any sort"""
    from xml.sax.saxutils import escape
    figs = rnd.sample(["1", "2", "3", "10", "11", "100", "3-1", "A.2", "7a"], rnd.randint(1, 5))
    body = ""
    for f in figs:
        rows, lab = "", ""
        fails = rnd.random() < .3               # some figures with what cannot be a label
        for i in range(rnd.choice([1, 2, 3, 9, 12, 12, 30, 101])):
            lab = rnd.choice([lab or "Alpha", rnd.choice(SPECIAL), "", "Beta"] if fails else [lab or "Alpha", "Alpha", "Beta", "9x", "Foo Bar", "_y", "Reserved"])
            rows += f"<tr><td><p>{rnd.choice([str(i), str(i), str(i), '0', 'x', ''])}</p></td><td><p>{escape(lab)}: some {escape(rnd.choice(SPECIAL))}</p></td></tr>"
        if fails and rnd.random() < .5:
            rows += "<tr><td><p>1</p></td><td>no paragraph</td></tr>"
        if rnd.random() < .5:
            rows += "<tr><td><p>77</p></td><td><p>Nest: x</p><table><tr><td><p>Value</p></td><td><p>Definition</p></td></tr><tr><td><p>1</p></td><td><p>A</p></td></tr><tr><td><p>1</p></td><td><p>A</p></td></tr></table></td></tr>"
        kind = rnd.choice(["Value", "Value", "Code", "Bits", "Bytes", "Bytes"])
        heads = "".join(f"<th><p>{h}</p></th>" for h in (kind, "Other" if rnd.random() < .1 else rnd.choice(["Definition", "Description"]) if kind in ("Value", "Code") else "Description"))
        body += f'<table id="{f}"><tr><td><p>Figure {f}: Some {escape(rnd.choice(SPECIAL))}</p></td></tr><tr>{heads}</tr>{rows}</table>'
    return ('<!DOCTYPE html><html lang="en"><head><meta charset="utf-8"/><meta data-spec="%s"/><meta data-revision="%s"/><title>t</title></head><body>%s</body></html>'
            % (escape(rnd.choice(["Some Spec"] + SPECIAL), {'"': "&quot;"}), rnd.choice(["1.0", "2.1b"]), body)).encode()


def fetch_sites(ck, docs):
    """upload documents, and get the pages of their reports"""
    cases = []
    static = None
    for d in docs:
        c = srvchecks.single_upload(d, d.label, random.Random(0), gets=[
            {"g": 0, "of": 1, "kind": "report", "raw": True}, {"g": 1, "of": 1, "kind": "report", "query": "?bundle=1", "raw": True}, {"g": 2, "of": 1, "kind": "json", "raw": True},
            {"g": 3, "of": 1, "kind": "html", "raw": True}, {"g": 4, "of": 0, "kind": "page", "path": "/", "raw": True}])
        cases.append(c)
    srvchecks.run_all(ck, cases, ck.root / "srv")
    for c in cases:
        c.got = {g["g"]: (g["code"], base64.b64decode(g["body"])) for g in c.obs[-1]["gets"]}
    return cases


def fetch(ck, paths, doc):
    c = srvchecks.single_upload(doc, "static", random.Random(0), gets=[{"g": k, "of": 0, "kind": "page", "path": p, "raw": True} for k, p in enumerate(paths)])
    srvchecks.run_all(ck, [c], ck.root / "srv")
    return {paths[g["g"]]: base64.b64decode(g["body"]).decode("utf-8", "replace") for g in c.obs[-1]["gets"] if g["code"] == 200}


def judge(cases, root, chunk=1500):
    st = {"generated": 0, "distinct": 0}
    for b in range(0, len(cases), chunk):
        batch = cases[b:b + chunk]
        f = root / f"page{b}.json"
        f.write_text(json.dumps([c.payload() for c in batch]))
        r = tlc.run("PageTrace", env={"SPEX_CASES": str(f)})
        f.unlink()
        n = 0
        for ln in r.printed("J"):
            k, rest = ln.split(" ", 1)
            batch[int(k) - 1].bad = {int(x) for x in re.findall(r"\d+", rest)}
            n += 1
        if n != len(batch):
            raise real.Machinery(f"{n} verdicts for {len(batch)} histories")
        st["generated"] += r.generated - len(batch)
        st["distinct"] += r.distinct
    return st


def corrupt(cases, rnd):
    import copy
    res = []
    for c in cases:
        x = copy.copy(c)
        x.obs = copy.deepcopy(c.obs)
        k = rnd.randrange(len(x.obs))
        v = x.obs[k]["view"]
        if c.page == "upload":
            # at the end what is to be seen is always certain
            if rnd.random() < .5:
                k = len(x.obs) - 1
                if c.acts[-1]["a"] == "break" and c.streams[0][0] and c.streams[0][0][-1]["t"] == "completed":
                    continue
                v = x.obs[k]["view"]
                v["left"] = "/report/other" if rnd.random() < .5 else "null"
            elif v["shown"] == "bars" and k and c.acts[k - 1]["a"] == "chunk" and not any(b"completed" in s[1] for s in c.streams):
                v["shown"] = "other"
            else:
                x.obs[k]["posts"] += 1
        elif v["tab"] == "summary":
            if v["rows"] and rnd.random() < .7:
                r = rnd.choice(v["rows"])
                if rnd.random() < .5:
                    r["sel"] = not r["sel"]
                else:
                    r["n"] += 1
            else:
                v["total"] += 1
        else:
            if v["groups"]:
                g = rnd.choice(v["groups"])
                how = rnd.randrange(3)
                if how == 0:
                    g["es"] = g["es"][:-1]
                elif how == 1:
                    g["html"] = not g["html"]
                else:
                    v["groups"].remove(g)
            else:
                v["groups"].append({"fig": "1", "html": True, "es": [1]})
        res.append(x)
    return res


def model(ck, part):
    props = CFG[ck.prop]
    cfg = "INIT Init\nNEXT Next\nINVARIANT Export\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {p}\n" for p in props) + "".join(f"PROPERTY {p}\n" for p in PROPS[ck.prop])
    r = tlc.run("MC_Page", env={"SPEX_PART": part}, cfgtext=cfg)
    res = [json.loads(x) for x in r.printed("D")]
    ck.tlc(r, "MC_Page " + part, documents=len(res), invariants=props + PROPS[ck.prop], exhaustive=True)
    if not res:
        raise real.Machinery("no histories")
    return res


def check(ck):
    prop = ck.prop
    rnd = random.Random(f"{prop}/{ck.seed}")
    if prop == "C28":
        hs = model(ck, "upload")
        docs = srvchecks.random_docs(ck, ck.pick(12, 60))
    else:
        hs = model(ck, "report")
        docs = srvchecks.random_docs(ck, ck.pick(30, 150), p_soup=.3)

        def one(ctx, k):
            if "w" not in ctx:
                d = ck.root / f"l{threading.get_ident()}"
                d.mkdir(exist_ok=True)
                ctx["w"], ctx["d"] = real.Worker(d), d
            r = random.Random(f"page/{ck.seed}/{k}")
            d = srvchecks.learn(ctx["w"], ctx["d"], srvchecks.Doc(f"crafted {k}", "html", crafted(r, k)))
            d.path = ck.root / f"crafted{k}.bin"
            d.path.write_bytes(d.data)
            return d
        docs += [d for d in real.pmap(one, range(ck.pick(40, 200))) if d.ok and srvchecks.single(d)]
    if not docs:
        raise real.Machinery("no documents")
    sites = fetch_sites(ck, docs)
    paths = sorted({x for c in sites for g in (0, 1, 4) if g in c.got for x in sources(parse(c.got[g][1].decode("utf-8", "replace")))})
    static = fetch(ck, paths, docs[0]) if paths else {}

    if prop == "C28":
        home = next((c.got[4] for c in sites if c.got.get(4)), (0, b""))
        if home[0] != 200:
            ck.violation(f"the upload page is answered {home[0]}", {"body": home[1].decode("utf-8", "replace")[:2000]})
            return
        site = {"/": parse(home[1].decode("utf-8")), "scripts": static}
        cases = [from_model(d, random.Random(f"C28/{ck.seed}/{k}"), f"history {k}") for k, d in enumerate(hs)]
        if not ck.thorough and len(cases) > 2500:
            cases = rnd.sample(cases, 2500)
        cases += [any_cut(random_events(rnd), rnd, f"random {k}", how) for how, n in (("bytes", ck.pick(6, 40)), ("lines", ck.pick(20, 200)), ("random", ck.pick(150, 2000))) for k in range(n)]
        cases += real_streams(sites, 0, rnd)
        go = lambda b, c: c.run(b, site)
    else:
        reps = []
        for c in sites:
            if any(c.got[g][0] != 200 for g in (0, 1, 2, 3)):
                ck.violation(f"{c.name}: its report is answered {[c.got[g][0] for g in (0, 1, 2, 3)]}", {"document": c.ups[0][0].data.decode("latin-1")[:4000]})
                continue
            # what is downloaded has to do with what is in it
            pages = {"served": {"tree": parse(c.got[0][1].decode("utf-8")), "scripts": static}, "downloaded": {"tree": parse(c.got[1][1].decode("utf-8")), "scripts": {}}}
            reps.append(Site(c.name, pages, json.loads(c.got[2][1]), c.got[3][1]))
        if not reps:
            return
        cases = []
        by = {}
        for s in reps:
            by.setdefault(len(s.codes), []).append(s)
        for n in range(ck.pick(2500, 30000)):
            d = rnd.choice(hs)
            names = sorted({x["code"] for x in d["lint"]})
            fit = [s for m, ss in by.items() if m >= len(names) for s in ss] or reps
            s = rnd.choice(fit)
            m = dict(zip(names, rnd.sample(s.codes, min(len(names), len(s.codes)))))
            acts = [{"a": a["a"], "x": m.get(a["x"], "") if a["a"] == "row" else a["x"]} for a in d["hist"]]
            acts = [a for a in acts if a["a"] != "row" or a["x"]]
            if acts and acts[-1]["a"] != "tab":
                acts.append({"a": "tab", "x": "figures"})
            cases.append(Report(f"history {n}", s, rnd.choice(["served", "served", "downloaded"]), acts))
        # and longer ones
        for n in range(ck.pick(60, 600)):
            s, acts, tab = rnd.choice(reps), [], "summary"
            for _ in range(rnd.randint(10, 40)):
                if tab == "summary" and rnd.random() < .7:
                    acts.append({"a": "row", "x": rnd.choice(s.codes)} if s.codes and rnd.random() < .85 else {"a": "clear", "x": ""})
                else:
                    tab = rnd.choice(["summary", "figures"])
                    acts.append({"a": "tab", "x": tab})
            cases.append(Report(f"long history {n}", s, rnd.choice(["served", "downloaded"]), acts))
        go = lambda b, c: c.run(b)
        ck.note(reports=len(reps), by_number_of_codes={k: len(v) for k, v in sorted(by.items())}, entries=sum(len(s.lint) for s in reps), codes=sorted({x for s in reps for x in s.codes}))

    def one(ctx, c):
        if "b" not in ctx:
            ctx["b"] = Browser(ck.root / f"b{threading.get_ident()}")
        go(ctx["b"], c)
    real.pmap(one, cases)
    ck.traces(len(cases))
    st = judge(cases, ck.root)
    ck.cov["states"] += st["distinct"]
    ck.cov["transitions"] += st["generated"]
    ck.note(model="PageTrace", histories=len(cases), actions=sum(len(c.acts) for c in cases), states=st["distinct"])
    for c in cases:
        if c.bad:
            ck.violation(c.what(), c.readable())
    good = [c for c in cases if not c.bad]
    bad = corrupt(rnd.sample(good, min(len(good), 300)), rnd)
    judge(bad, ck.root)
    missed = [c for c in bad if not c.bad]
    ck.note(corrupted_records_rejected=len(bad) - len(missed))
    if (missed or not bad) and not ck.violations:
        raise real.Machinery(f"corrupted records were accepted: {[c.name for c in missed][:5]} of {len(bad)}")
    ck.sample(cases[len(cases) // 2].readable())
    ck.sample(cases[-1].readable())
