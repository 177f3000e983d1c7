"""C23 - C27: schedules of uploads and requests to the real server."""
import copy, hashlib, json, os, random, re, select, shutil, subprocess, threading
from pathlib import Path
from . import real, tlc, stage1, stage2, gen, gen1, s2checks, explore, runchecks, srvread

CFG = """INIT Init
NEXT Next
CONSTANT Upload <- UploadDef
INVARIANT C23served
INVARIANT C24gone
INVARIANT C24stopped
INVARIANT C25protocol
INVARIANT C26none
INVARIANT Export
PROPERTY C23stays
PROPERTY C26other
PROPERTY Frame
CHECK_DEADLOCK FALSE
"""
UNKNOWN = ["0" * 32, "d41d8cd98f00b204e9800998ecf8427e", "x", "..%2f..%2fetc%2fpasswd", "%00", "A" * 300, "report.json", "0" * 32 + ".json", "%2e%2e", "None", "\u00e9".encode().hex(), "*"]
KINDS = ["json", "html", "report"]
NOBODY = 65534
LARGEST = 50 * 2 ** 20          # bytes of a request


class Worker(real.Worker):
    """a process that runs the server application on schedules"""
    def start(self):
        self.cwd.mkdir(parents=True, exist_ok=True)
        os.chmod(self.cwd, 0o755)
        box = self.cwd / "box"
        for x in ("", "deep", "deep/er", "outside", "cwd"):
            (box / x).mkdir(exist_ok=True)
            os.chmod(box / x, 0o777)
        for x in ("outside/doc.html", "deep/er/doc.html", "deep/doc.html", "doc.html", "doc.docx"):
            f = box / x
            f.write_text("not to be touched")
            os.chmod(f, 0o666)
        args = [real.PY, str(real.HERE / "srvworker.py"), str(box)] + ([str(NOBODY)] if os.getuid() == 0 else [])
        self.p = subprocess.Popen(args, cwd=box, env=real.env(**self.environ), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, encoding="utf-8")
        r = self._read(60)
        if r is None or "fatal" in r:
            raise real.ImportFailure(r and r["fatal"])

    def ask(self, req, timeout=300):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            r = self._read(timeout)
        except (BrokenPipeError, OSError):
            r = None
        if r is None:
            self.stop()
        return r


# ---------------------------------------------------------------- documents
class Doc:
    """a document to upload, and what is to be expected of it"""
    def __init__(self, label, kind, data, suffix=None):
        self.label, self.kind, self.data = label, kind, data
        self.suffix = suffix or "." + kind
        self.hash = hashlib.md5(data).hexdigest()
        self.ok, self.nh, self.nj, self.json, self.html = False, 0, 0, 0, 0
        self.tables, self.lint, self.model, self.path = [], [], None, None

    def record(self):
        return {"hash": self.hash, "kind": self.kind, "nh": self.nh, "nj": self.nj, "ok": self.ok, "json": self.json, "html": self.html,
                "lint": [real.codes(x) for x in self.lint], "ids": [real.NONE if t[0] is None else real.codes(t[0]) for t in self.tables]}


def learn(w, d, doc, n=[0]):
    """by a run of the command on it; w: a worker"""
    n[0] += 1
    x = d / f"learn{n[0]}"
    (x / "out").mkdir(parents=True)
    f = x / ("doc" + "." + doc.kind)
    f.write_bytes(doc.data)
    rc = w.call(["-s", "-o", str(x / "out"), str(f)])
    doc.ok = rc == 0
    h = x / "out" / "doc.html" if doc.kind == "docx" else f
    html = h.read_bytes() if h.exists() else None
    j = x / "out" / "doc.json"
    doc.nh = doc.nj = 0
    if doc.kind == "docx" and html is not None:
        try:
            doc.nh = len(srvread.html_root(html).findall("./body/table"))
        except Exception:
            pass
    if doc.ok:
        data = j.read_bytes()
        doc.model = json.loads(data)
        doc.nj = len(doc.model["entities"])
        doc.json, doc.html = srvread.model_number(data), srvread.html_number(html)
        doc.tables = srvread.table_numbers(html)
        doc.lint = sorted({l["fig"] for l in doc.model["meta"]["lint"]})
        doc.text = html.decode("utf-8")
        # is each table of it at most one figure (apart from nested ones, which are tables too)
    shutil.rmtree(x)
    return doc


def late(doc, suffix):
    """the same contents under a name with which it fails in the end"""
    res = copy.copy(doc)
    res.label, res.suffix, res.ok = doc.label + suffix, suffix, False
    return res


def docs_for_schedules(ck, k):
    """documents of the sorts of MC_Server"""
    d = ck.root / f"docs{k}"
    d.mkdir()
    w = real.Worker(d)

    def search(label, make, fits, suffix=None):
        for t in range(3000):
            kind, data = make(random.Random(f"srv/{ck.seed}/{k}/{label}/{t}"))
            doc = learn(w, d, Doc(label, kind, data))
            if fits(doc):
                if suffix:
                    doc.suffix, doc.ok = suffix, False
                return doc
        raise real.Machinery(f"no document found for {label}")
    prof = dict(tables=(1, 1), rows=(1, 3), depth=0, p_soup=.05, revs=["1.0"], titles=["Some Spec", "NVM Express Base Specification"], p_case=.4)

    def html(n):
        def make(r):
            text = with_ids(gen.G(r, **dict(prof, tables=(n, n))).doc())
            # documents that are the same at first and in the end
            size = [5000, 300000, 70000, 0][k % 4]
            text = text.replace("<head>", "<head>" + "<!--" + "x" * size + "-->").replace("</body>", "<!--" + "y" * size + "--></body>")
            return "html", text.encode()
        return make

    def docx(r):
        return "docx", runchecks.docx_bytes(gen1.figures(r, **{x: y for x, y in prof.items() if x not in ("revs", "titles")}), d)

    def norev(r):
        doc = gen1.figures(r, tables=(1, 1), depth=0)
        doc["hdr"] = [real.codes("Some Spec")]
        return "docx", runchecks.docx_bytes(doc, d)
    res = {"one": search("one", html(1), lambda x: x.ok and x.nj == 1 and x.lint), "two": search("two", html(1), lambda x: x.ok and x.nj == 1),
           "more": search("more", html(2), lambda x: x.ok and x.nj == 2), "word": search("word", docx, lambda x: x.ok and x.nj == 1 and x.nh == 1),
           "late": search("late", html(1), lambda x: x.ok and x.nj == 1, suffix=random.Random(k).choice([".htm", ".HTML", ".xml"])),
           "wordlate": search("wordlate", norev, lambda x: not x.ok and x.nh == 1)}
    res["onelate"] = late(res["one"], ".htm")
    rnd = random.Random(f"srv/{ck.seed}/{k}")
    good = res["one"].data
    res["bad"] = Doc("bad", "html", rnd.choice([good[:-30], b"", b"no markup", good.replace(b"data-revision", b"x"), good.replace(b"</table>", b"</tabel>", 1)]))
    z = res["word"].data
    res["wordbad"] = Doc("wordbad", "docx", rnd.choice([z[:-25], b"", b"PK", good]))
    w.stop()
    for label, doc in res.items():
        doc.path = d / f"{label}.bin"
        doc.path.write_bytes(doc.data)
    return res


def with_ids(html):
    """ids of top-level tables, as the conversion of docx gives them"""
    from lxml import etree
    head, sep, rest = html.partition("<html")
    root = etree.fromstring((sep + rest).encode())
    for t in root.findall("./body/table"):
        m = re.match(r"\s*Figure ([\w-]+):", "".join(t.itertext()))
        if m and "_" not in m.group(1):
            t.set("id", m.group(1))
    return head + etree.tostring(root, encoding="unicode")


# ---------------------------------------------------------------- schedules
ODD = ["../doc.html", "../../doc.html", "../../../doc.html", "../../../../doc.html", "{out}/doc.html", "/{out}/new.html", "a/b/doc.html", "./doc.html", "..\\doc.html", "C:\\doc.html", "doc.html/", "..", ".", "",
       "a b\u00e9.html", "{out}/../other.html", "x" * 250 + ".html", "x" * 300 + ".html", "~/doc.html", "doc.html\x00.png", "-o.html", "%2e%2e%2fdoc.html", "a&b<c>.html", ".html", "{tmp}/doc.html", "....//doc.html", "../outside/doc.html"]


class Case:
    def __init__(self, ups, sched, name, gets=None, whole=True):
        """ups: [doc, file name, way, extra]; sched: [a, n]"""
        self.ups, self.sched, self.name, self.gets, self.whole = ups, sched, name, gets, whole
        self.obs = self.bad = None

    def request(self, box):
        us = []
        for doc, fname, way, extra in self.ups:
            fname = fname.replace("{out}", str(box / "outside")).replace("{tmp}", str(box / "deep/er/tmp"))
            us.append(dict({"path": str(doc.path), "filename": fname, "field": None if way == "nodoc" and not extra.get("field") else extra.get("field", "document"),
                            "accept": extra.get("accept", "text/html" if way == "noaccept" else "text/event-stream"), "md5": doc.hash,
                            "ok": doc.ok or doc.suffix not in (".html", ".docx")},      # the latter are processed to the end, but do not complete
                           **{k: extra[k] for k in ("piece", "truncate", "before", "hold", "chunked") if k in extra}))
        return {"uploads": us, "sched": self.sched, "gets": self.gets}


def default_gets(ups, rnd):
    gets, seen = [], set()
    for n, (doc, _, way, _) in enumerate(ups):
        if doc.hash in seen:
            continue
        seen.add(doc.hash)
        for kind in KINDS:
            gets.append({"g": len(gets), "of": n + 1, "kind": kind})
        if rnd.random() < .2:
            gets.append({"g": len(gets), "of": n + 1, "kind": rnd.choice(KINDS), "query": "?bundle=1"})
    for kind in rnd.sample(KINDS, 1):
        gets.append({"g": len(gets), "of": 0, "kind": kind, "path": f"/{kind}/{rnd.choice(UNKNOWN)}"})
    h = rnd.choice(sorted(seen))                    # not the hash of anything, but like one
    gets.append({"g": len(gets), "of": 0, "kind": (kind := rnd.choice(KINDS)), "path": f"/{kind}/" + rnd.choice(
        [h.upper() if h.upper() != h else h + "0", h + "%20", "%20" + h, h[:-1], h[1:], h + "0", h + ".json", h + ".html", h + "*", h[:31] + "?", h[:8], h.title() + "x", h + "%0a", h + "%00", "-".join([h[:16], h[16:]])])})
    return gets


def run_all(ck, cases, root):
    def one(ctx, item):
        k, c = item
        if "w" not in ctx:
            ctx["w"] = Worker(root / f"w{threading.get_ident()}")
        if c.gets is None:
            c.gets = default_gets(c.ups, random.Random(c.name))
        r = ctx["w"].ask(c.request(ctx["w"].cwd / "box"))
        if r is None:
            raise real.Machinery(f"{c.name}: the server did not end within its time, or died")
        if "error" in r:
            raise real.Machinery(f"{c.name}: " + r["error"])
        c.obs, c.streams = r["obs"], r["streams"]
    root.mkdir(parents=True, exist_ok=True)
    for p in (root, root.parent):
        os.chmod(p, 0o755)
    real.pmap(one, list(enumerate(cases)))


def event(e):
    if not isinstance(e, dict):
        return {"t": "malformed", "k": 0, "n": 0}
    if e.get("type") == "report-completed":
        return {"t": "completed" if isinstance(e.get("url"), str) and e["url"] else "malformed", "k": 0, "n": 0}
    if e.get("type") == "progress-update" and real.isint(e.get("fig_ndx")) and real.isint(e.get("num_figs")) and isinstance(e.get("phase"), str):
        return {"t": e["phase"], "k": e["fig_ndx"], "n": e["num_figs"]}
    return {"t": "malformed", "k": 0, "n": 0}


def payload(c):
    ups = [{"way": way, "doc": doc.record()} for doc, _, way, _ in c.ups]
    obs = []
    for o in c.obs:
        gets = []
        for g in o["gets"]:
            q = c.gets[g["g"]]
            x = {"of": q["of"], "kind": q["kind"], "code": g["code"], "num": 0, "rep": {"num": 0, "figs": []}}
            if g["code"] == 200:
                if q["kind"] == "report":
                    rep = g["num"] if isinstance(g["num"], dict) else {"num": 5, "figs": []}
                    tables = c.ups[q["of"] - 1][0].tables if q["of"] else []
                    x["rep"] = {"num": rep["num"], "figs": [{"key": real.codes(f["key"]), "tables": [k + 1 for k, t in enumerate(tables) if t[1] == f["num"]]} for f in rep["figs"]]}
                else:
                    x["num"] = g["num"]
            gets.append(x)
        obs.append({"a": o["a"], "n": o["n"], "st": o["st"], "code": o["code"], "evs": [event(e) for e in o["evs"]], "left": len(o["left"]), "outside": len(o["outside"]), "gets": gets})
    return {"ups": ups, "obs": obs, "whole": c.whole}


def judge(cases, root, chunk=400):
    st = {"generated": 0, "distinct": 0}
    for b in range(0, len(cases), chunk):
        batch = cases[b:b + chunk]
        f = root / f"srv{b}.json"
        f.write_text(json.dumps([payload(c) for c in batch]))
        r = tlc.run("ServerTrace", env={"SPEX_CASES": str(f)})
        f.unlink()
        n = 0
        for line in r.printed("J"):
            k, rest = line.split(" ", 1)
            batch[int(k) - 1].bad = {(p, int(a)) for p, a in re.findall(r'<<"(C\d+)", (\d+)>>', rest)}
            n += 1
        if n != len(batch):
            raise real.Machinery(f"{n} verdicts for {len(batch)} schedules")
        st["generated"] += r.generated - len(batch)
        st["distinct"] += r.distinct
    return st


def readable(c):
    res = {"uploads": [{"document": doc.label, "file name": fname.encode("utf-8", "backslashreplace").decode(), "way": way, "extra": extra, "contents": doc.data[:1500].decode("latin-1") if doc.kind == "html" else doc.label,
                        "expected": {k: v for k, v in doc.record().items() if k not in ("lint", "ids")}} for doc, fname, way, extra in c.ups], "actions": []}
    for o in c.obs or []:
        res["actions"].append({"do": f"{o['a']} {o['n']}", "events": o["evs"], "response": f"{o['st']} {o['code']} {o['note']}", "left": o["left"], "changed outside": o["outside"],
                               "requests": [f"{c.gets[g['g']].get('path') or c.gets[g['g']]['kind'] + ' of ' + str(c.gets[g['g']]['of'])}: {g['code']} {g['num'] if not isinstance(g['num'], dict) else g['num']['num']}" for g in o["gets"]][:20]})
    res["actions"] = res["actions"][:30]
    return res


def what(c, prop):
    k = min((a for p, a in c.bad if p == prop), default=0)
    if not k:
        return f"{c.name}: an upload's stream never ends"
    o = c.obs[k - 1]
    doc, fname, way, _ = c.ups[o["n"] - 1] if o["n"] else (Doc("the server", "html", b""), "", "ended and started again", {})
    gets = [f"{c.gets[g['g']].get('path') or c.gets[g['g']]['kind'] + ' of upload ' + str(c.gets[g['g']]['of'])}: {g['code']}" for g in o["gets"] if g["code"] != 200][:4]
    return (f"{c.name}: after {' '.join(s['a'] + str(s['n']) for s in c.sched[:k][-8:])} (upload {o['n']}: {doc.label} as {ascii(fname)[:60]}, {way}): response {o['st']} {o['code']} {o['note'][:80]}, events {[list(event(e).values()) for e in o['evs']]}"
            + (f", left behind {o['left'][:3]}" if o["left"] else "") + (f", changed outside {[os.path.basename(x) for x in o['outside']][:3]}" if o["outside"] else "") + (f", {gets}" if gets else ""))


def corruptions(cases, prop, rnd):
    res = []
    for c in cases:
        if len(res) >= 20:
            break
        for kind in {"C23": ["gone", "other"], "C24": ["left", "outside"], "C25": ["skip", "total", "late"], "C26": ["error", "early"], "C27": ["figure", "model"]}[prop]:
            y = Case(c.ups, c.sched, c.name + " " + kind, c.gets, c.whole)
            y.obs = copy.deepcopy(c.obs)
            hit = False
            for o in y.obs:
                good = [g for g in o["gets"] if g["code"] == 200]
                done = any(event(e)["t"] == "completed" for e in o["evs"])
                if kind in ("gone", "other") and good and done and o["n"] and c.ups[o["n"] - 1][0].ok:
                    mine = [g for g in good if c.gets[g["g"]]["of"] and c.ups[c.gets[g["g"]]["of"] - 1][0].hash == c.ups[o["n"] - 1][0].hash and c.gets[g["g"]]["kind"] != "report"]
                    if mine:
                        mine[0].update({"code": 404} if kind == "gone" else {"num": 12})
                        hit = True
                elif kind == "left" and o["st"] == "ended":
                    o["left"] = ["x"]
                    hit = True
                elif kind == "outside":
                    o["outside"] = ["x"]
                    hit = True
                elif kind == "skip" and {"a": "stop", "n": 0} not in c.sched and c.ups[o["n"] - 1][2] == "ok" and {"a": "abort", "n": o["n"]} not in c.sched and [e for e in o["evs"] if e.get("type") == "progress-update"]:
                    o["evs"].pop(0)
                    hit = True
                elif kind == "total" and [e for e in o["evs"] if e.get("type") == "progress-update"]:
                    o["evs"][0]["num_figs"] = o["evs"][0]["fig_ndx"]
                    hit = True
                elif kind == "late" and done:
                    o["evs"].append({"type": "progress-update", "phase": "json", "fig_ndx": 5, "num_figs": 9})
                    hit = True
                elif kind == "error" and [g for g in o["gets"] if g["code"] == 404 and not c.gets[g["g"]]["of"]]:
                    [g for g in o["gets"] if g["code"] == 404 and not c.gets[g["g"]]["of"]][0]["code"] = 500
                    hit = True
                elif kind == "early" and o["a"] == "post" and o["n"] == 1:
                    g = [g for g in o["gets"] if g["code"] == 404 and c.gets[g["g"]]["of"] and not c.ups[c.gets[g["g"]]["of"] - 1][0].ok]
                    if g:
                        g[0]["code"] = 200
                        hit = True
                elif kind in ("figure", "model"):
                    g = [g for g in good if c.gets[g["g"]]["kind"] == "report" and isinstance(g["num"], dict)]
                    if g and (kind == "model" or g[0]["num"]["figs"]):
                        if kind == "model":
                            g[0]["num"]["num"] += 1
                        else:
                            g[0]["num"]["figs"].pop()
                        hit = True
                if hit:
                    break
            if hit:
                res.append(y)
    return res


# ---------------------------------------------------------------- checks
def names(u, doc, rnd):
    """a file name for an upload of the model"""
    if u["way"] == "odd":
        n = rnd.choice(ODD)
        return n if doc.kind == "html" else n.replace(".html", ".docx")
    return ("spec" if u["name"] == "same" else rnd.choice(["other", "a b", "\u00fc", "x.y", "report", "0"])) + doc.suffix


def ways(u, rnd):
    """how an upload of the model is made"""
    x = {}
    if u["way"] == "nodoc":
        x = rnd.choice([{}, {"field": "file"}, {"field": "Document"}, {"field": "document "}, {"before": ["document"]}])
    elif u["way"] == "noaccept":
        x = {"accept": rnd.choice(["text/html", "application/json", "text/plain, image/*"])}
    else:
        x = {"accept": rnd.choice(["text/event-stream", "text/event-stream", "*/*", "text/*;q=0.5", "application/json, text/event-stream"])}
    if rnd.random() < .2:
        x["piece"] = rnd.choice([100, 1000, 4096])
    if rnd.random() < .1:
        x.setdefault("before", ["other"])
    return x


def model_schedules(ck, part, limit):
    r = tlc.run("MC_Server", cfgtext=CFG, env={"SPEX_PART": part})
    fam = [json.loads(line) for line in r.printed("D")]
    ck.tlc(r, f"MC_Server {part}", documents=len({json.dumps(f["ups"]) for f in fam}), schedules=len(fam), replayed=min(limit, len(fam)),
           invariants=["C23served", "C24gone", "C24stopped", "C25protocol", "C26none", "C23stays", "C26other", "Frame"], exhaustive=True)
    rnd = random.Random(f"{ck.prop}/{ck.seed}/{part}")
    return fam if len(fam) <= limit else rnd.sample(fam, limit)


def schedule_cases(ck, fam, part, worlds):
    res = []
    for k, f in enumerate(fam):
        rnd = random.Random(f"{ck.seed}/{part}/{k}")
        docs = worlds[k % len(worlds)]
        ups = [(docs[u["d"]], names(u, docs[u["d"]], rnd), u["way"], ways(u, rnd)) for u in f["ups"]]
        res.append(Case(ups, f["sched"], f"{part} {k}"))
    return res


def random_docs(ck, n, **kw):
    """documents of any contents, with what is to be expected of them"""
    def one(ctx, k):
        if "w" not in ctx:
            d = ck.root / f"l{threading.get_ident()}"
            d.mkdir(exist_ok=True)
            ctx["w"], ctx["d"] = real.Worker(d), d
        rnd = random.Random(f"srvdoc/{ck.seed}/{k}")
        p = dict(dict(tables=(1, 5), rows=(0, 4), depth=2, p_nest=.3, p_case=.4, p_dupe=.4, revs=["1.0"], titles=["Some Spec", "NVM Express Base Specification"]), **kw)
        big = k % 20 == 7                                # many figures, most of them with something to report
        if big:
            p.update(tables=(80, 90) if k % 40 == 7 else (180, 280), rows=(1, 2), depth=0, p_noid=0, p_untitled=.02, p_bad_layout=.8, p_soup=.4)
        elif rnd.random() < .3:
            # ids that are alike
            n = str(rnd.randint(1, 30))
            p["ids"] = rnd.choice([[n + "a", n + "A"], [n, "0" + n, n + "0"], [n + "-a", n + "-A", n], ["A." + n, "a." + n], [n + "é", n + "É", n + "e"], [n, n + ".", n + "a"]])
            p.update(tables=(2, 5), p_dupe=.8, p_noid=0, p_untitled=0, seps=(": ",))
        if big or rnd.random() < .6:
            doc = Doc(f"random {k}", "html", with_ids(gen.G(rnd, **p).doc()).encode())
        else:
            doc = Doc(f"random {k}", "docx", runchecks.docx_bytes(gen1.figures(rnd, **{x: y for x, y in p.items() if x not in ("revs", "titles")}), ctx["d"]))
        learn(ctx["w"], ctx["d"], doc)
        doc.path = ck.root / f"doc{k}.bin"
        doc.path.write_bytes(doc.data)
        return doc
    return [d for d in real.pmap(one, range(n)) if d.ok and single(d)]


def single(doc):
    """each table yields at most one figure: totals are greater than indices"""
    from lxml import etree
    n = len(srvread.html_root(doc.text.encode()).findall(".//table"))
    return doc.nj <= n


def long_case(ck, k, docs, n):
    """a long random schedule of many uploads"""
    rnd = random.Random(f"long/{ck.prop}/{ck.seed}/{k}")
    ups, sched, left = [], [], {}
    for j in range(n):
        doc = rnd.choice(docs)
        x = rnd.random()
        way, extra, fname = "ok", {}, rnd.choice(["spec", "spec", "a", f"n{j}"]) + doc.suffix
        if x < .08:
            way, fname = "odd", rnd.choice(ODD)
            if doc.kind == "docx":
                fname = fname.replace(".html", ".docx")
        elif x < .12:
            way = "nodoc"
        elif x < .16:
            way = "noaccept"
        elif x < .22:
            way, extra = "gone", {"piece": 50, "truncate": rnd.randrange(0, max(1, len(doc.data) // 50))}
        if rnd.random() < .25 and way == "ok":
            extra["hold"] = True                        # the start of its response is taken later
        if rnd.random() < .3 and way != "gone":
            extra["piece"] = rnd.choice([64, 1000, 5000])
        if way == "ok" and doc.kind == "html" and rnd.random() < .1:
            doc = late(doc, rnd.choice([".htm", ".HTML", ".xml"]))
            fname = "spec" + doc.suffix
        ups.append((doc, fname, way, extra))
    todo, active = list(range(1, n + 1)), {}
    while todo or active:
        if k % 2 and sched and rnd.random() < .02:
            sched.append({"a": "stop", "n": 0})         # the server ends and starts again
            active = {}
        elif todo and (not active or len(active) < 4 and rnd.random() < .4):
            j = todo.pop(0)
            sched.append({"a": "post", "n": j})
            doc, _, way, _ = ups[j - 1]
            if way in ("ok", "odd"):
                active[j] = doc.nh + doc.nj + (1 if doc.ok else 0)
        else:
            j = rnd.choice(list(active))
            if active[j] == 0:
                del active[j]
            elif rnd.random() < .05:
                sched.append({"a": "abort", "n": j})
                del active[j]
            else:
                sched.append({"a": "send", "n": j})
                active[j] -= 1
    c = Case(ups, sched, f"long {k}", whole=True)
    c.gets = default_gets(ups, rnd)
    # all reports are asked for at the end; some of them at other times
    for i, s in enumerate(sched):
        if i + 1 < len(sched) and i % 25:
            s["gets"] = rnd.sample(range(len(c.gets)), min(4, len(c.gets)))
    return c


def report_cases(ck):
    """C27: one document after another, through the whole of the server"""
    fams = [dict(module="MC_Nested", prefix="Nested", invariants=["C10", "Linked"]), dict(module="MC_Figures", prefix="Fig", invariants=["C01", "C02"])]
    docs = []
    for f in fams:
        r, cs = explore.family(f["module"], f["prefix"], f["invariants"])
        rnd = random.Random(f"C27/{ck.seed}/{f['module']}")
        cs = [c for c in cs if c.skip and c.exp["exit"] == 0]
        pick = rnd.sample(cs, min(len(cs), ck.pick(150, 1500)))
        ck.tlc(r, f["module"], documents=len(cs), invariants=f["invariants"], uploaded=len(pick), exhaustive=True)
        for k, c in enumerate(pick):
            docs.append(dict(html=with_ids(c.html), lint=["".join(map(chr, l["fig"])) for l in c.exp["lint"]], name=f"{f['module']} {k}"))

    def one(ctx, item):
        k, o = item
        if "w" not in ctx:
            d = ck.root / f"l{threading.get_ident()}"
            d.mkdir(exist_ok=True)
            ctx["w"], ctx["d"] = real.Worker(d), d
        doc = learn(ctx["w"], ctx["d"], Doc(o["name"], "html", o["html"].encode()))
        if doc.ok:
            doc.lint = sorted(set(o["lint"]))        # those of the specification
        doc.path = ck.root / f"rep{k}.bin"
        doc.path.write_bytes(doc.data)
        return doc
    return [d for d in real.pmap(one, list(enumerate(docs))) if d.ok]


def large(ck, doc, size, label):
    """the document with so many bytes, most of them comments at its end"""
    res = copy.copy(doc)
    n = 4096
    pad = b"\n<!--" + b"x" * (n - 8) + b"-->"
    more = size - len(doc.data)
    res.data = doc.data + pad * (more // n) + b" " * (more % n)
    res.label, res.hash = label, hashlib.md5(res.data).hexdigest()
    res.path = ck.root / f"{label}.bin"
    res.path.write_bytes(res.data)
    res.data = res.data[:5000]
    return res


def single_upload(doc, name, rnd, gets=None):
    n = doc.nh + doc.nj + 1
    c = Case([(doc, "spec" + doc.suffix, "ok", {})], [{"a": "post", "n": 1}] + [{"a": "send", "n": 1} for _ in range(n)], name)
    c.gets = gets or [{"g": 0, "of": 1, "kind": "report"}, {"g": 1, "of": 1, "kind": "report", "query": "?bundle=1"}, {"g": 2, "of": 1, "kind": "json"}, {"g": 3, "of": 1, "kind": "html"}]
    for s in c.sched[:-1]:
        s["gets"] = []
    return c


def check(ck):
    prop = ck.prop
    rnd = random.Random(f"{prop}/{ck.seed}")
    cases = []
    W = ck.pick(3, 8)
    if prop != "C27":
        worlds = real.pmap(lambda ctx, k: docs_for_schedules(ck, k), range(W))
        cases += schedule_cases(ck, model_schedules(ck, "pairs", ck.pick(1200, 10 ** 6)), "pairs", worlds)
        if prop in ("C24", "C26"):
            cases += schedule_cases(ck, model_schedules(ck, "lives", ck.pick(250, 6000)), "lives", worlds)
        cases += schedule_cases(ck, model_schedules(ck, "triples", ck.pick(300, 6000)), "triples", worlds)
    docs = random_docs(ck, ck.pick(60, 300))
    if not docs:
        raise real.Machinery("no random documents")
    if prop == "C27":
        docs += report_cases(ck)
        cases += [single_upload(d, d.label, rnd) for d in docs]
    else:
        cases += [long_case(ck, k, docs, ck.pick(30, 60)) for k in range(ck.pick(8, 60))]
        cases += [single_upload(d, d.label, rnd) for d in docs[:ck.pick(40, 300)]]
    if prop in ("C24", "C26"):
        # every odd name, for either kind of document
        for k, n in enumerate(ODD):
            for d in (worlds[k % W]["one"], worlds[k % W]["word"], worlds[k % W]["bad"]):
                m = d.nh + d.nj + (1 if d.ok else 0)
                for stop in range(m + 1) if prop == "C24" else [m]:
                    cases.append(Case([(d, n if d.kind == "html" else n.replace(".html", ".docx"), "odd", {})],
                                      [{"a": "post", "n": 1}] + [{"a": "send", "n": 1}] * stop + ([{"a": "abort", "n": 1}] if stop < m else []), f"odd name {k} {d.label} {stop}"))
    if prop == "C26":
        one = worlds[0]["one"]
        for x in ({}, {"chunked": True, "piece": 2 ** 16}):
            b = large(ck, one, LARGEST + 1, f"too large {len(x)}")
            cases.append(Case([(b, "spec.html", "big", x), (one, "spec.html", "ok", {})], [{"a": "post", "n": 1}] + [{"a": "post", "n": 2}] + [{"a": "send", "n": 2}] * (one.nj + 1), b.label))
    if prop in ("C23", "C25"):
        b = large(ck, worlds[0]["one"], LARGEST - 1000, "large")
        c = single_upload(b, "large", rnd)
        c.ups[0][3].update({"piece": 2 ** 16})
        cases.insert(0, c)
    run_all(ck, cases, ck.root / "srv")
    ck.traces(len(cases))
    st = judge(cases, ck.root)
    ck.cov["states"] += st["distinct"]
    ck.cov["transitions"] += st["generated"]
    ck.note(model="ServerTrace", schedules=len(cases), actions=sum(len(c.obs) for c in cases), requests=sum(len(o["gets"]) for c in cases for o in c.obs), states=st["distinct"],
            responses={str(x): sum(1 for c in cases for o in c.obs for g in o["gets"] if g["code"] == x) for x in (200, 404)},
            aborts=sum(1 for c in cases for s in c.sched if s["a"] == "abort"), documents=len(docs))
    for c in cases:
        if any(p == prop for p, _ in c.bad):
            ck.violation(what(c, prop), readable(c))
    good = [c for c in cases if not c.bad]
    bad = corruptions(rnd.sample(good, min(len(good), 200)), prop, rnd)
    judge(bad, ck.root)
    missed = [c for c in bad if prop not in {p for p, _ in c.bad}]
    ck.note(corrupted_records_rejected=len(bad) - len(missed))
    if (missed or not bad) and not ck.violations:
        raise real.Machinery(f"corrupted records were accepted: {[c.name for c in missed][:5]} of {len(bad)}")
    ck.sample(readable(cases[len(cases) // 2]))
    ck.sample(readable(cases[-1]))
