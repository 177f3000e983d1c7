"""C15, C16: histories of runs of the command."""
import hashlib, json, os, random, re, resource, shutil, signal, subprocess, threading, time
from pathlib import Path
from . import real, said, tlc, stage1, stage2, gen, gen1, s2checks, explore

CFG = """INIT Init
NEXT Next
CONSTANT Input <- InputDef
CONSTANT Hits <- HitsDef
{inv}
INVARIANT Export
CHECK_DEADLOCK FALSE
"""
INV = {"C30": ["C30announced", "C30ends", "C30lint"], "C15": ["C15exit", "C15lint", "C15prefix"], "C16": ["C16own", "C16history", "C16alone"]}
LIST = "T1001,T1002,T1004,T1006,L1000,L1003,L1004,R1001,V1002"
STEMS = [{}, {"good": "good one", "word": "w\u00f6rd", "other": "a&b's <c>", "fails": "x.json.html", "wordfails": "1.2.docx"},
         {"good": "G" * 60, "wordfails": "w\udcff\udce9", "fails": "x\udcff", "word": "-word", "other": "\u6587", "odd": "odd.tar %20#1"}]
ENVS = [{}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX"}, {"PYTHONHASHSEED": "1"}, {"PYTHONHASHSEED": "7", "TZ": "Asia/Tokyo"},
        {"COLUMNS": "20", "HOME": "/nonexistent"}, {"LC_ALL": "C", "LANG": "C", "PYTHONHASHSEED": "99"}]


digest = said.digest


def numbers(data):
    """(shape, deep) of the contents of a model file; 0: no model with a lint section"""
    rec = real.canon_model(data, 0)
    if not rec["haslint"]:
        return 0, 0
    del rec["why"], rec["exit"]
    return digest([rec["title"], rec["rev"], rec["mal"], [[e["id"], e["par"], e["title"], len(e["fields"])] for e in rec["out"]]]), digest(rec)


def html_number(data, css, stem):
    """number of an HTML model with its style sheet; 0: not one that refers to that sheet"""
    rec = stage1.read_model(data, css)
    if rec.pop("links") != [stage1.sheet(stem)]:
        return 0
    rec.pop("why", None)
    return digest(rec)


# ---------------------------------------------------------------- inputs
class In:
    """an input: its file (bytes) and what is known of it"""
    place = ""              # the directory it is in
    def __init__(self, sort, key, stem, data, html=None):
        self.key = key          # its name in the specification
        self.sort, self.stem, self.data, self.html = sort, stem, data, html
        self.suffix = {"html": ".html", "docx": ".docx", "json": ".json", "missing": ".html", "dir": ".html"}.get(sort, sort)
        if sort not in ("html", "docx", "json", "missing", "dir"):
            self.sort = "other"
        self.models, self.htmlno, self.size = [], 0, {}
        self.opens = self.rev = self.strict = self.skips = self.ok0 = self.ok1 = False

    @property
    def file(self):
        return self.stem + self.suffix

    def record(self):
        return {"sort": self.sort, "stem": self.key, "opens": self.opens, "rev": self.rev, "strict": self.strict, "skips": self.skips,
                "ok0": self.ok0, "ok1": self.ok1, "models": self.models, "html": self.htmlno}


def docx_bytes(doc, d, edit=None):
    f = d / f"x{time.time_ns()}.docx"
    stage1.write_docx(f, doc)
    b = f.read_bytes()
    f.unlink()
    return b


EMPTY = '<table><tr><td><p>Figure 77: Empty</p></td></tr><tr><th><p>Value</p></th><th><p>Definition</p></th></tr></table>'


def schema_ok(data):
    import jsonschema
    schema = json.loads((real.REPO / "src/spex/resources/stage2.schema.json").read_text(encoding="utf-8"))
    try:
        jsonschema.validate(json.loads(data.decode("utf-8")), schema)
        return True
    except (jsonschema.ValidationError, ValueError):
        return False


def fresh(argv, cwd, env=None, limit=None, crash=False, uid=None, timeout=120, stop=None, err=None):
    """a run in a process of its own; the exit status, or None if it does not end"""
    def pre():
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        if uid is not None:
            os.setgid(uid)
            os.setuid(uid)
    py = [real.PY, "-m", "spex"]
    if crash:       # ends at the write that exceeds the limit
        py = [real.PY, "-c", "import signal,sys; signal.signal(signal.SIGXFSZ, signal.SIG_DFL); sys.argv[0]='spex'; from spex.__main__ import main; main()"]
    p = subprocess.Popen(py + argv, cwd=cwd, env=real.env(**(env or {})), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                         stderr=subprocess.DEVNULL if err is None else subprocess.PIPE, preexec_fn=pre)
    if err is not None:         # (by a pipe: limits of files are none of it)
        t = threading.Thread(target=lambda: Path(err).write_bytes(p.stderr.read()))
        t.start()
    try:
        if stop is not None:
            sig, after = stop
            try:
                return p.wait(after)
            except subprocess.TimeoutExpired:
                p.send_signal(sig)
        return p.wait(timeout)
    except subprocess.TimeoutExpired:
        return None
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        if err is not None:
            t.join()
            p.stderr.close()


def reference(root, n, skip, ignore, w=None):
    """what a run on the input alone, in an empty directory, does"""
    d = root / f"ref{time.time_ns()}"
    (d / "out").mkdir(parents=True)
    (d / "in").mkdir()
    f = d / "in" / n.file
    f.write_bytes(n.data)
    argv = (["-s"] if skip else []) + (["--lint-ignore", ignore] if ignore else []) + ["-o", str(d / "out"), "--", str(f)]
    rc = w.call(argv) if w else fresh(argv, d, err=d / "err")
    r = {"rc": rc, "json": None, "html": None, "css": None}
    if not w:
        r["said"] = said.document((d / "err").read_bytes(), str(f), str(d / "out" / f"{n.stem}.json"))
    for k in ("json", "html", "css"):
        g = d / "out" / f"{n.stem}.{k}"
        if g.exists():
            r[k] = g.read_bytes()
    shutil.rmtree(d)
    return r


def learn(root, n, ck=None, judged=None):
    """fills in what is known of an input, by runs on it alone"""
    refs = {(s, g): reference(root, n, s, g) for s in (False, True) for g in ("", LIST)}
    a, b = refs[False, ""], refs[True, ""]
    n.strict, n.skips = a["rc"] == 0, b["rc"] == 0
    n.models = []
    for (s, g), r in refs.items():
        shape, deep = numbers(r["json"]) if r["json"] is not None else (0, 0)
        heard = r["said"]
        n.models.append({"skip": s, "ignore": "some" if g else "", "shape": shape, "deep": deep,
                         "said": digest(heard["said"]) if heard["said"] else 0,
                         "lint": len(real.canon_model(r["json"], 0)["lint"]) if r["json"] is not None else 0})
    best = b if n.skips else a
    if n.sort == "docx" and best["html"] is not None:
        n.htmlno = html_number(best["html"], best["css"].decode("utf-8", "replace"), n.stem)
        n.html = best["html"].decode("utf-8", "replace")
    n.size = {k: len(best[k]) for k in ("json", "html", "css") if best[k] is not None}
    n.lint = {l["code"] for l in real.canon_model(b["json"], 0)["lint"]} if b["json"] is not None else set()
    if n.skips:
        n.ok1 = schema_ok(b["json"])
    if n.strict:
        n.ok0 = schema_ok(a["json"])
    if judged is not None and n.html is not None and (n.skips or n.rev):
        for (s, g), r in refs.items():
            c = stage2.Case(html=n.html, skip=s, ignore=LIST.split(",") if g else (), name=f"{n.key} alone", focus=["C01", "C02", "C15", "C30"])
            c.rec = real.canon_model(r["json"], r["rc"])
            c.rec.update(r["said"])
            judged.append(c)


def world(root, seed, k, judged):
    """inputs 1..14 of MC_Run, of random contents"""
    d = root / f"world{k}"
    d.mkdir(parents=True, exist_ok=True)
    stem = lambda s: STEMS[k % len(STEMS)].get(s, s)
    rnd = random.Random(f"run/{seed}/{k}")
    prof = dict(tables=(3, 5), rows=(1, 4), p_soup=.05, revs=["1.0", "2.0c"], titles=["Some Spec", "NVM Express Base Specification"], p_case=.4, p_dupe=.4)

    w = real.Worker(d)

    def search(sort, name, good, odd=False, key=None):
        for t in range(200):
            r = random.Random(f"run/{seed}/{k}/{name}/{t}")
            if sort == "html":
                html = gen.G(r, **prof).doc()
                if odd:
                    html = html.replace("</body>", EMPTY + "</body>")
                n = In("html", key or name, stem(key or name), html.encode(), html)
            else:
                n = In("docx", key or name, stem(key or name), docx_bytes(gen1.figures(r, **{x: y for x, y in prof.items() if x not in ("revs", "titles")}), d))
            n.opens = n.rev = True
            # by a quick look first
            b = reference(d, n, True, "", w)
            if b["rc"] != 0:
                continue
            rec = real.canon_model(b["json"], 0)
            codes = {l["code"] for l in rec["lint"]}
            if not rec["out"] or ("T1000" in codes) == good or not codes & set(LIST.split(",")):
                continue
            if sort == "docx" and not any(ord(c) > 127 for c in b["html"].decode("utf-8")):
                continue
            learn(d, n, judged=judged)
            if n.skips and n.strict == good and (odd or n.ok1):
                return n
        raise real.Machinery(f"no document found for {name}")

    res = [search("html", "good", True), search("html", "fails", False), search("docx", "word", True), search("html", "other", True),
           search("html", "odd", True, odd=True), search("docx", "wordfails", False)]
    good = res[0].html
    broken = [good[:len(good) * 2 // 3].encode(), b"", good.encode("utf-16"), good.replace("<body>", "<body><p>\x01</p>").encode(), good.replace("</table>", "</tabel>", 1).encode(),
              good.replace("<body>", "<body>&nosuch;").encode(), good.replace("<body>", "<body>\u00e9").encode("latin-1", "replace"), b"PK\3\4 no HTML"]
    res.append(In("html", "broken", stem("broken"), rnd.choice(broken)))
    norev = good.replace("data-revision", "data-other", 1) if rnd.random() < .5 else good.replace("data-spec", "data-other", 1)
    n = In("html", "norev", stem("norev"), norev.encode())
    n.opens = True
    res.append(n)
    z = res[2].data
    bad = [b"", z[:len(z) // 2], b"no zip", z[:-30], z.replace(b"PK\5\6", b"PK\7\6")]
    res.append(In("docx", "wordbroken", stem("wordbroken"), rnd.choice(bad)))
    for t in range(100):
        doc = gen1.figures(random.Random(f"norev/{seed}/{k}/{t}"), tables=(1, 2))
        doc["hdr"] = [real.codes("Some Spec")]
        n = In("docx", "wordnorev", stem("wordnorev"), docx_bytes(doc, d))
        n.opens = True
        r = reference(d, n, True, "")
        if r["html"] is not None:
            n.htmlno = html_number(r["html"], r["css"].decode(), n.stem)
            n.size = {k: len(r[k]) for k in ("html", "css")}
            break
    else:
        raise real.Machinery("no docx without a revision found")
    res.append(n)
    m = reference(d, res[0], True, "")["json"]
    res += [In("json", "model", stem("model"), m), In(rnd.choice([".txt", "", ".HTML", ".htm", ".Docx", ".doc", ".xml"]), "text", stem("text"), good.encode()),
            In("missing", "none", stem("none"), None), In("dir", "dir", stem("dir"), None)]
    # others of the same names
    for sort, name, key in (("html", "goodtwin", "good"), ("docx", "wordtwin", "word")):
        res.append(search(sort, name, True, key=key))
        res[-1].place = name
    w.stop()
    shutil.rmtree(d)
    return res


# ---------------------------------------------------------------- histories
class Case:
    def __init__(self, runs, inputs, name="", how=None):
        """runs: those of the specification, inputs by number; how: ways of doing them"""
        self.runs, self.inputs, self.name, self.how = runs, inputs, name, how or {}
        self.seen = []
        self.accepted = False
        self.matched = 0

    def spec_runs(self):
        res = []
        for r in self.runs:
            res.append({**{k: r[k] for k in ("skip", "validate", "ignore", "usage", "out", "kill")}, "inputs": [self.inputs[n - 1].record() for n in r["inputs"]],
                        "hits": [list(f) for f in self.hits(r)]})
        return res

    def hits(self, r):
        if "hits_real" in r:
            return r["hits_real"]
        return [tuple(f) for f in r["hits"]]

    def path(self, out, f):
        return out / f"{[i.stem for i in self.inputs if i.key == f[0]][0]}.{f[1]}"


BADARGS = [["--no-such-option"], ["--lint-ignore=NOPE"], ["--lint-ignore="], ["--lint-ignore"], ["--lint-ignore=T1000;T1001"], ["--skip-figure-on-error=1"], ["--lint-ignore=L1000,"], ["--output"]]


def execute(ctx, case, d, shared):
    """do the runs of a case in directory d, and note what is seen"""
    rnd = random.Random(f"how/{case.name}")
    how = case.how
    ind, out, cwd = d / "in", d / "out", d / "cwd"
    for x in (ind, cwd):
        x.mkdir(parents=True)
    os.chmod(d, 0o755)
    used = sorted({n for r in case.runs for n in r["inputs"]})
    paths = {}
    for n in used:
        i = case.inputs[n - 1]
        f = ind / i.place / i.file
        f.parent.mkdir(exist_ok=True)
        if i.sort == "dir":
            f.mkdir()
        elif i.sort != "missing":
            f.write_bytes(i.data)
        if i.sort not in ("dir", "missing") and rnd.random() < .15:
            sub = ind / ("links" + i.place)
            sub.mkdir(exist_ok=True)
            (sub / i.file).symlink_to(f)
            f = sub / i.file
        paths[n] = f
    (ind / "afile").write_text("x")
    if rnd.random() < .5 or any(r["hits"] or "hits_real" in r for r in case.runs) or how.get("here"):
        out.mkdir()
    here = how.get("here", rnd.random() < .2)      # the output directory is the current one, by default
    if here:
        out.mkdir(exist_ok=True)
    before = listing(ind)
    for k, r in enumerate(case.runs):
        blocked = []
        if how.get("readonly") and k in how["at"]:
            for f in out.iterdir():
                os.chmod(f, 0o444)
            os.chmod(out, 0o555)
        if r["hits"] and "hits_real" not in r:
            for f in case.hits(r):
                g = case.path(out, f)
                if g.exists():
                    blocked.append((g, g.read_bytes()))
                    g.unlink()
                g.mkdir()
                (g / "x").write_text("in the way")
                if (g, None) not in blocked and not any(b[0] == g for b in blocked):
                    blocked.append((g, None))
        argv = []
        if r["skip"]:
            argv.append(rnd.choice(["-s", "--skip-figure-on-error"]))
        if r["validate"]:
            argv.append("--validate-json")
        elif rnd.random() < .1:
            argv.append("--no-validate-json")
        if r["ignore"]:
            argv += rnd.choice([["--lint-ignore", LIST], ["--lint-ignore=" + LIST.lower()], ["--lint-ignore=" + LIST.replace(",", " , ")]])
        if rnd.random() < .1:
            argv.append(rnd.choice(["-v", "--verbose", "--no-verbose"]))
        wd = out if here else cwd
        rel = lambda p: os.path.relpath(p, wd)
        form = rnd.random()
        if not r["out"]:
            argv += ["-o", str(ind / "afile") + rnd.choice(["", "/below"])]
        elif not here:
            argv += rnd.choice([["-o", str(out)], ["--output", rel(out)], ["-o" + str(out)], ["--output=" + rel(out) + "/"]])
        names = [str(paths[n]) if form < .5 else "./" + rel(paths[n]) if form < .9 else os.path.join(os.path.dirname(paths[n]), ".", os.path.basename(paths[n])) for n in r["inputs"]]
        if not r["usage"]:
            bad = rnd.choice(BADARGS)
            if bad[0] in ("--lint-ignore", "--output"):
                argv = argv + names + bad
                names = []
            else:
                argv = argv + bad
        given = list(names)
        argv += ["--"] + names if names and rnd.random() < .3 else names
        mode = how.get("mode", "worker")
        if mode == "worker":
            if ctx.get("runs", 0) > 400:       # now and then a new process
                ctx["w"].stop()
                ctx.pop("w")
                ctx["runs"] = 0
            if "w" not in ctx:
                e = shared["root"] / f"w{id(ctx)}"
                e.mkdir(parents=True, exist_ok=True)
                ctx["w"] = real.Worker(e)
            ctx["runs"] = ctx.get("runs", 0) + 1
            rc = ctx["w"].call(argv, 60, cwd=wd, err=d / "err")
        elif mode == "together":
            with_ = case.how["with"]
            od = d / "in2"
            od.mkdir(exist_ok=True)
            (od / with_.file).write_bytes(with_.data)
            other = []
            t = threading.Thread(target=lambda: other.append(fresh(["-s", "-o", str(out), "--", str(od / with_.file)], cwd)))
            t.start()
            rc = fresh(argv, wd, rnd.choice(ENVS), err=d / "err")
            t.join()
            case.together = other[0]
        else:
            os.chmod(wd, 0o777)
            rc = fresh(argv, wd, how["env"] if "env" in how else rnd.choice(ENVS), err=d / "err", **{k2: how[k2] for k2 in ("limit", "crash", "uid", "stop") if k2 in how and k in how.get("at", (0,))})
        for g, data in blocked:
            shutil.rmtree(g)
            if data is not None:
                g.write_bytes(data)
        case.seen.append(look(case, out, rc, before, ind, cwd, here))
        outs = [a for a in (out, rel(out), out.resolve()) for a in (str(a),)]
        heard = said.run((d / "err").read_bytes(), given, outs, [case.inputs[n - 1].stem + ".json" for n in r["inputs"]],
                         [g for g, n in zip(given, r["inputs"]) if case.inputs[n - 1].sort in ("missing", "dir")] if r["usage"] and r["out"] else ())
        case.seen[-1].update(heard)
        # the log, in the current directory
        whole = mode != "worker" and not any(k2 in how for k2 in ("limit", "crash", "stop", "readonly"))
        case.seen[-1]["logok"] = not whole or not said.log_wrong(wd / "spex.log", (d / "err").read_bytes())
        (d / "err").unlink()
        case.argv = getattr(case, "argv", []) + [argv]
    shutil.rmtree(d, ignore_errors=True)


def listing(d):
    res = []
    for f in sorted(d.rglob("*")):
        st = f.lstat()
        res.append((str(f.relative_to(d)), f.read_bytes() if f.is_file() else b"", st.st_mode, st.st_mtime_ns if f.is_file() and not f.is_symlink() else 0))
    return res


def look(case, out, rc, before, ind, cwd, here):
    files, strays, names = [], 0, {}
    for i in case.inputs:
        if i.sort in ("html", "docx"):
            names[i.stem + ".json"] = (i, "json")
        if i.sort == "docx":
            names[i.stem + ".html"] = (i, "html")
            names[i.stem + ".css"] = (i, "css")
    other = case.how.get("with")
    notes = []
    for f in sorted(out.iterdir()) if out.exists() else []:
        if here and f.name == "spex.log" or (other and f.name in (other.stem + ".json", other.stem + ".html", other.stem + ".css")):
            continue
        if f.name not in names or not f.is_file():
            strays += 1
            notes.append(ascii(f.name))
            continue
        i, suffix = names[f.name]
        if suffix == "json":
            shape, deep = numbers(f.read_bytes())
        elif suffix == "html":
            css = out / f"{i.stem}.css"
            shape = deep = html_number(f.read_bytes(), css.read_text(encoding="utf-8", errors="replace") if css.is_file() else "", i.stem)
        else:
            shape = deep = 0
        files.append({"f": [i.key, suffix], "shape": shape, "deep": deep})
    extra = [p.name for p in cwd.iterdir() if p.name != "spex.log"] if cwd.exists() else []
    strays += len(extra)
    return {"exit": 9 if rc is None else 0 if rc == 0 else 1, "files": files, "changed": listing(ind) != before, "strays": strays, "notes": notes + extra, "said": [], "logok": True}


LINE = re.compile(r"(A|P) (\d+)(?: (\d+))?")


def judge(cases, root, focus, chunk=1000):
    st = {"generated": 0, "distinct": 0}
    for b in range(0, len(cases), chunk):
        batch = cases[b:b + chunk]
        f = root / f"runs{b}.json"
        f.write_text(json.dumps([{"runs": c.spec_runs(), "focus": focus, "seen": [{k: v for k, v in s.items() if k != "notes"} for s in c.seen]} for c in batch]))
        r = tlc.run("RunTrace", env={"SPEX_CASES": str(f)})
        f.unlink()
        for kind in ("A", "P"):
            for line in r.printed(kind):
                m = line.split()
                c = batch[int(m[0]) - 1]
                if kind == "A":
                    c.accepted = True
                else:
                    c.matched = max(c.matched, int(m[1]))
        st["generated"] += r.generated - len(batch)
        st["distinct"] += r.distinct
    return st


def readable(case):
    t = []
    ok = lambda x: x.encode("utf-8", "backslashreplace").decode()
    for r, a, s in zip(case.runs, getattr(case, "argv", []), case.seen):
        t.append({"arguments": [ok(x) for x in a], "inputs": [ok(case.inputs[n - 1].file) for n in r["inputs"]], "hindered": [".".join(f) for f in case.hits(r)],
                  "seen": {"exit": s["exit"], "files": {".".join(f["f"]): f["deep"] for f in s["files"]}, "inputs changed": s["changed"], "other files": s["notes"]}})
    files = {}
    for r in case.runs:
        for n in r["inputs"]:
            i = case.inputs[n - 1]
            files[ok(i.file)] = {"known of it": {k: v for k, v in i.record().items()}, "contents": i.html[:3000] if i.html else None}
    return {"runs": t, "inputs": files, "how": {k: str(v)[:100] for k, v in case.how.items()}}


def what(case, focus):
    k = min(case.matched, len(case.runs) - 1)
    r, s = case.runs[k], case.seen[k]
    i = [case.inputs[n - 1] for n in r["inputs"]]
    files = {".".join(f["f"]): ("no complete model" if f["f"][1] == "json" and not f["deep"] else "present") for f in s["files"]}
    return (f"{case.name}, run {k + 1} of {len(case.runs)} on {' '.join(x.key for x in i)}"
            f"{' (hindered: ' + ' '.join('.'.join(f) for f in case.hits(r)) + ')' if case.hits(r) else ''}: exit {s['exit']}, files {files}"
            + (f", said {[(x['w'], x['k'], x['n'] if x['w'] == 'lint' else '') for x in s['said']]}, log {'right' if s['logok'] else 'wrong'}" if focus == "C30" else "")
            + (", inputs changed" if s["changed"] else "") + (f", other files {s['notes']}" if s["strays"] else ""))


def plain(inputs, **kw):
    return dict({"inputs": list(inputs), "skip": True, "validate": False, "ignore": "", "usage": True, "out": True, "hits": [], "kill": False}, **kw)


def corruptions(cases, focus, rnd):
    import copy
    res = []
    for c in cases:
        if len(res) >= 24 or not c.accepted:
            continue
        for kind in (["exit", "drop", "partial"] if focus == "C15" else ["silent", "number", "order", "log"] if focus == "C30" else ["drop", "other", "stray", "changed"]):
            y = Case(c.runs, c.inputs, c.name + " " + kind, c.how)
            y.seen = copy.deepcopy(c.seen)
            s = y.seen[-1]
            js = [f for f in s["files"] if f["f"][1] == "json" and f["deep"]]
            if kind == "exit":
                s["exit"] = 1 - s["exit"]
            elif kind == "silent" and s["said"]:
                s["said"].pop(0)
            elif kind == "number" and any(x["w"] == "lint" for x in s["said"]):
                [x for x in s["said"] if x["w"] == "lint"][0]["n"] += 1
            elif kind == "order" and len(s["said"]) > 1:
                s["said"][:2] = s["said"][1::-1]
            elif kind == "log":
                s["logok"] = False
            elif kind == "drop" and js and s["exit"] == 0:
                s["files"].remove(js[0])
            elif kind == "partial" and js and s["exit"] == 0:
                js[0]["shape"] = js[0]["deep"] = 0
            elif kind == "other" and js and s["exit"] == 0:
                js[0]["deep"] += 1
            elif kind == "stray":
                s["strays"] = 1
            elif kind == "changed":
                s["changed"] = True
            else:
                continue
            if y.runs[-1]["kill"]:
                continue
            res.append(y)
    return res


def check(ck):
    focus = ck.prop
    judged = []
    W = ck.pick(3, 9)
    worlds = real.pmap(lambda ctx, k: world(ck.root, ck.seed, k, judged), range(W))
    # the models of the reference runs are those of Stage2
    st = stage2.judge(judged, ck.root)
    ck.cov["states"] += st["distinct"]
    ck.cov["transitions"] += st["generated"] - len(judged)
    ck.traces(len(judged))
    ck.note(model="Stage2Trace", reference_runs=len(judged), worlds=W, states=st["distinct"])
    for c in judged:
        if c.verdict - {"C13"} - (set() if focus == "C30" else {"C30"}):
            ck.violation(f"{c.name}: the model is not that of the document ({' '.join(sorted(c.verdict))})", s2checks.readable(c))
    ck.inputs = worlds

    cases = []
    parts = {"C15": ["one", "fault", "usage"], "C16": ["hist", "fault"], "C30": ["one", "fault", "usage"]}[focus]
    for part in parts:
        if focus == "C30" and part != "usage":
            part_limit = ck.pick(700, 4000)
        else:
            part_limit = 10 ** 9
        r = tlc.run("MC_Run", cfgtext=CFG.format(inv="\n".join("INVARIANT " + i for i in INV[focus])), env={"SPEX_PART": part})
        n0 = len(cases)
        for line in r.printed("D"):
            o = json.loads(line)
            cases.append(Case(o["runs"], worlds[len(cases) % W], f"{part} {len(cases) - n0}"))
        ck.tlc(r, f"MC_Run {part}", documents=len(cases) - n0, invariants=INV[focus], exhaustive=True)
        if len(cases) - n0 > part_limit:
            cases[n0:] = random.Random(f"{focus}/{ck.seed}/{part}").sample(cases[n0:], part_limit)
    rnd = random.Random(f"{focus}/{ck.seed}")
    extra = []

    def add(runs, w, name, **how):
        extra.append(Case(runs, worlds[w], name, how))
    # the same in processes of their own, in various environments
    for c in rnd.sample(cases, min(len(cases), ck.pick(60, 600))):
        extra.append(Case(c.runs, c.inputs, c.name + " (fresh)", {"mode": "fresh"}))
    for w in range(W):
        for e, env in enumerate(ENVS):
            for s in ([1], [3], [2, 6, 3]) if focus == "C16" else ([3, 1], [6]):
                add([plain(s)], w, f"environment {e} {s} {w}", mode="fresh", env=env)
    if focus == "C30":
        # several runs, one after another in the same directory: the log is that of the last
        for k in range(ck.pick(60, 500)):
            n = rnd.randint(2, 3)
            add([plain([rnd.randint(1, 14) for _ in range(rnd.randint(1, 3))], skip=rnd.random() < .6, validate=rnd.random() < .3,
                       ignore=rnd.choice(["", "some"])) for _ in range(n)], k % W, f"log {k}", mode="fresh")
        for k in range(ck.pick(10, 100)):
            s = rnd.choice([[1], [3], [4, 3], [6, 1], [2]])
            add([plain(s, kill=True), plain(s[::-1])], k % W, f"killed {k}", mode="fresh", env={}, stop=(rnd.choice([signal.SIGKILL, signal.SIGTERM]), rnd.uniform(.3, .7)), at=(0,))
    elif focus == "C15":
        # the file size is limited: writing fails, or the process ends, at any point
        for w in range(W):
            for s in ([1], [3], [4, 3], [6]):
                sizes = {(worlds[w][n - 1].key, k): v for n in s for k, v in worlds[w][n - 1].size.items()}
                cuts = sorted({v - 1 for v in sizes.values()} | {v for v in sizes.values()} | {rnd.randrange(max(sizes.values())) for _ in range(ck.pick(2, 20))} | {0})
                for c in rnd.sample(cuts, min(len(cuts), ck.pick(6, 30))):
                    hits = [f for f, v in sizes.items() if v > c]
                    add([plain(s, hits=[0] if hits else [], hits_real=hits, validate=rnd.random() < .3)], w, f"limit {c} {s} {w}", mode="fresh", env={}, limit=c)
                    add([plain(s), plain(s, ignore="some", kill=True)], w, f"crash {c} {s} {w}", mode="fresh", env={}, limit=c, crash=True, at=(1,))
        for k in range(ck.pick(24, 300)):
            sig = rnd.choice([signal.SIGKILL, signal.SIGINT, signal.SIGTERM])
            s = rnd.choice([[1], [3], [4, 3], [6, 1]])
            add([plain(s, kill=True, validate=rnd.random() < .5), plain(s[::-1])], k % W, f"killed {k}", mode="fresh", env={}, stop=(sig, rnd.uniform(.05, .6)), at=(0,))
    else:
        # others at work in the same directory
        for k in range(ck.pick(12, 120)):
            w = k % W
            s = rnd.choice([[1], [3], [1, 4]])
            add([plain(s)], w, f"together {k}", mode="together", **{"with": rnd.choice([worlds[w][1], worlds[w][5]])})
    if os.getuid() == 0 and focus != "C30":
        # not permitted: directories and files of another user
        for w in range(W):
            for s in ([1], [3], [4, 3]):
                hits = [(worlds[w][n - 1].key, k) for n in s for k in worlds[w][n - 1].size]
                add([plain(s), plain(s, ignore="some", hits=[0], hits_real=hits)], w, f"permission {s} {w}", mode="fresh", env={}, uid=65534, at=(1,), readonly=True)
    os.chmod(ck.root, 0o755)
    shared = {"root": ck.root / "workers"}
    todo = cases + extra

    def one(ctx, item):
        k, c = item
        execute(ctx, c, ck.root / f"h{k}", shared)
    real.pmap(one, list(enumerate(todo)))
    ck.traces(sum(len(c.runs) for c in todo))
    st = judge(todo, ck.root, focus)
    ck.cov["states"] += st["distinct"]
    ck.cov["transitions"] += st["generated"]
    ck.note(model="RunTrace", histories=len(todo), runs=sum(len(c.runs) for c in todo), states=st["distinct"],
            ways={m: sum(1 for c in todo if c.how.get("mode", "worker") == m) for m in ("worker", "fresh", "together")},
            exits={str(x): sum(1 for c in todo for s in c.seen if s["exit"] == x) for x in (0, 1, 9)})
    for c in todo:
        if not c.accepted:
            ck.violation(what(c, focus), readable(c))
        if c.how.get("mode") == "together" and (c.together == 0) != c.how["with"].skips:
            ck.violation(f"{c.name}: the run at the same time on {c.how['with'].key} ended with {c.together}", readable(c))
    bad = corruptions(rnd.sample(todo, min(len(todo), 60)), focus, rnd)
    judge(bad, ck.root, focus)
    ck.note(corrupted_records_rejected=sum(1 for c in bad if not c.accepted))
    missed = [c for c in bad if c.accepted]
    if (missed or not bad) and not ck.violations:
        raise real.Machinery(f"corrupted records were accepted: {[c.name for c in missed][:5]}")
    ck.sample(readable(todo[len(cases) // 2]))
    ck.sample(readable(extra[0]))
