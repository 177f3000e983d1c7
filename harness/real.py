"""Driving the real code of /repo and putting what it wrote in the form of the
specification."""
import json, os, queue, subprocess, sys, tempfile, threading, select, shutil, unicodedata
from pathlib import Path
from lxml import etree

REPO = Path(os.environ.get("SPEX_REPO", "/repo"))
PY = "/opt/venv/bin/python"
HERE = Path(__file__).resolve().parent


class Machinery(Exception):
    """Something other than the code under test failed."""


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
    e.update(PYTHONPATH=str(REPO / "src"), PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
    e.update(kw)
    return e


def scratch(prefix="vspex."):
    return Path(tempfile.mkdtemp(prefix=prefix))


# ---------------------------------------------------------------- running
class Worker:
    def __init__(self, cwd, environ=None):
        self.cwd = cwd
        self.environ = environ or {}
        self.p = None

    def start(self):
        self.p = subprocess.Popen([PY, str(HERE / "worker.py")], cwd=self.cwd, env=env(**self.environ), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, encoding="utf-8")
        r = self._read(60)
        if r is None or "fatal" in r:
            raise ImportFailure(r and r["fatal"])

    def _read(self, timeout):
        ready, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not ready:
            return None
        line = self.p.stdout.readline()
        return json.loads(line) if line else None

    def call(self, argv, timeout=60, cwd=None, err=None):
        """exit status, or None when the run does not end (or kills the process)"""
        if self.p is None:
            self.start()
        try:
            req = {"argv": argv}
            if cwd is not None:
                req["cwd"] = str(cwd)
            if err is not None:
                req["err"] = str(err)
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            r = self._read(timeout)
        except (BrokenPipeError, OSError):
            r = None
        if r is None:
            self.stop()
            return None
        return r["exit"]

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None


UNSTEADY = []       # runs that failed, and then did not


def steadily(run, what):
    """exit status of run(); a run that fails is repeated, so that a fault of
    the surroundings (memory, disk) is not taken for the outcome"""
    rc = run()
    if rc is None or rc == 0:
        return rc
    again = run()
    if again is None or (again == 0) == (rc == 0):
        return rc
    UNSTEADY.append(what)
    return run()


STALE = ('<!DOCTYPE html>\n<html lang="en"><head><meta charset="utf-8"/><meta data-spec="Stale"/><meta data-revision="0"/></head><body><table><tr><td>Figure 1: Stale</td></tr>'
         "<tr><th>Value</th><th>Definition</th></tr>" + "<tr><td>0h</td><td>Stale: stale</td></tr>" * 400 + "</table></body></html>\n").encode()


def litter(d, *names):
    """files of earlier times beside those of a run"""
    for n in names:
        (d / n).write_bytes(STALE)


def fresh(f):
    """contents of an output file, None if it was not written"""
    data = f.read_bytes() if f.exists() else None
    return None if data == STALE else data


class ImportFailure(Exception):
    pass


def pmap(fn, items, n=8):
    """fn(worker directory index, item) on n threads, results in order"""
    items = list(items)
    res = [None] * len(items)
    q = queue.SimpleQueue()
    for i in range(len(items)):
        q.put(i)
    errs = []

    def loop(k):
        ctx = {}
        try:
            while not errs:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    break
                res[i] = fn(ctx, items[i])
        except BaseException as e:
            errs.append(e)
        finally:
            for v in ctx.values():
                if hasattr(v, "stop"):
                    v.stop()
    ts = [threading.Thread(target=loop, args=(k,)) for k in range(min(n, max(1, len(items))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res


# ---------------------------------------------------------------- texts
def codes(s):
    return [ord(c) for c in s]


NONE = [-1]


def uni_table(used):
    """properties of the non-ASCII characters in use"""
    res = []
    used = {c for c in used if 128 <= c < 0x110000}
    while True:
        more = {ord(x) for c in used for v in (chr(c).upper(), chr(c).lower()) for x in v} - used
        if not more:
            break
        used |= more
    for c in sorted(x for x in used if x >= 128):
        ch = chr(c)
        d = unicodedata.decimal(ch, -1)
        u, l = ch.upper(), ch.lower()
        res.append({"c": c, "w": ch.isalnum(), "s": ch.isspace(), "d": d,
                    "u": [ord(x) for x in u], "l": [ord(x) for x in l]})
    return res


def collect(o, used):
    """all code points in lists of integers of o"""
    if isinstance(o, dict):
        for v in o.values():
            collect(v, used)
    elif isinstance(o, list):
        if o and isinstance(o[0], int):
            used.update(o)
        else:
            for v in o:
                collect(v, used)


# ---------------------------------------------------------------- HTML models
def node(e):
    def num(v, d=1):
        try:
            return int(v)
        except (TypeError, ValueError):
            return d
    kids = [c for c in e if isinstance(c.tag, str)]
    return {"t": e.tag, "x": codes(e.text or ""), "k": [node(c) for c in kids], "z": codes(e.tail or ""),
            "cs": num(e.get("colspan")), "rs": num(e.get("rowspan")), "hc": e.get("colspan") is not None,
            "id": NONE if e.get("id") is None else codes(e.get("id"))}


def read_html(text):
    """HTML model text -> document of the specification"""
    root = etree.fromstring(text.encode("utf-8"), etree.XMLParser(remove_comments=True, remove_pis=True, huge_tree=True))
    meta = [m for m in root.findall("./head/meta") if m.get("data-spec") is not None][0]
    rev = [m for m in root.findall("./head/meta") if m.get("data-revision") is not None][0]
    return {"title": codes(meta.get("data-spec").lower()), "rev": codes(rev.get("data-revision").lower()),
            "body": node(root.find("./body"))}


# ---------------------------------------------------------------- NVMe models
class Mal:
    def __init__(self):
        self.n = []

    def bad(self, why):
        self.n.append(why)

    def text(self, v, what):
        if isinstance(v, str):
            return codes(v)
        self.bad(f"{what}: {v!r} is not text")
        return codes("<malformed>")

    def opt(self, d, k, what):
        return self.text(d[k], what + "." + k) if k in d else NONE

    def keys(self, d, allowed, required, what):
        if not isinstance(d, dict):
            self.bad(f"{what}: {d!r} is not an object")
            return {}
        for k in d:
            if k not in allowed:
                self.bad(f"{what}: unknown key {k!r}")
        for k in required:
            if k not in d:
                self.bad(f"{what}: no {k!r}")
        return d


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def canon_field(f, kind, mal):
    if kind == "values":
        f = mal.keys(f, {"val", "label", "brief"}, ("val", "label"), "field")
        rng = {"k": "val", "lo": mal.text(f.get("val", ""), "val"), "hi": []}
    else:
        f = mal.keys(f, {"range", "label", "brief"}, ("range", "label"), "field")
        r = f.get("range", "")
        if isinstance(r, str):
            rng = {"k": "text", "lo": codes(r), "hi": []}
        elif isinstance(r, dict) and set(r) == {"low", "high"} and isint(r["low"]) and isint(r["high"]):
            rng = {"k": "int", "lo": codes(str(r["low"])), "hi": codes(str(r["high"]))}
        elif isinstance(r, dict) and set(r) == {"low", "high"} and isinstance(r["low"], str) and isinstance(r["high"], str):
            rng = {"k": "str", "lo": codes(r["low"]), "hi": codes(r["high"])}
        else:
            mal.bad(f"range {r!r}")
            rng = {"k": "bad", "lo": [], "hi": []}
    return {"rng": rng, "label": mal.text(f.get("label", ""), "label"), "brief": mal.opt(f, "brief", "field")}


def canon_entity(e, mal):
    e = mal.keys(e, {"title", "fig_id", "parent_fig_id", "type", "fields"}, ("fig_id", "type", "fields"), "entity")
    kind = e.get("type")
    if not isinstance(kind, str):
        mal.bad("type")
        kind = "?"
    fs = e.get("fields", [])
    if not isinstance(fs, list):
        mal.bad("fields")
        fs = []
    return {"id": mal.text(e.get("fig_id", ""), "fig_id"), "par": mal.opt(e, "parent_fig_id", "entity"),
            "title": mal.opt(e, "title", "entity"), "type": kind, "fields": [canon_field(f, kind, mal) for f in fs]}


def canon_lint(l, mal):
    l = mal.keys(l, {"code", "msg", "fig", "context", "row"}, ("code", "msg", "fig", "context"), "lint")
    ctx = []
    c = l.get("context", {})
    if not isinstance(c, dict):
        mal.bad("context")
        c = {}
    for k in sorted(c):
        v = c[k]
        if k == "columns" and isinstance(v, list):
            ctx.append({"k": k, "v": [mal.text(x, k) for x in v]})
        else:
            ctx.append({"k": k, "v": [mal.text(v, k)]})
    return {"code": l["code"] if isinstance(l.get("code"), str) else "?", "msg": mal.text(l.get("msg", ""), "msg"),
            "fig": mal.text(l.get("fig", ""), "fig"), "row": mal.opt(l, "row", "lint"), "ctx": ctx}


def canon_model(data, exit_):
    """bytes of a model file (None: there is none) -> record of a run"""
    mal = Mal()
    # any failure status is alike; 99: the run did not end
    rec = {"exit": 99 if exit_ is None else 0 if exit_ == 0 else 1, "haslint": False, "hasmodel": data is not None,
           "title": NONE, "rev": NONE, "out": [], "lint": [], "mal": 0}
    if data is not None:
        try:
            def pairs(p):
                d = {}
                for k, v in p:
                    if k in d:
                        raise ValueError(f"duplicate key {k!r}")
                    d[k] = v
                return d
            model = json.loads(data.decode("utf-8"), object_pairs_hook=pairs)
        except (UnicodeDecodeError, ValueError) as x:
            mal.bad(f"not UTF-8 JSON: {x}")
            model = None
        if model is not None:
            model = mal.keys(model, {"meta", "entities"}, ("meta", "entities"), "model")
            meta = mal.keys(model.get("meta", {}), {"specification", "revision", "format version", "spex version", "lint"},
                            ("specification", "revision", "format version", "spex version"), "meta")
            rec["title"] = mal.opt(meta, "specification", "meta")
            rec["rev"] = mal.opt(meta, "revision", "meta")
            if meta.get("format version") != 1 or not isint(meta.get("format version")):
                mal.bad("format version")
            if not isinstance(meta.get("spex version"), str) or not meta.get("spex version"):
                mal.bad("spex version")
            es = model.get("entities", [])
            if not isinstance(es, list):
                mal.bad("entities")
                es = []
            rec["out"] = [canon_entity(e, mal) for e in es]
            if "lint" in meta:
                rec["haslint"] = True
                ls = meta["lint"]
                if not isinstance(ls, list):
                    mal.bad("lint")
                    ls = []
                rec["lint"] = [canon_lint(l, mal) for l in ls]
    rec["mal"] = len(mal.n)
    rec["why"] = mal.n[:3]
    return rec
