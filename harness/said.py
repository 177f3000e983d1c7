"""What the command says: its messages on standard error, and its log."""
import ast, hashlib, json, re
from pathlib import Path
from . import real

MARK = re.compile("(?:\x1b\\[[0-9;]*m)*\u2022(?:\x1b\\[[0-9;]*m)* ?")
ANSI = re.compile("\x1b\\[[0-9;]*m")


def text(data):
    t = data.decode("utf-8", "backslashreplace")
    return t.replace("\\u2022", "\u2022")          # of a terminal that has no bullet


def messages(data):
    """the first lines of the messages, in order"""
    return [ANSI.sub("", l[m.end():]) for l in text(data).split("\n") if (m := MARK.match(l))]


def forms(s):
    """a text as it may appear, depending on the encoding of the terminal"""
    raw = s.encode("utf-8", "surrogateescape").decode("ascii", "surrogateescape")     # of file names, where the file system is taken to be ASCII
    return {x.encode(e, "backslashreplace").decode() for x in (s, raw) for e in ("utf-8", "ascii")}


def literal(s):
    try:
        return ast.literal_eval(s)
    except (ValueError, SyntaxError):
        return None


def codes(x):
    return real.codes(x) if isinstance(x, str) else real.NONE if x is None else [-2]


def figure(kind, s):
    e = literal(s)
    if not isinstance(e, dict):
        return {"w": kind, "id": [-2], "par": [-2], "title": [-2]}
    return {"w": kind, "id": codes(e.get("fig_id", 0)), "par": codes(e.get("parent_fig_id")), "title": codes(e.get("title"))}


def parse(lines):
    """-> list of (sort, value)"""
    res = []
    for l in lines:
        if m := re.match(r"parsing '(.*)'\.\.\.$", l):
            res.append(("parsing", m[1]))
        elif m := re.match(r"failed extracting title from figure header (.*)$", l):
            res.append(("head", {"w": "head", "id": real.NONE, "par": real.NONE, "title": codes(literal(m[1]) if isinstance(literal(m[1]), str) else 0)}))
        elif m := re.match(r"failed parsing figure (.*)$", l):
            res.append(("failed", figure("failed", m[1])))
        elif m := re.match(r"  in (.*)$", l):
            res.append(("in", figure("in", m[1])))
        elif m := re.match(r"Encountered (\d+) linting errors during processing, see `(.*)`$", l):
            res.append(("lint", (int(m[1]), m[2])))
        elif l.startswith("Program exited in error!"):
            res.append(("sorry", None))
        else:
            res.append(("other", l))
    return res


def document(err, src, out):
    """messages of a run on one document"""
    ms = [m for m in parse(messages(err)) if m[0] != "other"]
    order = [{"parsing": 0, "head": 1, "failed": 1, "in": 1, "lint": 2, "sorry": 3}[k] for k, _ in ms]
    return {"said": [v for k, v in ms if k in ("head", "failed", "in")],
            "told": [{"n": v[0], "path": v[1] in forms(out)} for k, v in ms if k == "lint"],
            "announced": bool(ms) and order == sorted(order) and ms[0][1] in forms(src) and sum(1 for k, _ in ms if k == "parsing") == 1,
            "sorry": sum(1 for k, _ in ms if k == "sorry")}


def digest(o):
    return int(hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()[:7], 16) + 1


def run(err, given, outs, models, gone=()):
    """messages of a run on the inputs given (arguments), as RunTrace has them:
    k is the number of the input spoken of"""
    res, k, figs = [], 0, []

    def flush():
        nonlocal figs
        if figs:
            res.append({"w": "figures", "k": k, "n": digest(figs)})
        figs = []
    lines = text(err).split("\n")
    ms = []
    for l in lines:
        if m := MARK.match(l):
            ms += parse([ANSI.sub("", l[m.end():])])
        elif l.startswith("cannot operate on NVMe model"):
            ms.append(("refused", None))
        elif m := re.match(r"invalid input file \((.*)\), requires", l):
            ms.append(("refused", m[1]))
    for w, v in ms:
        if w in ("head", "failed", "in"):
            figs.append(v)
            continue
        flush()
        if w == "parsing":
            k += 1
            right = k <= len(given) and v in forms(str(Path(given[k - 1])))
            res.append({"w": w, "k": k if right else -k, "n": 0})
        elif w == "lint":
            right = 0 < k <= len(models) and any(v[1] in forms(str(Path(o) / models[k - 1])) for o in outs)
            res.append({"w": w, "k": k if right else -k, "n": v[0]})
        elif w == "sorry":
            res.append({"w": w, "k": 0, "n": 0})
        elif w == "refused":
            res.append({"w": w, "k": k if v is None or 0 < k <= len(given) and v in forms(str(Path(given[k - 1]))) else -k, "n": 0})
    flush()
    if not res and text(err).strip():
        # what is wrong is said in other ways: the input that is missing is named
        named = not gone or any(f in text(err) for g in gone for f in forms(str(Path(g))))
        res.append({"w": "usage" if named else "usage without the name", "k": 0, "n": 0})
    return {"said": res}


def log_wrong(f, err):
    """what is wrong with the log of a run"""
    try:
        entries = [json.loads(l) for l in f.read_text(encoding="utf-8").split("\n")[:-1]]
    except (OSError, ValueError) as x:
        return f"unreadable: {x}"
    if not all(isinstance(e, dict) and isinstance(e.get("level"), str) and isinstance(e.get("msg"), str) for e in entries):
        return "entries without level or message"
    # the messages of the user, one entry each
    mine = [e["msg"].split("\n")[0] for e in entries if e["level"].startswith("U_")]
    shown = messages(err)
    if len(mine) != len(shown) or any(s not in forms(m) for m, s in zip(mine, shown)):
        return f"messages {mine[:5]} in the log, {shown[:5]} shown"
    if any(m.startswith("Program exited in error!") for m in mine):
        xs = [e["exception"] for e in entries if "exception" in e]
        if not xs or not all(x.get("type") and isinstance(x.get("msg"), str) and x.get("frames") for x in xs):
            return "no exception for a run that failed"
    return ""
