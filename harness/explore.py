"""Bounded models: TLC explores a family of documents exhaustively and writes
out each of them with the outcome the specification gives it; the real program
is run on each and must have the same outcome."""
import json, time
from . import real, tlc, stage2

CFG = """INIT Init
NEXT Next
CONSTANT Doc <- DocOf
CONSTANT Build <- {b}Build
CONSTANT Choices <- {b}Choices
CONSTANT Uni <- {uni}
INVARIANT StackOK
INVARIANT EntitiesConform
{inv}
INVARIANT Export
PROPERTY Monotone
CHECK_DEADLOCK FALSE
"""


def bag(ls):
    return sorted(json.dumps(l, sort_keys=True) for l in ls)


def expected_equal(exp, rec):
    """does a recorded run have the outcome of the specification?"""
    if rec["exit"] != exp["exit"] or rec["mal"]:
        return False
    if rec["out"] != exp["out"]:
        return False
    if exp["exit"] == 0:
        if not rec["haslint"]:
            return False
        strip = [{k: v for k, v in l.items() if k != "msg"} for l in rec["lint"]]
        if bag(strip) != bag(exp["lint"]):
            return False
    return True


def family(module, prefix, invariants, env=None, uni="UniNone", export="Export", timeout=850, heap="8g", workers=8):
    """-> (TLC result, cases with the outcome expected of them)"""
    cfg = CFG.format(b=prefix, uni=uni, inv="\n".join("INVARIANT " + i for i in invariants)).replace("INVARIANT Export", "INVARIANT " + export)
    r = tlc.run(module, cfgtext=cfg, env=env, timeout=timeout, heap=heap, workers=workers)
    base = [json.loads(l) for l in r.printed("B")]
    htmls = {}
    cases = []
    for k, line in enumerate(r.printed("D")):
        o = json.loads(line)
        argv = []
        html = None
        if not o["doc"]:
            o["doc"] = base[0]
            html = htmls.setdefault(0, stage2.to_html(base[0]))
        if o.get("option", real.NONE) != real.NONE:
            argv = ["--lint-ignore", "".join(map(chr, o["option"]))]
        c = stage2.Case(html=html, doc=o["doc"], skip=o["skip"], ignore=o.get("ignore", ()), argv=argv, name=f"{module} {k}")
        c.doc = None           # to be read from the HTML if it has to be judged
        c.exp = {x: o[x] for x in ("exit", "out", "lint", "said")}
        c.cov = set(o["cov"])
        c.valid = not o.get("option") or o["exit"] == 0
        cases.append(c)
    r.out = ""
    return r, cases


def show(o):
    """a run's outcome in readable form"""
    t = lambda s: None if s == real.NONE else "".join(map(chr, s))
    def rng(r):
        return t(r["lo"]) if r["k"] in ("val", "text") else [r["k"], t(r["hi"]), t(r["lo"])]
    return {"exit": o["exit"],
            "entities": [{"id": t(e["id"]), "parent": t(e["par"]), "title": t(e["title"]), "type": e["type"],
                          "fields": [[rng(f["rng"]), t(f["label"]), t(f["brief"])] for f in e["fields"]]} for e in o["out"]],
            "lint": [[l["code"], t(l["fig"]), t(l["row"])] + [[c["k"]] + [t(v) for v in c["v"]] for c in l["ctx"]] for l in o["lint"]]}
