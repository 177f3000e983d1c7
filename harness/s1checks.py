"""The checks of the first stage (docx -> HTML model), C17-C22 and C31."""
import copy, json, random
from . import real, tlc, stage1, gen1

CFG = """INIT Init
NEXT Next
CONSTANT Docx <- DocxOf
CONSTANT Build <- {b}Build
CONSTANT Choices <- {b}Choices
CONSTANT Uni <- UniNone
INVARIANT FramesOK
INVARIANT WellNested
{inv}
INVARIANT Export
PROPERTY Monotone
CHECK_DEADLOCK FALSE
"""


def family(module, prefix, invariants, timeout=850, heap="8g"):
    cfg = CFG.format(b=prefix, inv="\n".join("INVARIANT " + i for i in invariants))
    r = tlc.run(module, cfgtext=cfg, timeout=timeout, heap=heap)
    cases = []
    for k, line in enumerate(r.printed("D")):
        o = json.loads(line)
        c = stage1.Case(o["doc"], f"{module} {k}")
        c.exp = {"ev": o["ev"], "title": o["title"], "rev": o["rev"]}
        c.cov = set(o["cov"])
        cases.append(c)
    r.out = ""
    return r, cases


def as_expected(c):
    r = dict(c.rec)
    # what is left open is as it should be
    r["ev"] = [dict(v, k=[-2]) if x["k"] == [-2] else v for v, x in zip(r["ev"], c.exp["ev"])] + r["ev"][len(c.exp["ev"]):]
    return r["wf"] and not r["mal"] and r["links"] == [stage1.sheet(c.stem)] and all(r[k] == c.exp[k] for k in c.exp)


def readable(c):
    res = {"name": ascii(c.stem), "docx": c.doc if len(json.dumps(c.doc)) < 30000 else f"<{c.name}>", "real": stage1.show(c.rec), "malformed": c.rec["why"]}
    if c.exp:
        res["expected"] = stage1.show(c.exp)
    return res


def what(c):
    if not c.rec["wf"]:
        return c.rec["why"][0]
    if c.rec["links"] != [stage1.sheet(c.stem)]:
        return f"the HTML model of {ascii(c.stem)}.docx refers to {[bytes(l) for l in c.rec['links']]} as its style sheet, and not to the one written"
    a = stage1.show(c.rec)
    if c.exp:
        b = stage1.show(c.exp)
        for k in ("title", "revision"):
            if a[k] != b[k]:
                return f"{k} {a[k]!r}, expected {b[k]!r}"
        x, y = a["events"], b["events"]
        n = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        n = max(0, n - 40)
        if x != y:
            return f"...{x[n:n + 120]}... expected ...{y[n:n + 120]}..."
    return f"{c.rec['why']} {a['title']} {a['revision']} {a['events'][:200]}"


# corruptions of a record that the clause of a property must reject
def corrupt(c, kind):
    d = stage1.Case(c.doc, "corrupted " + c.name)
    d.stem = c.stem
    d.rec = R = copy.deepcopy(c.rec)
    ev = R["ev"]
    idx = lambda *es: [i for i, v in enumerate(ev) if v["e"] in es]
    if kind == "rowspan" and idx("cell"):
        ev[idx("cell")[-1]]["r"] += 1
    elif kind == "drop-cell" and idx("/cell"):
        i = next((i for i in idx("cell") if ev[i + 1]["e"] == "/cell"), None)
        if i is None:
            return None
        del ev[i:i + 2]
    elif kind == "drop-text" and idx("text"):
        del ev[idx("text")[-1]]
    elif kind == "alter-text" and idx("text"):
        ev[idx("text")[0]]["x"] = ev[idx("text")[0]]["x"] + [32]
    elif kind == "list-tag" and idx("list"):
        v = ev[idx("list")[0]]
        v["t"] = "ul" if v["t"] == "ol" else "ol"
    elif kind == "list-split" and idx("/li"):
        i = next((i for i in idx("/li") if ev[i + 1]["e"] == "li"), None)
        if i is None:
            return None
        ev[i + 1:i + 1] = [stage1.ev("/list"), stage1.ev("list", t="ul")]
    elif kind == "id" and idx("table"):
        v = ev[idx("table")[0]]
        v["x"] = [49] if v["x"] != [49] else real.NONE
    elif kind == "shade" and idx("cell"):
        v = ev[idx("cell")[-1]]
        v["t"] = "th" if v["t"] == "td" else "td"
    elif kind == "title":
        R["title"] = R["title"] + [32]
    elif kind == "revision":
        R["rev"] = [49] if R["rev"] != [49] else real.NONE
    elif kind == "bold" and idx("text"):
        v = ev[idx("text")[0]]
        v["f"] = dict(v["f"], b="on" if v["f"]["b"] != "on" else "off")
    elif kind == "colour" and idx("text"):
        v = ev[idx("text")[-1]]
        v["f"] = dict(v["f"], col=[65] * 6)
    elif kind == "background" and idx("cell"):
        v = next((ev[i] for i in idx("cell") if ev[i]["k"] != real.NONE), None)
        if v is None:
            return None
        v["k"] = [48] * 6
    elif kind == "no-background" and idx("cell"):
        v = next((ev[i] for i in reversed(idx("cell")) if len(ev[i]["k"]) == 6 and all(chr(x) in "0123456789abcdef" for x in ev[i]["k"])), None)
        if v is None:
            return None
        v["k"] = real.NONE
    elif kind == "sheet":
        R["links"] = [R["links"][0][1:]] if R["links"] else []
    elif kind == "marker":
        if not c.exp or len(ev) != len(c.exp["ev"]):
            return None
        v = next((ev[i] for i in idx("list") if c.exp["ev"][i]["k"] in (real.codes("lower-roman"), real.codes("circle"))), None)
        if v is None:
            return None
        v["k"] = real.codes("disc")
    else:
        return None
    return d


STEMS = ["a#b", "50% done", "what?", "NVMe: Base 2.0", "x%20y", "w\u00f6rd", "a&b <c>", "it's \"so\"", "back\\slash", "w\udcff\udce9", " first", "last ", "data:text", "a;b=c", "a+b",
         "\u6587", "tab\tx", "line\nfeed", "%2e%2e", "1.2", "x.css", "@page", "[1]", "{x}", "~", "\U0001f600", "-o", "a,b", "$1", "e\u0301", "%", "#", "?"]


def named(ck, cases):
    """documents of all names, where the name matters"""
    if ck.prop == "C31":
        rnd = random.Random(f"names/{ck.seed}")
        for c in cases:
            if rnd.random() < .4:
                c.stem = rnd.choice(STEMS) if rnd.random() < .8 else "".join(chr(rnd.choice([rnd.randint(33, 126), rnd.randint(160, 0x24f)])) for _ in range(rnd.randint(1, 6))).replace("/", "_").lstrip(".") + "_"


REG = {
    "C17": dict(fam=("MC_Grid", "Grid", ["C17"]), bad=["rowspan", "drop-cell"],
                rnd=[dict(p_merge=.8, cols=(1, 7), rows=(1, 8), kids=(0, 1), tables=(1, 2), p_list=.05), dict(p_merge=.6, p_nest=.35, cols=(1, 3), rows=(1, 3), depth=3, p_list=.05)], n=(300, 5000)),
    "C18": dict(fam=("MC_Words", "Words", ["C18words", "C18tables", "C18cells"]), bad=["drop-text", "alter-text"],
                rnd=[dict(), dict(p_nest=.4, depth=4, cols=(1, 2), rows=(1, 2), tables=(1, 4)), dict(p_list=.1, kids=(0, 6), cols=(1, 3), p_odd=.5)], n=(330, 5000)),
    "C19": dict(fam=("MC_List", "List", ["C19", "C19items"]), bad=["list-tag", "list-split"],
                rnd=[dict(p_list=.85, kids=(0, 12), cols=(1, 2), rows=(1, 2)), dict(p_list=.7, kids=(2, 8), p_nest=.15, cols=(1, 2))], n=(300, 5000)),
    "C20": dict(fam=("MC_Head", "Head", ["C20head", "C20id", "C20cells"]), bad=["id", "shade", "title", "revision"],
                rnd=[dict(p_fill=.7, p_title=.95, rows=(1, 3), cols=(1, 3), tables=(2, 5), kids=(0, 1)), dict(p_fill=.3, p_title=.9, p_nest=.3)], n=(360, 6000)),
    "C31": dict(fam=("MC_Show", "Show", ["C31cells", "C31lists"]), bad=["background", "no-background", "marker", "sheet"],
                rnd=[dict(p_fill=.8, rows=(1, 4), cols=(1, 4), kids=(0, 1), tables=(1, 4)), dict(p_list=.9, kids=(1, 9), cols=(1, 2), rows=(1, 2), p_fill=.3)], n=(320, 5000)),
    "C21": dict(fam=("MC_Style", "Style", ["C21chain", "C21mixed"]), bad=["bold", "colour"],
                rnd=[dict(p_fmt=.9, rows=(1, 2), cols=(1, 3)), dict(p_fmt=.7, p_list=.6)], n=(360, 6000)),
}


def violations(ck, cases):
    for c in cases[:200]:
        ck.violation(f"{c.name}: {what(c)}", readable(c))
    if len(cases) > 200:
        ck.note(more_violations=len(cases) - 200)


def tally(cases):
    met = {}
    for c in cases:
        for s in c.cov:
            met[s] = met.get(s, 0) + 1
    return met


def run_all(ck, cases, root, **kw):
    stage1.run_real(cases, root, **kw)
    hung = [c for c in cases if c.rec["exit"] == 99][:4]
    if hung:
        stage1.run_real(hung, root / "again", workers=2, timeout=120)


def check(ck):
    if ck.prop == "C22":
        from . import c22
        return c22.check(ck)
    d = REG[ck.prop]
    module, prefix, invs = d["fam"]
    r, fam = family(module, prefix, invs)
    ck.tlc(r, module, documents=len(fam), invariants=invs + ["FramesOK", "WellNested", "Monotone"], exhaustive=True)
    named(ck, fam)
    run_all(ck, fam, ck.root / "fam")
    ck.traces(len(fam))
    ck.sample({"from": module, **readable(fam[len(fam) // 3])})
    # where the outcome is not the specification's, its clauses say what is broken
    odd = [c for c in fam if not as_expected(c)]
    rnd = [stage1.Case(gen1.doc(random.Random(f"{ck.prop}/{ck.seed}/{i}/{k}"), **prof), f"random {i}/{k}")
           for i, prof in enumerate(d["rnd"]) for k in range(d["n"][1 if ck.thorough else 0] // len(d["rnd"]))]
    named(ck, rnd)
    run_all(ck, rnd, ck.root / "rnd")
    bad = []
    for kind in d["bad"]:
        n = 0
        for c in rnd + fam[::7]:
            x = corrupt(c, kind) if not c.rec["mal"] else None
            if x is not None:
                bad.append(x)
                n += 1
                if n == 3:
                    break
        if n == 0:
            ck.note(no_record_to_corrupt_by=kind)
    ck.traces(len(rnd))
    picked = random.Random(f"{ck.seed}").sample([c for c in fam if as_expected(c)] or fam, ck.pick(30, 300))
    everything = odd[:150] + rnd + bad + picked
    st = stage1.judge(everything, ck.root)
    ck.cov["states"] += st["distinct"]
    ck.cov["transitions"] += max(0, st["generated"] - len(everything))
    ck.note(model="Stage1Trace", judged=len(everything), states=st["distinct"], wall_s=round(st["wall"], 1), situations=tally(rnd), family_situations=tally(fam),
            corrupted_records_rejected=len(bad))
    failing = [c for c in odd[:150] + rnd + picked if ck.prop in c.verdict]
    violations(ck, failing)
    missed = [x for x in bad if ck.prop not in x.verdict]
    if (missed or not bad) and not failing:
        raise real.Machinery(f"corrupted records were accepted: {[x.name for x in missed]}")
    if odd and not failing:
        ck.note(departures_of_no_concern=len(odd))
    ck.sample({"from": "random", **readable(rnd[0])})
