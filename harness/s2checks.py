"""The checks of the second stage (HTML model -> NVMe model), C01-C14."""
import copy, json, random, time
from . import real, tlc, stage2, explore, gen, grown

EXAMPLES = ["RDMA", "TCP", "Key Value", "PCIe", "Zoned", "NVM Command Set", "Management", "Base"]


def example_file(word):
    for f in sorted((real.REPO / "example" / "stage1").glob("*.html")):
        if word in f.name:
            return f
    return None


def readable(c, expected=None):
    r = {"html": c.html if len(c.html) < 20000 else f"<{len(c.html)} characters of {c.name}>", "options": c.options(),
         "real": explore.show(c.rec), "malformed": c.rec.get("why")}
    if expected:
        r["expected"] = explore.show(expected)
    return r


def differences(a, b):
    """a few lines on how readable outcome a (real) departs from b (expected)"""
    res = []
    if a["exit"] != b["exit"]:
        res.append(f"exit status {a['exit']}, expected {b['exit']}" if a["exit"] != 99 else "the run did not end")
    for k in ("entities", "lint"):
        x = [i for i in a[k] if i not in b[k]]
        y = [i for i in b[k] if i not in a[k]]
        if x or y:
            res.append(f"{k}: only real {json.dumps(x[:2])[:240]}; only expected {json.dumps(y[:2])[:240]}")
        elif a[k] != b[k]:
            res.append(f"{k} in another order or number")
    return "; ".join(res) or "messages or form of the model"


def retry_hangs(cases, root):
    """a run that did not end is repeated once, alone and with more time"""
    hung = [c for c in cases if c.rec["exit"] == 99][:4]
    if hung:
        stage2.run_real(hung, root / "again", workers=2, timeout=120)


def run_families(ck, families, all_cases=False):
    picked = []
    for k, f in enumerate(families):
        f = dict(f)
        module, prefix, invs = f.pop("module"), f.pop("prefix"), f.pop("inv")
        r, cases = explore.family(module, prefix, invs, **f)
        root = ck.root / f"f{k}"
        stage2.run_real(cases, root)
        retry_hangs(cases, root)
        ck.tlc(r, module, documents=len(cases), invariants=invs + ["StackOK", "EntitiesConform", "Monotone"], exhaustive=True)
        ck.traces(len(cases))
        bad = [c for c in cases if not explore.expected_equal(c.exp, c.rec)]
        for c in bad[:200]:
            ck.violation(f"{module}: " + differences(explore.show(c.rec), explore.show(c.exp)), readable(c, c.exp))
        if len(bad) > 200:
            ck.note(more_violations=len(bad) - 200)
        c = cases[len(cases) // 3]
        ck.sample({"from": module, **readable(c)})
        rnd = random.Random(f"{ck.seed}/{module}")
        ok = [c for c in cases if c.valid and explore.expected_equal(c.exp, c.rec)]
        picked += ok if all_cases else rnd.sample(ok, min(len(ok), ck.pick(40, 400)))
    return picked


# corruptions of a run's record: none of them may pass
def corrupt(c, kind):
    d = stage2.Case(html=c.html, skip=c.skip, ignore=c.ignore, name="corrupted " + c.name)
    d.rec = copy.deepcopy(c.rec)
    R = d.rec
    fs = [e["fields"] for e in R["out"] if e["fields"]]
    if kind == "drop-entity" and R["out"]:
        R["out"].pop()
    elif kind == "swap-entities" and len(R["out"]) > 1 and R["out"][0] != R["out"][1]:
        R["out"][0], R["out"][1] = R["out"][1], R["out"][0]
    elif kind == "drop-field" and fs:
        fs[-1].pop()
    elif kind == "label" and fs:
        fs[0][0]["label"] = fs[0][0]["label"] + [88]
    elif kind == "brief" and fs:
        fs[0][0]["brief"] = [88] if fs[0][0]["brief"] != [88] else [89]
    elif kind == "range" and fs:
        fs[0][0]["rng"] = dict(fs[0][0]["rng"], lo=fs[0][0]["rng"]["lo"] + [49])
    elif kind == "parent" and R["out"]:
        R["out"][-1]["par"] = [88]
    elif kind == "type" and R["out"]:
        R["out"][0]["type"] = "bytes" if R["out"][0]["type"] != "bytes" else "bits"
    elif kind == "drop-lint" and R["lint"]:
        R["lint"].pop()
    elif kind == "more-lint" and R["lint"]:
        R["lint"].append(R["lint"][0])
    elif kind == "message" and R["lint"]:
        R["lint"][0]["msg"] = [88]
    elif kind == "exit":
        R["exit"] = 1 - R["exit"]
    else:
        return None
    return d


CORRUPTIONS = {
    "C01": ["drop-entity", "swap-entities"], "C02": ["exit"], "C03": ["drop-field"], "C04": ["range"], "C05": ["drop-lint", "more-lint"],
    "C06": ["label"], "C07": ["label"], "C08": ["brief"], "C09": ["label", "drop-field"], "C10": ["parent", "drop-entity"], "C11": ["type"],
    "C12": ["drop-lint", "more-lint", "message"], "C13": ["exit"], "C14": ["label", "drop-lint"],
}


def run_judged(ck, cases, fams, corruptions):
    """random documents (and a sample of the families') judged by Stage2Trace"""
    root = ck.root / "judged"
    todo = [c for c in cases if c.rec is None]
    stage2.run_real(todo, root)
    retry_hangs(todo, root)
    for c in fams:
        c.focus = [ck.prop]
    bad = []
    want = []
    pool = fams + [c for c in cases if ck.prop != "C14"][:60]
    for kind in corruptions:
        n = 0
        for c in pool:
            if c.rec["exit"] or c.rec["mal"]:
                continue
            if kind in ("drop-lint", "more-lint") and ck.prop == "C05":
                if not c.rec["lint"] or c.rec["lint"][-1 if kind == "drop-lint" else 0]["code"] not in ("T1001", "T1002", "T1004"):
                    continue
            d = corrupt(c, kind)
            if d is None:
                continue
            d.focus = c.focus
            bad.append(d)
            n += 1
            if n == 3:
                break
        if n == 0:
            raise real.Machinery(f"no record to corrupt by {kind}")
    every = cases + fams + bad
    st = stage2.judge(every, root)
    ck.cov["states"] += st["distinct"]
    ck.cov["transitions"] += max(0, st["generated"] - len(every))
    kept = len(cases) + len(fams)
    ck.traces(len(cases))
    met = {}
    for c in cases + fams:
        for s in c.cov:
            met[s] = met.get(s, 0) + 1
    ck.note(model="Stage2Trace", judged=kept, states=st["distinct"], generated=st["generated"], wall_s=round(st["wall"], 1), situations=met,
            corrupted_records_rejected=len(bad))
    missed = [d for d in bad if ck.prop not in d.verdict]
    failing = [c for c in cases + fams if ck.prop in c.verdict]
    if missed and not failing:
        raise real.Machinery(f"{len(missed)} corrupted records were accepted: {missed[0].name}")
    shown = failing[:5]
    if shown:
        explain(ck, shown)
    for c in failing[5:]:
        c.exp = None
    for c in failing:
        ck.violation(f"{c.name or 'random document'}: " + (differences(explore.show(c.rec), explore.show(c.exp)) if c.exp else "see the first ones"),
                     readable(c, c.exp))
    if cases:
        ck.sample({"from": "random", **readable(cases[0])})
    return failing


def explain(ck, cases):
    root = ck.root / "explained"
    root.mkdir(exist_ok=True)
    try:
        stage2.judge(cases, root, chunk=1000, explain=True)
    except (real.Machinery, tlc.TlcError):
        return
    n = 0
    for f in sorted(root.glob("*.json.expected.*.json")):
        k = int(f.name.split(".")[-2]) - 1
        if f.name.startswith("cases0.") and k < len(cases):
            o = json.loads(f.read_text())
            cases[k].exp = {"exit": 0 if o["pc"] == "done" else 1, "out": o["out"], "lint": o["lint"], "said": o["said"]}
            n += 1


def examples(words):
    res = []
    for w in words:
        f = example_file(w)
        if f is not None:
            for skip in (True,):
                res.append(stage2.Case(html=f.read_text(encoding="utf-8"), skip=skip, name=f"example {w}"))
    return res


LOW = dict(p_nop=.02, p_short=.01)
SPECIAL_TITLES = tuple(t for p in ("NVM Express", "NVM EXPRESS®", "NVM Express®") for t in (f"{p} NVM Command Set Specification", f"{p} Zoned Namespace Command Set Specification",
                       f"{p} Management Interface Specification", f"{p} Key Value Command Set Specification"))
SPECIAL_REVS = ("Revision 1.0c", "1.0c", "1.1c", "1.2c", "1.0C", "1.0d", "2.0c")

REG = {
    "C01": dict(fam=[dict(module="MC_Figures", prefix="Fig", inv=["C01", "C02"])],
                rnd=[dict(tables=(2, 9), rows=(0, 2), kinds=(2, 2, 2, 3), p_untitled=.25, p_noid=.2, p_wrap=.25, p_empty=.15),
                     dict(tables=(20, 40), rows=(0, 1), kinds=(2, 2, 2, 2), **LOW)], n=(160, 2500), ex=["RDMA"]),
    "C02": dict(fam=[dict(module="MC_Figures", prefix="Fig", inv=["C01", "C02"])],
                rnd=[dict(tables=(2, 6), rows=(0, 3), p_nop=.3, p_short=.1, p_nest=.3), dict(tables=(1, 3), p_nop=.15, p_nest=.35, depth=4, rows=(1, 3))], n=(200, 3000), ex=[]),
    "C03": dict(fam=[dict(module="MC_Rows", prefix="Rows", inv=["C03", "NeverFails"])],
                rnd=[dict(p_special=.5, p_note=.08, p_remark=.1, p_ellipsis=.15, p_hdr=.08, rows=(2, 10), tables=(1, 2), p_nest=.05, **LOW),
                     dict(rows=(40, 90), tables=(1, 1), p_nest=.0, **LOW)], n=(150, 2500), ex=["TCP"]),
    "C04": dict(fam=[dict(module="MC_Range", prefix="Range", inv=["C04"])],
                rnd=[dict(kinds=(5, 5, 0, 0), p_seq=.3, rows=(2, 9), p_nest=.03, tables=(1, 2), **LOW), dict(kinds=(5, 5, 0, 0), p_hdr=.15, rows=(3, 9), p_nest=.1, **LOW)], n=(300, 5000), ex=["TCP"]),
    "C05": dict(fam=[dict(module="MC_Layout", prefix="Layout", inv=["C05"])],
                rnd=[dict(kinds=(5, 5, 0, 0), p_seq=.85, p_bad_layout=.6, rows=(2, 12), p_nest=.1, tables=(1, 2), p_ellipsis=.12, **LOW)], n=(350, 5000), ex=["TCP"]),
    "C06": dict(fam=[dict(module="MC_Labels", prefix="Labels", inv=["C06", "C06dup"], uni="UniAcute")],
                rnd=[dict(kinds=(5, 5, 0, 0), p_dupe=.5, p_soup=.3, rows=(2, 8), p_nest=.04, tables=(1, 2), **LOW),
                     dict(kinds=(5, 5, 0, 0), p_dupe=.6, p_seq=.95, p_bad_layout=.0, rows=(4, 14), p_nest=.1, tables=(1, 2), **LOW)], n=(260, 4000), ex=["TCP"]),
    "C07": dict(fam=[dict(module="MC_Values", prefix="Values", inv=["C07", "C07dup"])],
                rnd=[dict(kinds=(0, 0, 5, 0), p_dupe=.6, p_soup=.25, rows=(2, 10), p_nest=.05, tables=(1, 2), **LOW)], n=(320, 5000), ex=["TCP"]),
    "C08": dict(fam=[dict(module="MC_Brief", prefix="Brief", inv=["C08"])],
                rnd=[dict(p_brief=.95, rows=(2, 6), p_special=.05, tables=(1, 2), p_nest=.15, **LOW)], n=(300, 5000), ex=["TCP"]),
    "C09": dict(fam=[dict(module="MC_Spans", prefix="Spans", inv=["C09grid", "C09fields"])],
                rnd=[dict(p_span=.4, rows=(2, 8), p_note=0, p_remark=0, p_ellipsis=0, p_hdr=0, p_short=0, p_nop=0, p_nest=.03, tables=(1, 2)),
                     dict(p_span=.25, rows=(3, 12), kinds=(1, 1, 3, 0), p_short=0, p_nop=.01, p_nest=.1)], n=(220, 4000), ex=["RDMA"]),
    "C10": dict(fam=[dict(module="MC_Nested", prefix="Nested", inv=["C10", "Linked"])],
                rnd=[dict(p_nest=.5, depth=5, rows=(1, 3), tables=(1, 2), **LOW), dict(p_nest=.4, depth=2, rows=(1, 5), p_nop=.1, tables=(1, 3))], n=(170, 2500), ex=["RDMA"]),
    "C11": dict(fam=[dict(module="MC_Headers", prefix="Headers", inv=["C11"])],
                rnd=[dict(p_case=.9, p_oddhdr=.5, rows=(0, 2), kinds=(3, 3, 3, 4), tables=(2, 6), p_nest=.1, **LOW)], n=(260, 4000), ex=["RDMA"]),
    "C12": dict(fam=[dict(module="MC_Lint", prefix="Lint", inv=["C12"], export="ExportLint")],
                rnd=[dict(p_dupe=.5, p_seq=.5, p_bad_layout=.6, rows=(2, 7), tables=(2, 5), p_nop=.04)], n=(150, 3000), ex=["TCP"], ignores=True),
    "C13": dict(fam=[], rnd=[dict(p_soup=.35, rows=(1, 6))], n=(120, 2500), ex=["RDMA"]),
    "C14": dict(fam=[dict(module="MC_Special", prefix="Special", inv=["C14plain", "C14special"])],
                rnd=[dict(titles=SPECIAL_TITLES, revs=SPECIAL_REVS, ids=["23", "24", "64", "65", "41", "37", "38", "50", "1"], tables=(2, 5), rows=(1, 5), **LOW)],
                n=(150, 2500), ex=["Key Value", "Zoned"]),
}


def check(ck):
    d = REG[ck.prop]
    fams = run_families(ck, d["fam"])
    total = d["n"][1 if ck.thorough else 0]
    cases = []
    for i, prof in enumerate(d["rnd"]):
        for k in range(total // len(d["rnd"])):
            rnd = random.Random(f"{ck.prop}/{ck.seed}/{i}/{k}")
            ign = ()
            if d.get("ignores") and rnd.random() < .6:
                ign = rnd.sample(["T1000", "T1001", "T1002", "T1004", "T1006", "T1007", "T1008", "L1000", "L1002", "L1003", "L1004", "R1001", "R1002", "V1002"], rnd.randint(1, 5))
            c = gen.case(rnd, ignore=ign, **prof)
            c.name = f"random {i}/{k}"
            cases.append(c)
    cases += grown.cases(f"{ck.prop}/{ck.seed}", ck.pick(60, 1200))
    cases += examples(EXAMPLES if ck.thorough else d["ex"])
    run_judged(ck, cases, fams, CORRUPTIONS[ck.prop])
    if ck.prop == "C13":
        from . import c13
        c13.check(ck, cases)


def level_note(prop):
    return ("Exhaustive over the bounded family of documents (TLC), each run through the real command; random documents and example specifications beyond it are judged "
            "by TLC against the same specification. Assumes lxml parses as HTML models are read by the harness, and that the explicit model in spec/ is the intended meaning.")
