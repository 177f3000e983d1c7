"""C22: a docx and its HTML model have the same NVMe model, that of the
composition of the two stages."""
import copy, json, random
from . import real, tlc, stage1, stage2, explore, gen1, s1checks, s2checks


CODES = ["T1001", "T1002", "T1004", "T1006", "T1007", "T1008", "L1002", "L1003", "L1004", "V1002", "R1001", "R1002"]


def readable(c, exp=None):
    r = {"skip": c.skip, "ignored": c.ignore, "docx": c.doc if len(json.dumps(c.doc)) < 30000 else f"<{c.name}>", "html": (c.html or "")[:5000],
         "model": explore.show(c.model) if c.model else None, "model_of_html": explore.show(c.model2) if c.model2 else None}
    if exp:
        r["expected"] = explore.show(exp)
    return r


def same(a, b):
    return all(a[k] == b[k] for k in ("exit", "out", "lint", "title", "rev", "haslint", "hasmodel"))


def check(ck):
    module = "MC_Whole"
    invs = ["C22figures", "C22fields", "C22ends"]
    cfg = explore.CFG.format(b="Whole", uni="UniNone", inv="\n".join("INVARIANT " + i for i in invs)).replace("INVARIANT Export", "INVARIANT ExportWhole")
    r = tlc.run(module, cfgtext=cfg, heap="10g")
    fam = []
    for k, line in enumerate(r.printed("D")):
        o = json.loads(line)
        c = stage1.Case(o["doc"], f"{module} {k}", skip=o["skip"])
        c.exp2 = {x: o[x] for x in ("exit", "out", "lint")}
        c.cov = set(o["cov"])
        fam.append(c)
    r.out = ""
    s1checks.run_all(ck, fam, ck.root / "fam", again=True)
    ck.tlc(r, module, documents=len(fam), invariants=invs + ["StackOK", "EntitiesConform", "Monotone"], exhaustive=True)
    ck.traces(2 * len(fam))

    def compare(c, exp):
        if c.model is None or c.model2 is None:
            ck.violation(f"{c.name}: {c.rec['why'][0]}", readable(c, exp))
        elif not same(c.model, c.model2):
            ck.violation(f"{c.name}: the docx and its HTML model have different models: " + s2checks.differences(explore.show(c.model), explore.show(c.model2)), readable(c, exp))
        elif exp is not None and not explore.expected_equal(exp, c.model):
            ck.violation(f"{c.name}: " + s2checks.differences(explore.show(c.model), explore.show(exp)), readable(c, exp))
        else:
            return True
        return False
    for c in fam:
        compare(c, c.exp2)
    ck.sample({"from": module, **readable(fam[len(fam) // 3], fam[len(fam) // 3].exp2)})

    profs = [dict(tables=(1, 3), rows=(0, 5)), dict(tables=(1, 2), p_nest=.4, depth=3, rows=(1, 4)), dict(tables=(1, 2), kinds=(3, 3, 3, 3), p_case=.5, p_dupe=.5)]
    n = ck.pick(210, 3000)
    rnd = [stage1.Case(gen1.figures(random.Random(f"C22/{ck.seed}/{i}/{k}"), **p), f"random {i}/{k}") for i, p in enumerate(profs) for k in range(n // len(profs))]
    # documents of any form, most of which are not figures
    wild = [stage1.Case(gen1.doc(random.Random(f"C22w/{ck.seed}/{k}")), f"wild {k}") for k in range(n // 3)]
    for k, c in enumerate(rnd + wild):
        r = random.Random(f"C22o/{ck.seed}/{k}")
        c.skip = r.random() < .7
        c.ignore = r.sample(CODES, r.randint(1, 4)) if r.random() < .3 else []
    s1checks.run_all(ck, rnd + wild, ck.root / "rnd", again=True)
    ck.traces(2 * len(rnd + wild))
    good = [c for c in rnd + wild if compare(c, None)]
    # the HTML model is what Stage1 says, and the model what Stage2 says of it
    st = stage1.judge(rnd + wild, ck.root)
    ck.cov["states"] += st["distinct"]
    ck.cov["transitions"] += st["generated"] - len(rnd + wild)
    ck.note(model="Stage1Trace", judged=len(rnd + wild), states=st["distinct"], situations=s1checks.tally(rnd + wild))
    for c in rnd + wild:
        if c.verdict:
            ck.violation(f"{c.name}: the HTML model is not that of the docx ({' '.join(sorted(c.verdict))}): {s1checks.what(c)}", s1checks.readable(c))
    two = []
    for c in good:
        if c.rec["rev"] == real.NONE or not c.rec["wf"]:
            continue
        x = stage2.Case(html=c.html, skip=c.skip, ignore=c.ignore, name=c.name, focus=["C22"])
        x.rec, x.src = c.model, c
        two.append(x)
    bad = []
    for x in two:
        for kind in ("drop-entity", "label", "drop-lint"):
            y = s2checks.corrupt(x, kind) if len(bad) < 9 and not x.rec["exit"] and not x.rec["mal"] else None
            if y is not None:
                y.focus = ["C22"]
                bad.append(y)
    st = stage2.judge(two + bad, ck.root)
    ck.cov["states"] += st["distinct"]
    ck.cov["transitions"] += st["generated"] - len(two + bad)
    met = {}
    for x in two:
        for s in x.cov:
            met[s] = met.get(s, 0) + 1
    ck.note(model="Stage2Trace", judged=len(two), states=st["distinct"], situations=met, corrupted_records_rejected=len(bad))
    failing = [x for x in two if x.verdict - {"C13"}]
    if failing:
        s2checks.explain(ck, failing[:5])
    for x in failing:
        ck.violation(f"{x.name}: the model is not that of the docx ({' '.join(sorted(x.verdict))}): " + (s2checks.differences(explore.show(x.rec), explore.show(x.exp)) if x.exp else ""),
                     readable(x.src, x.exp))
    missed = [x for x in bad if "C22" not in x.verdict]
    if (missed or not bad) and not failing and not ck.violations:
        raise real.Machinery("corrupted records were accepted")
    ck.sample({"from": "random", **readable(rnd[0])})
