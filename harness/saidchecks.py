"""C30: what the command says of a run."""
import copy, random
from . import real, tlc, stage2, explore, gen, grown, s2checks, runchecks

INV = ["C30named", "C30chain", "C30abort"]
CODES = ["T1000", "T1001", "T1002", "T1004", "T1006", "T1007", "T1008", "L1000", "L1002", "L1003", "L1004", "R1001", "R1002", "V1002"]


def show(rec):
    t = lambda s: None if s == real.NONE else "".join(map(chr, s)) if s != [-2] else "(unreadable)"
    return {"said": [[m["w"], t(m["id"]), t(m["par"]), t(m["title"])] for m in rec["said"]],
            **{k: rec[k] for k in ("told", "announced", "sorry") if k in rec}}


def readable(c):
    r = s2checks.readable(c)
    r["real messages"] = show(c.rec)
    if c.exp:
        r["expected messages"] = show(c.exp)
    return r


def families(ck):
    picked = []
    for k, (module, prefix, n) in enumerate([("MC_Figures", "Fig", 0), ("MC_Nested", "Nested", 0), ("MC_Special", "Special", 0)]):
        r, cases = explore.family(module, prefix, INV)
        for c in cases:
            c.listen = True
        root = ck.root / f"f{k}"
        stage2.run_real(cases, root)
        s2checks.retry_hangs(cases, root)
        ck.tlc(r, module, documents=len(cases), invariants=INV, exhaustive=True)
        ck.traces(len(cases))
        for c in cases:
            done = c.exp["exit"] == 0
            told = [{"n": len(c.exp["lint"]), "path": True}] if done and c.exp["lint"] else []
            x = c.rec
            if x["said"] != c.exp["said"] or x["told"] != told or not x["announced"] or x["sorry"] != (0 if x["exit"] == 0 else 1):
                ck.violation(f"{module}: the messages are {show(x)}; expected {show(c.exp)} and lint count {[t['n'] for t in told]}", readable(c))
        ck.sample({"from": module, **readable(cases[len(cases) // 3])})
        picked += random.Random(f"{ck.seed}/{module}").sample(cases, min(len(cases), ck.pick(30, 300)))
    return picked


def corruptions(cases):
    res = []
    for kind in ("drop", "more", "order", "title", "count", "path", "sorry", "silent"):
        n = 0
        for c in cases:
            d = stage2.Case(html=c.html, skip=c.skip, ignore=c.ignore, name=f"{kind} {c.name}")
            R = d.rec = copy.deepcopy(c.rec)
            if kind == "drop" and R["said"]:
                R["said"].pop()
            elif kind == "more" and R["said"]:
                R["said"].append(R["said"][-1])
            elif kind == "order" and len(R["said"]) > 1 and R["said"][0] != R["said"][-1]:
                R["said"].reverse()
            elif kind == "title" and R["said"] and R["said"][0]["title"] != real.NONE:
                R["said"][0]["title"] = R["said"][0]["title"][:-1] + [1]
            elif kind == "count" and R["told"]:
                R["told"][0]["n"] += 1
            elif kind == "path" and R["told"]:
                R["told"][0]["path"] = False
            elif kind == "sorry":
                R["sorry"] = 1 - R["sorry"]
            elif kind == "silent":
                R["announced"] = False
            else:
                continue
            if R["said"] == list(reversed(R["said"])) and kind == "order" and R["said"] == c.rec["said"]:
                continue
            res.append(d)
            n += 1
            if n == 3:
                break
        if n == 0:
            raise real.Machinery(f"no record to corrupt by {kind}")
    return res


def documents(ck):
    fams = families(ck)
    cases = []
    profs = [dict(tables=(2, 6), rows=(0, 3), p_nop=.3, p_short=.1, p_nest=.4, p_noid=.15, depth=4), dict(tables=(1, 3), p_nop=.15, p_nest=.35, depth=4, rows=(1, 3), p_soup=.3),
             dict(titles=s2checks.SPECIAL_TITLES, revs=s2checks.SPECIAL_REVS, ids=["23", "24", "64", "65", "41", "37", "1"], tables=(2, 5), rows=(1, 4), p_nop=.15)]
    n = ck.pick(240, 4000)
    for i, prof in enumerate(profs):
        for k in range(n // len(profs)):
            rnd = random.Random(f"C30/{ck.seed}/{i}/{k}")
            ign = rnd.sample(CODES, rnd.randint(1, 5)) if rnd.random() < .4 else ()
            c = gen.case(rnd, ignore=ign, **prof)
            c.name = f"random {i}/{k}"
            c.skip = rnd.random() < .7
            c.listen = True
            cases.append(c)
    for c in grown.cases(f"C30/{ck.seed}", ck.pick(50, 1000)):
        c.skip = c.name.endswith(tuple("0123"))
        c.listen = True
        cases.append(c)
    root = ck.root / "judged"
    stage2.run_real(cases, root)
    s2checks.retry_hangs(cases, root)
    bad = corruptions(cases + fams)
    every = cases + fams + bad
    st = stage2.judge(every, root)
    ck.cov["states"] += st["distinct"]
    ck.cov["transitions"] += max(0, st["generated"] - len(every))
    ck.traces(len(cases))
    ck.note(model="Stage2Trace", judged=len(cases) + len(fams), states=st["distinct"], corrupted_records_rejected=len(bad),
            messages={w: sum(1 for c in cases for m in c.rec["said"] if m["w"] == w) for w in ("head", "failed", "in")})
    failing = [c for c in cases + fams if "C30" in c.verdict]
    for c in failing:
        if c.exp is None and failing.index(c) < 5:
            s2checks.explain(ck, [c])
        ck.violation(f"{c.name}: the messages {show(c.rec)} are not those of the run ({' '.join(c.options())}, exit {c.rec['exit']})", readable(c))
    missed = [d for d in bad if "C30" not in d.verdict]
    if missed and not failing:
        raise real.Machinery(f"{len(missed)} corrupted records were accepted: {missed[0].name}")
    ck.sample({"from": "random", **readable(cases[0])})


def check(ck):
    documents(ck)
    runchecks.check(ck)
