"""C13: form of the model, under every locale, with --validate-json."""
import json, random, unicodedata
from pathlib import Path
from . import real, stage2, explore, s2checks

FIXED = [0xdf, 0x130, 0xfb01, 0x149, 0x1c5, 0x1e9e, 0x1f52, 0x80, 0x85, 0xa0, 0xa9, 0xae, 0xb2, 0xbd, 0xe9, 0x130 + 2, 0x17f - 1, 0x300, 0x3a9, 0x416, 0x5d0, 0x661, 0x20ac, 0x2013, 0x2019, 0x2028, 0x200b, 0x2026,
         0x202e, 0x2167, 0x3000, 0x4e2d, 0xac00, 0xe000, 0xfeff, 0xff21, 0xfffd, 0x10400, 0x1f600, 0x1d7d8, 0x20000, 0x10ffff]


def simple(c):
    ch = chr(c)
    return (c not in (0x3a3, 0x3c2) and not 0xd800 <= c <= 0xdfff and c & 0xfffe != 0xfffe
            and unicodedata.category(ch) != "Cn" or c == 0x10ffff - 2)


def table(ck):
    rnd = random.Random(f"C13/{ck.seed}")
    cs = {c for c in FIXED if simple(c)}
    n = ck.pick(8, 120)
    while n:
        c = rnd.choice([rnd.randrange(0x80, 0x3000), rnd.randrange(0x80, 0x10000), rnd.randrange(0x10000, 0x11ffff - 0x10000)])
        if simple(c) and c not in cs:
            cs.add(c)
            n -= 1
    return real.uni_table(cs | {174, 8230})


LOCALE_C = dict(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")


def schema_errors(c):
    import jsonschema
    schema = json.loads((real.REPO / "src/spex/resources/stage2.schema.json").read_text(encoding="utf-8"))
    v = jsonschema.Draft202012Validator(schema)
    return [e.message[:200] for e in v.iter_errors(json.loads(c.data.decode("utf-8")))][:2]


def validated(ck, cases, locale):
    """each document once more, with --validate-json in the given locale: same
    model, exit status 0"""
    again = []
    for c in cases:
        d = stage2.Case(html=c.html, skip=c.skip, ignore=c.ignore, name=c.name)
        d.argv = (["--lint-ignore=" + ",".join(c.ignore)] if c.ignore else []) + ["--validate-json"]
        d.keep = True
        again.append(d)
    stage2.run_real(again, ck.root / ("v" + str(len(cases)) + str(bool(locale))), env=locale)
    for c, d in zip(cases, again):
        if c.rec["exit"] != 0:
            continue
        what = None
        empty = any(e["type"] == "values" and not e["fields"] for e in d.rec["out"])
        try:
            errs = schema_errors(d) if d.data is not None else ["no model was written"]
        except ValueError as x:
            errs = [f"not UTF-8 JSON: {x}"]
        if d.rec["mal"]:
            what = f"malformed model: {d.rec['why']}"
        elif any(d.rec[k] != c.rec[k] for k in ("out", "lint", "haslint", "title", "rev")):
            what = "with --validate-json" + (" in locale C" if locale else "") + " the model is another one: " + s2checks.differences(explore.show(d.rec), explore.show(c.rec))
        elif errs or d.rec["exit"] != 0:
            what = f"--validate-json: exit status {d.rec['exit']}, schema: {errs}"
            if empty and d.rec["exit"] == 1 and ck.finding("empty-values", "a value figure without any data row gives an entity with an empty list of fields, "
                                                          "which the published schema (minItems 1) rejects, so that --validate-json fails"):
                what = None
        if what:
            ck.violation(f"{c.name}: {what}", s2checks.readable(d))
    ck.traces(len(again))
    ck.note(validated=len(again), locale="C without UTF-8 mode" if locale else "C.UTF-8")


def check(ck, judged):
    f = ck.root / "uni.json"
    f.write_text(json.dumps(table(ck)))
    fam = dict(module="MC_Form", prefix="Form", inv=["C13", "Conforms"], uni="UniForm", env={"SPEX_UNI": str(f)})
    kept = s2checks.run_families(ck, [fam], all_cases=True)
    rnd = random.Random(f"C13/{ck.seed}/pick")
    pool = kept + [c for c in judged if c.rec["exit"] == 0]
    validated(ck, pool, LOCALE_C)
    validated(ck, rnd.sample(pool, min(len(pool), ck.pick(150, 2000))), None)
    # the known finding's own case
    e = stage2.Case(html='<!DOCTYPE html>\n<html><head><meta data-spec="s"/><meta data-revision="1"/></head><body><table><tr><td>Figure 1: x</td></tr>'
                    '<tr><th>Value</th><th>Definition</th></tr></table></body></html>', name="empty value figure")
    stage2.run_real([e], ck.root / "kf")
    validated(ck, [e], None)
