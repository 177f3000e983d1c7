#!/usr/bin/env python3
"""Builds and tries the planted bugs of /verif/seeded.

  plant.py make FILE...     FILE defines SEEDS, a list of dict(id, property, needs, breaks, edits=[(path, old, new)], demo=text)
  plant.py try [ID...]      demo on the clean tree, stable tests, demo and check with the patch
  plant.py demo [ID...]     only the demos, with and without the patch 
  plant.py check [ID...]    only the property's check with the patch

Environment: PLANT_REPO is the copy of /repo to work in.
"""
import json, os, re, subprocess, sys, shutil, time
from pathlib import Path
REPO = Path(os.environ.get("PLANT_REPO", "/repo")); V = Path(__file__).resolve().parent.parent; S = V / "seeded"

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def clean():
    subprocess.run(["git", "-C", str(REPO), "checkout", "-q", "--", "."], check=True)

def make(files):
    for f in files:
        ns = {}
        exec(Path(f).read_text(), ns)
        for s in ns["SEEDS"]:
            d = S / s["id"]
            d.mkdir(parents=True, exist_ok=True)
            clean()
            for path, old, new in s["edits"]:
                p = REPO / path
                t = p.read_text(encoding="utf-8")
                if t.count(old) != 1:
                    sys.exit(f"{s['id']}: {t.count(old)} matches of {old!r} in {path}")
                p.write_text(t.replace(old, new), encoding="utf-8")
            diff = sh(["git", "-C", str(REPO), "diff"]).stdout
            clean()
            (d / "patch.diff").write_text(diff, encoding="utf-8")
            (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
            (d / "demo.sh").write_text('#!/bin/sh\n# exit status 0: as it should be\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                                       'PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"\n')
            (d / "demo.sh").chmod(0o755)
            for f in s.get("files", []):     # harness files the demonstration uses
                shutil.copy(V / "harness" / f, d / f)
            (d / "demo.py").write_text((V / "tools" / "demo_base.py").read_text() + "\n\n" + s["demo"].strip() + "\n", encoding="utf-8")

def demo(i):
    return sh([str(S / i / "demo.sh")], cwd=str(REPO), timeout=300)

def tries(ids, tests=True):
    ids = ids or sorted(p.name for p in S.iterdir() if (p / "patch.diff").exists())
    for i in ids:
        prop = json.loads((S / i / "meta.json").read_text())["property"]
        res = [i, prop]
        clean()
        if tests:
            r = demo(i)
            res.append("clean-demo ok" if r.returncode == 0 else f"CLEAN DEMO FAILS {r.returncode} {r.stdout[-300:]}")
        try:
            a = sh(["git", "-C", str(REPO), "apply", str(S / i / "patch.diff")])
            if a.returncode:
                print(i, "DOES NOT APPLY", a.stdout); continue
            if tests:
                if REPO == Path("/repo"):
                    b = sh(["bash", "/opt/vp/build.sh"])
                    if b.returncode: res.append("BUILD FAILS")
                    t = sh(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
                else:        # a copy: no build is needed for Python sources
                    t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=str(REPO),
                           env=dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONPATH=str(REPO / "src"), PYTHONDONTWRITEBYTECODE="1"))
                failed = re.findall(r"(\d+) failed", t.stdout)
                res.append("tests ok" if not any(int(x) for x in failed) else f"TESTS {failed}")
                r = demo(i)
                res.append("demo shows it" if r.returncode else "DEMO DOES NOT SHOW IT")
            if Path("/verif/check").exists():
                t0 = time.time()
                try:
                    r = sh(["./check", prop], cwd=str(V), timeout=900, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", SPEX_REPO=str(REPO)))
                    hit = f"VIOLATION property={prop}" in r.stdout and r.returncode == 1
                    res.append(("CAUGHT" if hit else f"MISSED rc={r.returncode}") + f" {time.time()-t0:.0f}s")
                    if not hit and r.returncode: res.append(r.stdout[-400:])
                    m = re.findall(r"^  (.*)$", r.stdout, re.M)
                    if hit and m: res.append(m[0][:160])
                except subprocess.TimeoutExpired:
                    res.append("CHECK TIMES OUT")
        finally:
            clean()
        print(" | ".join(res), flush=True)

if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2:])
    elif sys.argv[1] == "demo":
        for i in sys.argv[2:] or sorted(p.name for p in S.iterdir()):
            clean()
            a = demo(i)
            try:
                sh(["git", "-C", str(REPO), "apply", str(S / i / "patch.diff")])
                b = demo(i)
            finally:
                clean()
            print(i, "clean", a.returncode, a.stdout[-300:] if a.returncode else "", "patched", b.returncode, b.stdout[-200:].replace("\n", " "), flush=True)
    else: tries(sys.argv[2:], sys.argv[1] == "try")
