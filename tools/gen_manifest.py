#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
S2 = ("TLC explores a bounded family of documents exhaustively and checks the property on the specification; the real command is run on every one of them and must have the "
      "outcome of the specification; random and example documents are judged by TLC trace checking. Trusts the specification's reading of the documentation, lxml as HTML reader and TLC.")
T2 = "TLA+ specification of the parser (TLC) with model-generated tests and trace checking of real runs"
DONE = {f"C{n:02}": (T2, S2) for n in range(1, 15)}
exec((V / "tools" / "manifest_more.py").read_text()) if (V / "tools" / "manifest_more.py").exists() else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DONE:
        t, n = DONE[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}", "evidence_file": f"evidence/{i}.json",
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "Specification in TLA+ (spec/), bound to the code of /repo by harness/. No hooks in /repo are needed."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
