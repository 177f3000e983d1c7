"""What a check prints and leaves behind: verdict, evidence, replay files."""
import json, os, sys, time, shutil
from pathlib import Path
from . import real

VERIF = Path(__file__).resolve().parent.parent
KNOWN = VERIF / "known_findings.json"


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        os.environ["VERIF_TIER"] = self.tier
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.root = real.scratch(f"v{prop}.")
        self.violations = []          # (what, replay file contents)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.parts = []
        self.known = set()
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------ coverage
    def tlc(self, r, name, **more):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += max(0, r.generated - more.get("documents", 1))
        self.parts.append(dict(model=name, states=r.distinct, generated=r.generated, depth=r.depth, wall_s=round(r.wall, 1), **more))

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def note(self, **kw):
        self.parts.append(kw)

    # ------------------------------------------------ findings
    def violation(self, what, replay):
        """replay: a JSON-able object that says how to see it again"""
        self.violations.append((what, replay))

    def finding(self, tag, what):
        """a failure that may be a listed one: True if it is"""
        for f in json.loads(KNOWN.read_text())["findings"]:
            if f["property"] == self.prop and f["tag"] == tag:
                if tag not in self.known:
                    self.known.add(tag)
                    print(f"KNOWN-FINDING: property={self.prop} {what}")
                return True
        return False

    def finish(self):
        self.cov["parts"] = self.parts
        if real.UNSTEADY:
            self.cov["failed_once_only"] = real.UNSTEADY[:20]
            print(f"note: {len(real.UNSTEADY)} runs failed once and not when repeated: {', '.join(real.UNSTEADY[:5])}"[:300])
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=True) + "\n")
        rp = VERIF / "replay"
        rp.mkdir(exist_ok=True)
        for old in rp.glob(f"{self.prop}-*.json"):
            old.unlink()
        for k, (what, replay) in enumerate(self.violations[:5]):
            f = rp / f"{self.prop}-{k + 1}.json"
            f.write_text(json.dumps({"property": self.prop, "what": what, "replay": replay}, indent=1) + "\n")
            print(f"VIOLATION property={self.prop} replay={f}")
            print(f"  {what}"[:600])
        if len(self.violations) > 5:
            print(f"  ... {len(self.violations)} in all")
        c = self.cov
        print(f"{self.prop} {self.tier}: {c['states']} states, {c['transitions']} transitions, "
              f"{c['traces_validated_against_impl']} real runs compared, {len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)
