"""Running TLC on the specification."""
import os, re, subprocess, shutil, tempfile, time
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    """TLC itself failed, or an invariant of the specification did."""


class Result:
    def __init__(self, out, wall):
        self.out = out
        self.wall = wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        n = lambda s: int(s.replace(",", ""))
        self.generated = n(m[-1][0]) if m else 0
        self.distinct = n(m[-1][1]) if m else 0
        d = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(d[-1]) if d else 0

    def printed(self, prefix):
        """Lines that PrintT wrote for strings starting with prefix and a blank."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + prefix + " "):
                body = line[1:]
                if body.endswith('"'):
                    body = body[:-1]
                res.append(re.sub(r"\\(.)", r"\1", body)[len(prefix) + 1:])
        return res


def brief(out):
    """TLC's own messages, without what the specification printed"""
    lines = [l[:400] for l in out.splitlines() if not l.startswith(('"', "Parsing", "Semantic", "Linting"))]
    return "\n".join(lines[:40] + ["..."] + lines[-40:] if len(lines) > 80 else lines)


def run(module, cfg=None, env=None, workers=8, heap="6g", timeout=900, consts=None, simulate=None, depth=None, seed=None, allow_violation=False, cfgtext=None):
    work = tempfile.mkdtemp(prefix="vtlc.")
    try:
        cfgpath = Path(work) / "run.cfg"
        text = cfgtext if cfgtext is not None else (SPEC / (cfg or module + ".cfg")).read_text()
        for k, v in (consts or {}).items():
            text += f"\nCONSTANT {k} = {v}\n"
        cfgpath.write_text(text)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", work + "/meta", "-config", str(cfgpath),
               "-noGenerateSpecTE", "-fpmem", "0.1"]
        if simulate is not None:
            cmd += ["-simulate", f"num={simulate}"]
            if depth:
                cmd += ["-depth", str(depth)]
            if seed is not None:
                cmd += ["-seed", str(seed)]
        cmd.append(str(SPEC / (module + ".tla")))
        e = dict(os.environ, SPEX_EXPLAIN="0")
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise TlcError(f"TLC on {module} did not end within {timeout} s:\n" + (x.stdout or b"").decode(errors="replace")[-2000:])
        out = p.stdout.decode(errors="replace")
        if p.returncode != 0 and not (allow_violation and p.returncode in (12, 13)):
            raise TlcError(f"TLC on {module} failed ({p.returncode}):\n" + brief(out))
        r = Result(out, time.time() - t0)
        r.rc = p.returncode
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)
