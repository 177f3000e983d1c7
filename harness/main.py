"""Entry: check <id>."""
import json, os, sys, time, traceback
from . import real, tlc, report

S2 = [f"C{n:02}" for n in range(1, 15)]


def handler(prop):
    if prop in S2:
        from . import s2checks
        return s2checks.check
    if prop in ("C17", "C18", "C19", "C20", "C21", "C22", "C31"):
        from . import s1checks
        return s1checks.check
    if prop in ("C15", "C16"):
        from . import runchecks
        return runchecks.check
    if prop in ("C23", "C24", "C25", "C26", "C27"):
        from . import srvchecks
        return srvchecks.check
    if prop in ("C28", "C29"):
        from . import pagechecks
        return pagechecks.check
    if prop == "C30":
        from . import saidchecks
        return saidchecks.check
    raise SystemExit(f"no check for {prop}")


def one(prop):
    fn = handler(prop)
    ck = report.Check(prop)
    try:
        try:
            fn(ck)
        except real.ImportFailure as x:
            # nothing can hold of a program that does not start
            ck.violation("the program does not start: " + str(x).strip().splitlines()[-1], {"error": str(x)})
        return ck.finish()
    except (real.Machinery, tlc.TlcError) as x:
        print(f"{prop}: the check itself failed: {x}"[:6000])
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ck.close()


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == "--replay":
        from . import replay
        return replay.main(argv[1:])
    rc = 0
    for prop in argv:
        rc = max(rc, one(prop))
    return rc
