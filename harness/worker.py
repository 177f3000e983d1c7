"""Runs the real code: reads one request per line (JSON), answers one line each.
Started with the interpreter of the project, PYTHONPATH on its sources, in a
scratch directory."""
import sys, os, json, traceback

def main():
    chan_in = os.fdopen(os.dup(0), "r", encoding="utf-8")
    chan_out = os.fdopen(os.dup(1), "w", encoding="utf-8")
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    try:
        from spex.__main__ import main as spex_main
    except BaseException:
        chan_out.write(json.dumps({"fatal": traceback.format_exc()}) + "\n")
        chan_out.flush()
        return
    chan_out.write(json.dumps({"ready": True}) + "\n")
    chan_out.flush()
    for line in chan_in:
        req = json.loads(line)
        sys.argv = ["spex"] + req["argv"]
        if "cwd" in req:
            os.chdir(req["cwd"])
        if "err" in req:        # what is said goes to a file
            fd = os.open(req["err"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 2)
            os.close(fd)
        try:
            spex_main()
            rc = 0
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            if isinstance(e.code, str):
                sys.stderr.write(e.code)
        except BaseException:       # as the interpreter does
            traceback.print_exc()
            rc = 1
        if "err" in req:
            sys.stderr.flush()
            os.dup2(null, 2)
        chan_out.write(json.dumps({"exit": rc}) + "\n")
        chan_out.flush()

main()
