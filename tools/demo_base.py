import json, os, shutil, subprocess, sys, tempfile

WORK = tempfile.mkdtemp(prefix="demo.")


def html(tables, title="Some Specification", rev="1.0"):
    return ('<!DOCTYPE html>\n<html lang="en"><head><meta charset="utf-8"/><meta data-spec="%s"/><meta data-revision="%s"/><title>x</title></head>'
            "<body>%s</body></html>\n" % (title, rev, "".join(tables)))


def fig(fid, heads, rows, title=None):
    t = title or "Figure %s: Something" % fid
    return "<table><tr><td><p>%s</p></td></tr><tr>%s</tr>%s</table>" % (t, "".join("<th><p>%s</p></th>" % h for h in heads), "".join(rows))


def tr(*cells):
    return "<tr>%s</tr>" % "".join(c if c.startswith("<td") else "<td><p>%s</p></td>" % c for c in cells)


def sub(heads, rows):
    return "<table><tr>%s</tr>%s</table>" % ("".join("<th><p>%s</p></th>" % h for h in heads), "".join(rows))


def run(doc, *options, name="doc.html", env=None):
    """(exit status, model or None) of the command on a document"""
    d = tempfile.mkdtemp(dir=WORK)
    src = os.path.join(d, name)
    if isinstance(doc, bytes):
        open(src, "wb").write(doc)
    else:
        open(src, "w", encoding="utf-8").write(doc)
    out = os.path.join(d, "out")
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run([sys.executable, "-m", "spex", *options, "-o", out, src], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
    j = os.path.join(out, os.path.splitext(name)[0] + ".json")
    model = None
    if os.path.exists(j):
        try:
            model = json.load(open(j, encoding="utf-8"))
        except ValueError:
            pass
    return p.returncode, model


def lint(model, code=None):
    return [(l["code"], l["fig"], l.get("row")) for l in model["meta"]["lint"] if code is None or l["code"] == code]


def entity(model, fid):
    return [e for e in model["entities"] if e["fig_id"] == fid][0]


def done(ok, *what):
    shutil.rmtree(WORK, ignore_errors=True)
    if not ok:
        print("wrong:", *what)
    sys.exit(0 if ok else 1)
