"""Drives the real server application (ASGI) through schedules of uploads, in
a scratch directory of its own.  One request per line (JSON), one answer each.

    srvworker.py SCRATCH [uid]
"""
import asyncio, base64, gc, hashlib, json, os, sys, traceback
from pathlib import Path

SCRATCH = Path(sys.argv[1])
TMP = SCRATCH / "deep" / "er" / "tmp"         # the server's temporary directories are made here
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))


PATIENCE = [60, 60]


class Upload:
    def __init__(self, app, spec):
        self.app, self.spec = app, spec
        self.sent, self.events, self.status = b"", [], 0
        self.pending = None          # data of a send that waits
        self.gate = None
        self.inbox = asyncio.Queue()
        self.changed = asyncio.Event()
        self.task = None
        self.error = None
        self.raw = self.all = b""
        self.ended_cleanly = False
        self.paths = None
        self.more = 0
        self.held = False

    async def receive(self):
        return await self.inbox.get()

    async def send(self, m):
        if m["type"] == "http.response.start":
            self.status = m["status"]
            self.headers = m.get("headers", [])
            if self.spec.get("hold") and self.status < 400:
                self.held = True
                self.gate = asyncio.get_running_loop().create_future()
                self.pending = b""
                self.changed.set()
                await self.gate
            return
        if m["type"] == "http.response.body":
            if m.get("body") and self.status < 400:        # what says no is taken at once
                self.gate = asyncio.get_running_loop().create_future()
                self.pending = m["body"]
                self.changed.set()
                await self.gate
                self.raw += m["body"]
                self.all += m["body"]
            if not m.get("more_body", False):
                self.ended_cleanly = True

    def start(self):
        s = self.spec
        data = Path(s["path"]).read_bytes() if s.get("path") else b""
        bd = b"----xyzzyBOUNDARYxyzzy"
        name = s["filename"].encode("utf-8", "surrogateescape").replace(b'"', b"%22")
        parts = b""
        for f in s.get("before", []):
            parts += b"--" + bd + b'\r\nContent-Disposition: form-data; name="%s"\r\n\r\nvalue\r\n' % f.encode()
        if s["field"]:
            parts += b"--" + bd + b'\r\nContent-Disposition: form-data; name="%s"; filename="%s"\r\nContent-Type: application/octet-stream\r\n\r\n' % (s["field"].encode(), name) + data + b"\r\n"
        body = parts + b"--" + bd + b"--\r\n"
        headers = [(b"host", b"localhost"), (b"content-type", b"multipart/form-data; boundary=" + bd), (b"content-length", str(len(body)).encode())][:2 if s.get("chunked") else 3]
        if s["accept"] is not None:
            headers.append((b"accept", s["accept"].encode()))
        scope = http("POST", "/parse", headers)
        piece = s.get("piece") or len(body)
        cut = [body[i:i + piece] for i in range(0, len(body), piece)]
        if s.get("truncate") is not None:        # the client goes away before it has sent everything
            cut = cut[:s["truncate"]]
            for c in cut:
                self.inbox.put_nowait({"type": "http.request", "body": c, "more_body": True})
            self.inbox.put_nowait({"type": "http.disconnect"})
        else:
            for k, c in enumerate(cut):
                self.inbox.put_nowait({"type": "http.request", "body": c, "more_body": k + 1 < len(cut)})
        self.task = asyncio.ensure_future(self.run(scope))

    async def run(self, scope):
        try:
            await self.app(scope, self.receive, self.send)
        except asyncio.CancelledError:
            self.error = "cancelled"
        except BaseException as e:
            self.error = repr(e)[:200]
        finally:
            self.changed.set()

    async def settle(self):
        """until its next event is pending or the response has ended"""
        while not self.task.done() and (self.pending is None):
            self.changed.clear()
            if self.task.done() or self.pending is not None:
                break
            await asyncio.wait_for(self.changed.wait(), 30)
            await asyncio.sleep(0)
        if self.task.done():
            self.pending = None

    async def take(self):
        if self.held:            # the start of the response, then the first of it
            self.held = False
            await self.take()
            if self.task.done() or self.gate is None:
                return
        self.pending = None
        g, self.gate = self.gate, None
        if g is not None and not g.done():
            g.set_result(None)
        for _ in range(3):
            await asyncio.sleep(0)
        await self.settle()

    async def leave(self):
        self.inbox.put_nowait({"type": "http.disconnect"})
        for _ in range(20):
            await asyncio.sleep(0)
            if self.task.done():
                break
        else:
            # a server that does not see it yet finds out when it writes next
            for _ in range(200):
                if self.task.done():
                    break
                await asyncio.sleep(.01)
                if self.gate is not None and not self.gate.done():
                    self.gate.set_exception(ConnectionError("the client is gone"))
        self.pending = self.gate = None

    def news(self):
        """events that were delivered since the last time"""
        res = []
        while b"\n\n" in self.raw:
            one, self.raw = self.raw.split(b"\n\n", 1)
            for line in one.split(b"\n"):
                if line.startswith(b"data:"):
                    try:
                        v = json.loads(line[5:])
                    except ValueError:
                        v = {"type": "malformed", "data": line.decode("utf-8", "replace")[:100]}
                    res.append(v)
        return res


def http(method, path, headers=(), query=b""):
    raw = path.encode("utf-8") if isinstance(path, str) else path
    from urllib.parse import unquote
    return {"type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "method": method, "path": unquote(raw.decode("ascii", "replace")),
            "raw_path": raw, "query_string": query, "headers": list(headers) or [(b"host", b"localhost")], "scheme": "http", "client": ("127.0.0.1", 4), "server": ("127.0.0.1", 5050),
            "root_path": "", "extensions": {}}


async def get(app, path, method="GET"):
    path, _, query = path.partition("?")
    out = {"status": 0, "body": bytearray()}
    first = [True]
    gone = asyncio.Event()

    async def receive():
        if first[0]:
            first[0] = False
            return {"type": "http.request", "body": b"", "more_body": False}
        await gone.wait()
        return {"type": "http.disconnect"}

    async def send(m):
        if m["type"] == "http.response.start":
            out["status"] = m["status"]
        elif m["type"] == "http.response.body":
            out["body"] += m.get("body", b"")
    try:
        await asyncio.wait_for(app(http(method, path, query=query.encode()), receive, send), 60)
    except Exception as e:
        out["status"] = out["status"] or 599
        out["body"] += repr(e).encode()
    out["body"] = bytes(out["body"])
    return out


def tree(d):
    res = {}
    for root, dirs, files in os.walk(d):
        for f in dirs:
            res[os.path.join(root, f)] = "dir"
        for f in files:
            p = os.path.join(root, f)
            try:
                st = os.lstat(p)
                res[p] = (st.st_size, st.st_mtime_ns)
            except OSError:
                pass
    return res


def outside():
    return {k: v for k, v in tree(SCRATCH).items() if not k.startswith(str(TMP) + os.sep) and not k.startswith(str(SCRATCH / "cwd"))}


class Life:
    def __init__(self, app):
        self.app = app

    async def up(self):
        self.inbox, self.outbox = asyncio.Queue(), asyncio.Queue()

        async def run():
            await self.app({"type": "lifespan", "asgi": {"version": "3.0", "spec_version": "2.0"}, "state": {}}, self.inbox.get, self.outbox.put)
        self.task = asyncio.ensure_future(run())
        self.inbox.put_nowait({"type": "lifespan.startup"})
        m = await asyncio.wait_for(self.outbox.get(), 30)
        if m["type"] != "lifespan.startup.complete":
            raise RuntimeError(f"startup: {m}")

    async def down(self):
        self.inbox.put_nowait({"type": "lifespan.shutdown"})
        m = await asyncio.wait_for(self.outbox.get(), 30)
        try:
            await asyncio.wait_for(self.task, 10)
        except Exception:
            pass
        return m["type"]


async def schedule(app, req, summarize):
    """the observations of a schedule"""
    alien = tree(TMP)                # left by a schedule before this one
    life = Life(app)
    await life.up()
    ups = [Upload(app, s) for s in req["uploads"]]
    urls = [None] * len(ups)
    base = outside()
    obs = []
    try:
        kept = [p + os.sep for p in tree(TMP)]        # what there is before any upload keeps what completes
        fresh = lambda u: {p for p in set(tree(TMP)) - u.before if not (u.spec["ok"] and p.startswith(tuple(kept)))}
        for act in req["sched"]:
            o = {"a": act["a"], "n": act["n"], "evs": [], "st": "open", "code": 0, "left": [], "url": "", "note": ""}
            if act["a"] == "stop":                          # the server ends, and another one starts
                for u in ups:
                    if u.task is not None and not u.task.done():
                        await u.leave()
                o["code"] = 0 if (end := await life.down()) == "lifespan.shutdown.complete" else 500
                for t in range(PATIENCE[1]):
                    gc.collect()
                    if not (stay := sorted(set(tree(TMP)) - set(alien))):
                        break
                    await asyncio.sleep(.002 * t)
                else:
                    PATIENCE[1] = 4
                o["left"] = [os.path.relpath(p, TMP) for p in stay]
                o["note"] = end if o["code"] else ""
                alien = sorted(set(alien) | set(stay))
                life = Life(app)
                await life.up()
                kept = [p + os.sep for p in tree(TMP)]
            if act["a"] in ("post", "send", "abort"):
                u = ups[act["n"] - 1]
                was = u.task is not None and u.task.done()
                if act["a"] == "post":
                    u.before = set(tree(TMP))
                    u.start()
                    await u.settle()
                    u.paths = fresh(u) if not u.task.done() else set()
                elif u.task is None or was:
                    o["note"] = "not open"
                elif act["a"] == "send":
                    await u.take()
                else:
                    await u.leave()
                o["evs"] = u.news()
                for e in o["evs"]:
                    if isinstance(e, dict) and e.get("type") == "report-completed":
                        o["url"] = str(e.get("url", ""))
                        urls[act["n"] - 1] = o["url"]
                if u.task.done():
                    o["st"] = "ended"
                    for _ in range(5):
                        await asyncio.sleep(0)
                    gone = lambda: [p for p in (u.paths or ()) if os.path.exists(p)] + ([] if u.paths or o["evs"] else [p for p in fresh(u) if u.paths is not None and act["a"] == "post"])
                    for t in range(PATIENCE[0]):          # what nobody uses any more may wait for the next collection
                        if not gone():
                            break
                        gc.collect()
                        await asyncio.sleep(.002 * t)
                    else:
                        PATIENCE[0] = 4           # something stays: that is for certain now
                    o["left"] = [os.path.relpath(p, TMP) for p in gone()]
                    o["note"] = u.error or ""
                    # the rest of its body, when it is refused
                    if o["a"] == "post" and u.status >= 400:
                        u.raw = b""
                o["code"] = u.status
            now = outside()
            o["outside"] = sorted(k for k in set(base) | set(now) if base.get(k) != now.get(k))
            o["gets"] = []
            for g in req["gets"] if "gets" not in act else [req["gets"][i] for i in act["gets"]]:
                path = g.get("path")
                if path is None:
                    n = g["of"] - 1
                    url = urls[n]
                    h = url.split("?")[0].rstrip("/").rsplit("/", 1)[-1] if url else req["uploads"][n]["md5"]
                    path = f"/{g['kind']}/{h}" + g.get("query", "")
                    if g["kind"] == "report" and url and not g.get("query"):
                        path = url
                r = await get(app, path, g.get("method", "GET"))
                o["gets"].append({"g": g["g"], "code": r["status"], "num": summarize(g["kind"], r["body"]) if r["status"] == 200 and not g.get("raw") else 0})
                if g.get("raw"):
                    o["gets"][-1]["body"] = base64.b64encode(r["body"]).decode()
            obs.append(o)
    finally:
        for u in ups:
            if u.task is not None and not u.task.done():
                await u.leave()
                u.task.cancel()
        end = await life.down()
    gc.collect()
    return {"obs": obs, "end": end, "streams": [base64.b64encode(u.all).decode() for u in ups]}


def main():
    chan_in = os.fdopen(os.dup(0), "r", encoding="utf-8")
    chan_out = os.fdopen(os.dup(1), "w", encoding="utf-8")
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)

    def answer(o):
        chan_out.write(json.dumps(o) + "\n")
        chan_out.flush()
    if len(sys.argv) > 2:
        uid = int(sys.argv[2])
        os.setgroups([])
        os.setgid(uid)
        os.setuid(uid)
    TMP.mkdir(parents=True, exist_ok=True)
    (SCRATCH / "cwd").mkdir(exist_ok=True)
    os.chdir(SCRATCH / "cwd")
    import tempfile
    tempfile.tempdir = None
    os.environ["TMPDIR"] = str(TMP)
    try:
        from spexsrv.application.app import app
    except BaseException:
        answer({"fatal": traceback.format_exc()})
        return
    from harness import srvread
    answer({"ready": True})
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    for line in chan_in:
        try:
            r = loop.run_until_complete(schedule(app, json.loads(line), srvread.Summaries().number))
        except BaseException:
            r = {"error": traceback.format_exc()[-1500:]}
        answer(r)


if __name__ == "__main__":
    main()
