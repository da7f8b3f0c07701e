"""C12: the OSM download tool on a simulated network and disk."""
import copy
import hashlib
import os
import random
import re
import shutil
import socket as S
import tempfile
import urllib.parse
from collections import Counter

from .hosts import StepProp, Steps
from .kernel import EXCS
from .scripts import ERRS, Disk, run_script

SKIP = ("Flat roof", "Not hipped roof")
STATUS = ["", "ok", "Hipped roof", "Failed", "Flat roof, partly", "Not hipped", "AssertionError: x", "roof"]


# ---- the server: a small Overpass API ---------------------------------------------------
class QueryError(Exception):
    pass


class Overpass:
    """Evaluates queries on a deterministic world: way n has the nodes 10n.., relation n the ways n+1..n+3."""

    def __init__(self, sizes):
        self.sizes = sizes

    def nodes(self, w):
        return [("node", w * 10 + i) for i in range(4 + w % 5)]

    def ways(self, r):
        return [("way", r + i) for i in range(1, 2 + r % 3)]

    def evaluate(self, q):
        self.q = re.sub(r"\s+", "", q)
        self.p = 0
        cur, out = set(), None
        while self.p < len(self.q):
            if self.q.startswith("out", self.p):
                m = re.compile(r"out(?:body|meta)?(?:qt)?;").match(self.q, self.p)
                if not m:
                    raise QueryError("out")
                self.p = m.end()
                out = (out or set()) | cur
            elif self.q.startswith("[", self.p):
                m = re.compile(r"(\[[a-z]+:[^\]]*\])+;").match(self.q, self.p)
                if not m:
                    raise QueryError("settings")
                self.p = m.end()
            else:
                cur = self.statement(cur)
        return out or set()

    def statement(self, cur):
        if self.q.startswith("(", self.p):
            self.p += 1
            res = set()
            while not self.q.startswith(")", self.p):
                cur = self.statement(cur)
                res |= cur
            self.p += 1
            if not self.q.startswith(";", self.p):
                raise QueryError("; expected")
            self.p += 1
            return res
        m = re.compile(r"(?:(way|relation|rel|node)\((?:id:)?(\d+|r|w)\)|(>>?));").match(self.q, self.p)
        if not m:
            raise QueryError("parse error at %d" % self.p)
        self.p = m.end()
        t, a, rec = m.groups()
        if rec:
            ways = {x for k, r in cur if k == "relation" for x in self.ways(r)}
            return ways | {n for k, w in cur | ways if k == "way" for n in self.nodes(w)}
        t = {"rel": "relation"}.get(t, t)
        if a == "r":
            return {x for k, r in cur if k == "relation" for x in self.ways(r)} if t == "way" else set()
        if a == "w":
            return {n for k, w in cur if k == "way" for n in self.nodes(w)} if t == "node" else set()
        return {(t, int(a))}

    def document(self, els):
        """The answer; its size depends on the ids only."""
        lines = ['<?xml version="1.0" encoding="UTF-8"?>', '<osm version="0.6" generator="sim">']
        for k, i in sorted(els):
            pad = hashlib.sha256(b"%d" % i).hexdigest() * (self.sizes.get(i, 0) // 64)
            lines.append('<%s id="%d">%s</%s>' % (k, i, pad, k))
        return ("\n".join(lines + ["</osm>"]) + "\n").encode()

    def expected(self, kind, i):
        if kind == "way":
            return self.document({("way", i)} | set(self.nodes(i)))
        ws = set(self.ways(i))
        return self.document({("relation", i)} | ws | {n for _, w in ws for n in self.nodes(w)})


# ---- the network ---------------------------------------------------------------------------
class Net:
    def __init__(self, server, rng):
        self.server = server
        self.rng = rng
        self.clock = 0.0
        self.fault = None  # {"kind", "conn", ...}: fault of the conn-th connection of this run
        self.conns = 0
        self.requests = []  # (query, delivered completely)
        self.fired = None
        self.exc = None
        self.lookups = 0

    def is_due(self, kind):
        f = self.fault
        return f is not None and f["kind"] == kind and f["conn"] == self.conns

    def fire(self, exc=None):
        self.fired, self.fault = self.fault, None
        self.exc = exc
        return exc

    def getaddrinfo(self, host, port, family=0, type=0, proto=0, flags=0):
        if self.is_due("dns"):
            raise self.fire(S.gaierror(-3, "Temporary failure in name resolution"))
        if host not in ("overpass-api.de", b"overpass-api.de"):
            raise S.gaierror(-2, "Name or service not known")
        return [(S.AF_INET, S.SOCK_STREAM, 6, "", ("192.0.2.1", int(port)))]

    def socket_class(net):
        real = S.socket

        class SimSocket:
            family, type, proto = S.AF_INET, S.SOCK_STREAM, 6

            def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
                self.timeout = None
                self._io_refs = 0
                self._closed = False
                self.inb = b""
                self.out = None
                self.sent = 0
                self.conn = None

            def setsockopt(self, *a):
                pass

            def settimeout(self, t):
                self.timeout = t

            def gettimeout(self):
                return self.timeout

            def setblocking(self, b):
                self.timeout = None if b else 0.0

            def bind(self, a):
                pass

            def fileno(self):
                return -1 if self._closed else 1000

            def getpeername(self):
                return ("192.0.2.1", 80)

            def connect(self, addr):
                self.conn = net.conns
                f = net.fault
                if net.is_due("refused"):
                    net.fire(ConnectionRefusedError(111, "Connection refused"))
                    net.conns += 1
                    raise net.exc
                if net.is_due("unreachable"):
                    net.fire(TimeoutError(110, "Connection timed out"))
                    net.clock += 130.0
                    net.conns += 1
                    raise net.exc
                self.f = f if f is not None and f["conn"] == net.conns else None
                net.conns += 1
                net.clock += net.rng.uniform(0.01, 0.3)

            def due(self, kind):
                return self.f is not None and self.f is net.fault and self.f["kind"] == kind

            def send(self, data):
                data = bytes(data)
                if self.due("reset-send") and len(self.inb) + len(data) >= self.f["n"]:
                    raise net.fire(ConnectionResetError(104, "Connection reset by peer"))
                self.inb += data
                return len(data)

            def sendall(self, data):
                if hasattr(data, "read"):
                    data = data.read()
                for d in [data] if isinstance(data, (bytes, bytearray, memoryview)) else data:
                    self.send(d)

            def shutdown(self, how):
                pass

            def detach(self):
                return -1

            def serve(self):
                """The server has the request: make the answer."""
                head, sep, body = self.inb.partition(b"\r\n\r\n")
                if not sep:
                    return
                lines = head.decode("latin-1").split("\r\n")
                h = {k.strip().lower(): v.strip() for k, _, v in (l.partition(":") for l in lines[1:])}
                method, target, _ = lines[0].split(" ", 2)
                if len(body) < int(h.get("content-length", 0)):
                    return
                q = body.decode("utf-8", "replace")
                if method == "GET":
                    q = urllib.parse.unquote_plus(urllib.parse.urlsplit(target).query)
                    q = q[5:] if q.startswith("data=") else q
                elif q.startswith("data="):
                    q = urllib.parse.unquote_plus(q[5:])
                self.rec = [q, False]
                net.requests.append(self.rec)
                status, ans = "200 OK", b""
                try:
                    if urllib.parse.urlsplit(target).path != "/api/interpreter":
                        raise QueryError("path")
                    ans = net.server.document(net.server.evaluate(q))
                except QueryError as e:
                    status, ans = "400 Bad Request", str(e).encode()
                self.rec.append(status[:3])
                if self.due("status"):
                    status, ans = self.f["status"], b"<html>" + self.f["status"].encode() + b"</html>\n"
                    net.fire()
                    self.rec[2] = status[:3]
                chunked = net.rng.random() < 0.3
                hd = b"HTTP/1.1 " + status.encode() + b"\r\nContent-Type: application/osm3s+xml\r\nConnection: close\r\n"
                if chunked:
                    hd += b"Transfer-Encoding: chunked\r\n\r\n"
                    out, i = [], 0
                    while i < len(ans):
                        n = net.rng.choice([1, 100, 3000, 8192, 20000])
                        c = ans[i: i + n]
                        out.append(b"%x\r\n%s\r\n" % (len(c), c))
                        i += n
                    ans = b"".join(out) + b"0\r\n\r\n"
                else:
                    hd += b"Content-Length: %d\r\n\r\n" % len(ans)
                self.out = hd + ans
                self.head = len(hd)
                self.frag = net.rng.choice([7, 100, 1460, 1460, 65536, 65536])
                if self.f is not None and self.f["kind"] in ("eof", "reset", "stall", "interrupt", "frag"):
                    # before, within or after the header, or in the body
                    f = self.f
                    self.cut = min(len(self.out) - 1, int(f["part"] * self.head) if f["part"] < 1 else self.head + int((f["part"] - 1) * len(ans)))
                    if f["kind"] == "frag":
                        self.frag = 1 if len(self.out) < 4000 else 13
                        net.fire()

            def recv(self, n, flags=0):
                b = bytearray(n)
                return bytes(b[: self.recv_into(b)])

            def recv_into(self, buf, nbytes=0, flags=0):
                if self.out is None:
                    self.serve()
                if self.out is None:
                    return 0
                n = min(nbytes or len(buf), self.frag, len(self.out) - self.sent)
                f = self.f
                if f is not None and f is net.fault and f["kind"] in ("eof", "reset", "stall", "interrupt"):
                    n = min(n, self.cut - self.sent)
                    if n == 0:
                        if f["kind"] == "eof":
                            net.fire()
                            self.out = self.out[: self.sent]
                            return 0
                        if f["kind"] == "reset":
                            raise net.fire(ConnectionResetError(104, "Connection reset by peer"))
                        if f["kind"] == "interrupt":
                            raise net.fire(EXCS[f["exc"]]("simulated " + f["exc"]))
                        net.clock += f["delay"]
                        net.fire()
                        if self.timeout is not None and self.timeout < f["delay"]:
                            raise TimeoutError("timed out")
                        n = min(nbytes or len(buf), self.frag, len(self.out) - self.sent)
                net.clock += n / 1e5
                buf[:n] = self.out[self.sent: self.sent + n]
                self.sent += n
                if n and self.sent == len(self.out):
                    self.rec[1] = True
                return n

            def makefile(self, *a, **k):
                return real.makefile(self, *a, **k)

            def _decref_socketios(self):
                if self._io_refs > 0:
                    self._io_refs -= 1

            def close(self):
                self._closed = True

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

        return SimSocket

    def __enter__(self):
        self.saved = S.socket, S.getaddrinfo
        S.socket, S.getaddrinfo = self.socket_class(), self.getaddrinfo
        return self

    def __exit__(self, *a):
        S.socket, S.getaddrinfo = self.saved


def parse_query(server, q):
    """The element a query asks for, from what it returns."""
    try:
        els = server.evaluate(q)
    except QueryError:
        return None
    m = re.search(r"(way|relation|rel)\((?:id:)?(\d+)\)", q)
    if not m:
        return None
    k = {"rel": "relation"}.get(m.group(1), m.group(1)), int(m.group(2))
    return k if server.document(els) == server.expected(*k) else None


# ---- the property ------------------------------------------------------------------------------
class C12(StepProp):
    pid = "C12"
    needs_lib = False
    block_size = 25
    quick = (96, 400)
    thorough = (6000, 800)
    rule = "one evaluation = a log with a sequence of runs of the tool in one output folder, each with at most one fault of the network, of the disk or an interrupt; non-trivial: a fault was injected, or more than one run"
    state_measure = "distinct = different (log, faults, exit status and requests of every run)"
    real = ["misc/get_osm_files.py", "urllib.request", "http.client", "socket.create_connection", "io (buffered and text layers)"]
    stubs = ["socket.socket, getaddrinfo: simulated network and Overpass server", "raw file layer: real files in a scratch folder with planned faults"]
    assumptions = [
        "The server announces the length of its answers (Content-Length or chunked); without either a cut answer cannot be told from a complete one.",
        "Ids in a log are not used for elements of different types (both would get the same file name).",
        "A file that was being written when a run failed may be left in any state.",
    ]

    def make(self, lab, rng, block_rng, tier, block, run):
        ids = rng.sample(range(1, 400), 8)
        if rng.random() < 0.3:
            ids[0] += 10 ** 10
        ent = []
        for i in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 7])):
            ent.append([ids[i], rng.choice(["way", "way", "relation"]), rng.choice(SKIP) if rng.random() < 0.3 else rng.choice(STATUS)])
        if len(ent) > 1 and rng.random() < 0.15:
            ent.append(list(rng.choice(ent)))
            if rng.random() < 0.5:
                ent[-1][2] = rng.choice(STATUS + list(SKIP))
        eol = "\r\n" if rng.random() < 0.15 else "\n"
        steps = []
        n = 0
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            n = min(len(ent), max(n, rng.randint(0, len(ent)) if rng.random() < 0.3 else len(ent)))
            s = {"n": n, "final": rng.random() < 0.6}
            if rng.random() < 0.75:
                s["fault"] = self.fault(rng, max(1, n))
            steps.append(s)
        if rng.random() < 0.7:
            steps.append({"n": len(ent), "final": rng.random() < 0.6})
        return {
            "entries": ent, "eol": eol, "steps": steps, "seed": rng.randrange(1 << 30), "pre": rng.choice([0, 0, 1, 2]),
            "dir": rng.choice(["abs", "abs", "slash", "rel", "space"]), "big": rng.choice([0, 0, 64, 640, 6400]),
        }

    def fault(self, rng, n):
        k = rng.random()
        c = rng.randrange(n)
        if k < 0.55:
            kind = rng.choice(["dns", "refused", "unreachable", "reset-send", "eof", "eof", "eof", "reset", "reset", "stall", "status", "frag", "interrupt"])
            f = {"on": "net", "kind": kind, "conn": c}
            if kind == "reset-send":
                f["n"] = rng.choice([1, 50, 200, 250])
            if kind in ("eof", "reset", "stall", "interrupt", "frag"):
                f["part"] = rng.choice([0.0, rng.random(), 1.0, 1.0 + rng.random(), 1.0 + rng.random(), 1.9999])
            if kind == "stall":
                f["delay"] = rng.choice([0.5, 30, 4000])
            if kind == "status":
                f["status"] = rng.choice(["429 Too Many Requests", "504 Gateway Timeout", "500 Internal Server Error", "400 Bad Request", "403 Forbidden", "503 Service Unavailable", "404 Not Found"])
            if kind == "interrupt":
                f["exc"] = rng.choice(sorted(EXCS))
            return f
        if k < 0.85:
            op = rng.choice(["open", "write", "write", "write", "short", "close", "read", "rename"])
            f = {"on": "disk", "op": op, "err": rng.choice(ERRS)}
            if op == "read":
                f.update(n=rng.choice([0, rng.randint(0, 60)]), match="log")
            else:
                f.update(match="_.osm", n=rng.choice([1, rng.randint(1, 2000), rng.randint(1, 30000)]) if op in ("write", "short") else rng.randint(1, n))
                if op == "close":
                    f["lost"] = rng.choice([1, 100, 5000])
            if op == "write" and rng.random() < 0.3:
                f["err"] = rng.choice(["KeyboardInterrupt", "MemoryError", "Cancelled"])
            return f
        if k < 0.9:
            return {"on": "args", "what": rng.choice(["nolog", "nodir", "noargs"])}
        return {"on": "line", "n": rng.randint(1, 14 + 10 * n), "exc": rng.choice(sorted(EXCS))}

    def child(self, lab, plan):
        for k in list(os.environ):
            if k.lower().endswith("_proxy"):
                del os.environ[k]
        base = tempfile.mkdtemp(prefix="simosm")
        try:
            return self.session(plan, base)
        finally:
            shutil.rmtree(base)

    def session(self, plan, base):
        rng = random.Random(plan["seed"])
        ent = [tuple(e) for e in plan["entries"]]
        sizes = {}
        if plan["big"]:
            for i, k, _ in ent:
                sizes[i] = rng.randrange(plan["big"] + 1)
        server = Overpass(sizes)
        out = os.path.join(base, {"space": "out put ü"}.get(plan["dir"], "out"))
        os.mkdir(out)
        arg = {"slash": out + "/", "rel": "out"}.get(plan["dir"], out)
        log = os.path.join(base, "osm.log")

        def name(i):
            return "%d_.osm" % i

        files = {"notes.txt": b"keep", "999999_.osm": b"other", "5_.osm.bak": b"x"}
        if plan["pre"]:
            for e in ent[:: plan["pre"]]:
                files[name(e[0])] = b"old " * rng.choice([1, 10000])
        for k, d in files.items():
            with open(os.path.join(out, k), "wb") as f:
                f.write(d)
        bad, logs, fired = [], [], Counter()

        def fail(k, t):
            bad.append((k, t))

        def content():
            r = {}
            for k in os.listdir(out):
                with open(os.path.join(out, k), "rb") as f:
                    r[k] = f.read()
            return r

        steps = Steps()
        net = None
        clock = 0.0
        with steps:
            for si, s in enumerate(plan["steps"]):
                es = ent[: s["n"]]
                with open(log, "w", newline="") as f:
                    f.write(plan["eol"].join("%d|%s|%s" % e for e in es) + (plan["eol"] if s["final"] and es else ""))
                before = content()
                net = Net(server, rng)
                disk = Disk(base)
                fa = s.get("fault")
                argv = ["--log", log, "--outputDir", arg]
                if fa and fa["on"] == "net":
                    net.fault = fa
                elif fa and fa["on"] == "disk":
                    disk.fault = fa
                elif fa and fa["on"] == "line":
                    steps.arm(fa["n"], fa["exc"])
                elif fa:
                    argv = {"nolog": ["--log", log + "x", "--outputDir", arg], "nodir": ["--log", log, "--outputDir", out + "x"], "noargs": ["--log", log]}[fa["what"]]
                import urllib.request

                urllib.request._opener = None
                exc = None
                with net, disk:
                    exc = run_script("misc/get_osm_files.py", argv, base)
                linef = steps.disarm()
                clock += net.clock
                hit = net.fired or disk.fired or linef
                if fa and fa["on"] == "args" and (fa["what"] != "nodir" or [e for e in es if e[2] not in SKIP]):
                    hit = fa
                if hit:
                    fired[{"net": lambda: "net " + fa["kind"], "disk": lambda: "disk " + fa["op"], "line": lambda: "interrupt", "args": lambda: fa["what"]}[fa["on"]]()] += 1
                after = content()
                want = [(e[1], e[0]) for e in es if e[2] not in SKIP]
                got = [parse_query(server, r[0]) for r in net.requests]
                logs.append([si, type(exc).__name__ if exc is not None else None, [str(r[0]) for r in net.requests], sorted((k, hashlib.sha256(v).hexdigest()[:8]) for k, v in after.items())])
                where = "run %d (%s)" % (si, fa if hit else "no fault")
                wanted_names = {name(i) for _, i in want}
                for k, v in files.items():
                    if k not in wanted_names and after.get(k) != before.get(k):
                        fail("other-file-touched", "%s: %s" % (where, k))
                for g, r in zip(got, net.requests):
                    if g not in want:
                        fail("wrong-request", "%s: %r is not the request of an entry to be downloaded" % (where, r[0]))
                if exc is None:
                    benign = fa and hit and (fa["on"] == "net" and fa["kind"] in ("frag", "stall") or fa["on"] == "disk" and fa["op"] == "short")
                    if hit and not benign and fa["on"] in ("line", "args"):
                        if fa["on"] == "args":
                            fail("failure-reported-as-success", where)
                    if not hit or benign:
                        if got != want:
                            fail("wrong-requests", "%s: requests for %s, expected %s" % (where, got, want))
                    else:
                        seen = list(dict.fromkeys(got))
                        if seen != list(dict.fromkeys(want)):
                            fail("wrong-requests", "%s: requests for %s, expected %s" % (where, got, want))
                    for k, i in want:
                        if after.get(name(i)) != server.expected(k, i):
                            cut = net.fired and fa["kind"] == "eof" and 0 < fa["part"] < 1
                            fail("incomplete-success" + (" (closed within the header)" if cut else ""), "%s ended successfully, but %s has %s bytes instead of %d" % (
                                where, name(i), len(after[name(i)]) if name(i) in after else None, len(server.expected(k, i))))
                else:
                    if not hit or fa["on"] == "net" and fa["kind"] == "frag" or fa["on"] == "disk" and fa["op"] == "short":
                        fail("fails-without-fault", "%s: %r" % (where, exc))
                    if got != want[: len(got)] and list(dict.fromkeys(got)) != list(dict.fromkeys(want[: len(got)])):
                        fail("wrong-requests", "%s: requests for %s, expected the beginning of %s" % (where, got, want))
                    # at most one file is in an intermediate state; all others are complete or as before
                    done = {g for g, r in zip(got, net.requests) if r[1] and r[2] == "200"}
                    odd = []
                    for k, i in dict.fromkeys(want):
                        a = after.get(name(i))
                        if a == server.expected(k, i):
                            continue
                        if (k, i) not in done and a == before.get(name(i)):
                            continue
                        odd.append(name(i))
                    if len(odd) > 1:
                        fail("files-damaged", "%s: %s are neither complete nor as before" % (where, odd))
                if bad:
                    break
        return {"bad": bad[:3], "log": logs, "fired": dict(fired), "kinds": {"run": len(plan["steps"])}, "n": steps.n, "clock": clock}

    def finding_key(self, plan, v):
        return v[0]

    def shrink_more(self, plan):
        for i in range(len(plan["entries"])):
            p = copy.deepcopy(plan)
            del p["entries"][i]
            for s in p["steps"]:
                if s["n"] > i:
                    s["n"] -= 1
            yield p
        for k, v in (("pre", 0), ("dir", "abs"), ("big", 0), ("eol", "\n")):
            if plan[k] != v:
                yield dict(copy.deepcopy(plan), **{k: v})
