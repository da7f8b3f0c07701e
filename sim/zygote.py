"""Pristine processes. A zygote is a freshly executed interpreter with a fixed environment, without address
randomisation, which has imported the code under test and has never called it. It forks one child per request and
does nothing else, so that a run is the same down to the addresses of its objects whoever asks for it and
whatever ran before: in a check, after it, or in a replay.
"""
import gc
import io
import json
import marshal
import os
import pickle
import random
import select
import signal
import sys
import traceback

from . import seams

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO, REQ, RES, STAT = 10, 11, 12, 13  # file descriptors of a zygote


class ChildFailure(Exception):
    pass


class ChildTimeout(ChildFailure):
    pass


def fixed_env(**more):
    keep = ("PATH", "HOME", "LANG", "LC_ALL", "MPLCONFIGDIR", "TMPDIR")
    env = {k: os.environ[k] for k in keep if k in os.environ}
    env.update(SIM_FIXED="1", PYTHONHASHSEED=os.environ.get("SIM_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    if "SIM_HASHSEED" in os.environ:
        env["SIM_HASHSEED"] = os.environ["SIM_HASHSEED"]
    env.update(more)
    return env


# ---- in the zygote ---------------------------------------------------------------------
def serve():
    pid = sys.argv[1]
    from . import registry
    from .lab import Lab

    props = registry.table()
    lab = Lab(props[pid].needs_lib)
    prop = props[pid]()
    prop.preload(lab)
    objs = {"lab": lab, "prop": prop}
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    gc.collect()
    while os.read(GO, 1):
        p = os.fork()
        if p == 0:
            child(objs)
        os.write(STAT, p.to_bytes(8, "little"))
        os.write(STAT, (os.waitpid(p, 0)[1] & 0xFFFF).to_bytes(8, "little"))


def child(objs):
    code = 1
    try:
        os.close(GO)
        os.close(STAT)
        n = int.from_bytes(os.read(REQ, 8), "little")
        parts = []
        while n:
            d = os.read(REQ, min(n, 1 << 16))
            parts.append(d)
            n -= len(d)
        os.close(REQ)
        obj, method, args, extra = marshal.loads(b"".join(parts))
        del parts
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        sys.stdout = io.StringIO()
        sys.setswitchinterval(100.0)
        random.seed(12345)
        try:
            a = [objs["lab"]] if obj == "prop" else []
            a += json.loads(args)
            if extra is not None:
                a.append(extra)
            res = ("ok", getattr(objs[obj], method)(*a))
        except BaseException as e:
            res = ("err", "".join(traceback.format_exception(e))[-3000:])
        data = pickle.dumps(res)
        data = len(data).to_bytes(8, "little") + data
        n = 0
        while n < len(data):
            n += os.write(RES, data[n: n + (1 << 16)])
        code = 0
    finally:
        os._exit(code)


# ---- on the other side -------------------------------------------------------------------
class Zygote:
    def __init__(self, pid):
        self.owner = seams.real_getpid()
        pipes = [os.pipe() for _ in range(4)]  # go, req: we write; res, stat: we read
        self.pid = os.fork()
        if self.pid == 0:
            try:
                ours = [r for r, _ in pipes[:2]] + [w for _, w in pipes[2:]]
                high = [os.dup2(fd, 100 + i, inheritable=False) for i, fd in enumerate(ours)]
                for i, fd in enumerate(high):
                    os.dup2(fd, GO + i, inheritable=True)
                os.chdir(ROOT)
                os.execve(sys.executable, [sys.executable, "-c", "from sim.zygote import serve; serve()", pid], fixed_env())
            finally:
                os._exit(1)
        for r, _ in pipes[:2]:
            os.close(r)
        for _, w in pipes[2:]:
            os.close(w)
        self.go, self.req = pipes[0][1], pipes[1][1]
        self.res, self.stat = pipes[2][0], pipes[3][0]

    def ask(self, obj, method, args, extra, timeout):
        msg = marshal.dumps([obj, method, json.dumps(args), extra], 0)
        os.write(self.go, b"g")
        data = len(msg).to_bytes(8, "little") + msg
        n = 0
        while n < len(data):
            n += os.write(self.req, data[n: n + (1 << 16)])
        pid = int.from_bytes(self.exactly(self.stat, 8), "little")
        end = seams.real_monotonic() + timeout  # it only ends hanging children, it decides no result
        parts = []
        status = None
        late = False
        while True:
            fds = [self.res] if status is not None else [self.res, self.stat]
            fds, _, _ = select.select(fds, [], [], max(0.0, end - seams.real_monotonic()) if status is None else 0)
            if self.res in fds:
                parts.append(os.read(self.res, 1 << 16))
            elif status is not None:
                break
            else:
                if self.stat not in fds:
                    late = True
                    os.kill(pid, signal.SIGKILL)
                status = int.from_bytes(self.exactly(self.stat, 8), "little")
        if late:
            raise ChildTimeout("no answer within %s s" % timeout)
        data = b"".join(parts)
        if len(data) < 8 or len(data) - 8 != int.from_bytes(data[:8], "little"):
            raise ChildFailure("child ended with status %s" % status)
        kind, val = pickle.loads(data[8:])
        if kind == "err":
            raise ChildFailure(val)
        return val

    def exactly(self, fd, n):
        d = b""
        while len(d) < n:
            x = os.read(fd, n - len(d))
            if not x:
                raise RuntimeError("the zygote is gone")
            d += x
        return d
