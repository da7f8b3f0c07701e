"""Runs a script of the repository as __main__ in this process, with simulated files, against simulated services."""
import builtins
import errno
import io
import os
import sys

from .lab import REPO

real_open = io.open


class Disk:
    """Faults of files below one folder. A fault: {"op", "match", "n", "err"}; op is one of
    open, write, short, close, read, rename, listdir; n counts bytes for write, short and read, else calls."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.fault = None
        self.fired = None
        self.exc = None
        self.order = None  # permutation of listings
        self.n = 0

    def mine(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p == self.root or p.startswith(self.root + os.sep) else None

    def hit(self, op, path, amount=1):
        """True if the planned fault happens now."""
        f = self.fault
        if f is None or f["op"] != op or f.get("match", "") not in path:
            return False
        self.n += amount
        return self.n >= f["n"]

    def fire(self):
        f, self.fault = self.fault, None
        self.fired = f
        if isinstance(f["err"], int):
            self.exc = OSError(f["err"], os.strerror(f["err"]))
        else:
            from .kernel import EXCS

            self.exc = EXCS[f["err"]]("simulated " + f["err"])
        return self.exc

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = None if isinstance(file, int) else self.mine(file)
        if p is None:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if self.hit("open", p):
            raise self.fire()
        raw = SimFile(self, p, "".join(c for c in mode if c not in "bt"), opener=opener)
        try:
            if buffering == 0:
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if "+" in mode:
                buf = io.BufferedRandom(raw, size)
            elif "r" in mode:
                buf = io.BufferedReader(raw, size)
            else:
                buf = io.BufferedWriter(raw, size)
            if "b" in mode:
                return buf
            t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
            t.mode = mode
            return t
        except BaseException:
            raw.close()
            raise

    def listing(self, names, path):
        names = sorted(names, key=lambda x: x if isinstance(x, str) else x.name)
        if self.hit("listdir", path):
            raise self.fire()
        if self.order is None:
            return names
        k = {n: i for i, n in enumerate(self.order)}
        return sorted(names, key=lambda x: k.get(x if isinstance(x, str) else x.name, -1))

    def __enter__(self):
        self.saved = (builtins.open, io.open, os.listdir, os.scandir, os.rename, os.replace)
        ls, sc, rn, rp = self.saved[2:]
        disk = self

        class Scan(list):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass

        def listdir(path="."):
            r = ls(path)
            p = disk.mine("." if path is None else path)
            return r if p is None else disk.listing(r, p)

        def scandir(path="."):
            p = disk.mine("." if path is None else path)
            if p is None:
                return sc(path)
            with sc(path) as it:
                r = list(it)
            return Scan(disk.listing(r, p))

        def ren(real):
            def f(a, b, **k):
                p = disk.mine(b)
                if p is not None and disk.hit("rename", p):
                    raise disk.fire()
                return real(a, b, **k)

            return f

        builtins.open = io.open = self.open
        os.listdir, os.scandir, os.rename, os.replace = listdir, scandir, ren(rn), ren(rp)
        return self

    def __exit__(self, *a):
        builtins.open, io.open, os.listdir, os.scandir, os.rename, os.replace = self.saved


class SimFile(io.FileIO):
    def __init__(self, disk, path, mode, opener=None):
        self.disk = disk
        self.path = path
        super().__init__(path, mode, opener=opener)
        self.wrote = "r" not in mode or "+" in mode

    def write(self, data):
        d = self.disk
        n = len(memoryview(data).cast("B"))
        f = d.fault
        if f is not None and f["op"] in ("write", "short") and f.get("match", "") in self.path:
            left = f["n"] - d.n
            if n >= left:
                part = memoryview(data).cast("B")[: max(left, 0)]
                k = super().write(part) if len(part) else 0
                if f["op"] == "write":
                    raise d.fire()  # the device took a part of the data
                d.fault = None
                d.fired = f
                if k:
                    return k  # a short write is no error
            else:
                d.n += n
        return super().write(data)

    def readinto(self, b):
        d = self.disk
        f = d.fault
        if f is not None and f["op"] == "read" and f.get("match", "") in self.path:
            if d.n >= f["n"]:
                raise d.fire()
            k = super().readinto(memoryview(b)[: f["n"] - d.n])
            d.n += k
            return k
        return super().readinto(b)

    def readall(self):
        parts = []
        while True:
            b = bytearray(8192)
            k = self.readinto(b)
            if not k:
                return b"".join(parts)
            parts.append(bytes(b[:k]))

    def close(self):
        d = self.disk
        if not self.closed and getattr(self, "wrote", False) and d.hit("close", self.path):
            size = os.fstat(self.fileno()).st_size
            os.ftruncate(self.fileno(), max(0, size - d.fault.get("lost", 1)))  # delayed writes are lost
            super().close()
            raise d.fire()
        super().close()


def run_script(rel, argv, cwd=None):
    """Executes the script as __main__; returns the exception it ended with, None for success."""
    path = os.path.join(REPO, rel)
    with real_open(path, "rb") as f:
        src = f.read()
    saved = sys.argv, list(sys.path), os.getcwd(), sys.modules.get("__main__"), sys.stderr
    import io
    import types

    m = types.ModuleType("__main__")
    m.__file__ = path
    sys.modules["__main__"] = m
    sys.argv = [path] + argv
    sys.path[0:0] = [os.path.dirname(path)]
    if cwd:
        os.chdir(cwd)
    sys.stderr = io.StringIO()
    try:
        exec(compile(src, path, "exec", dont_inherit=True), m.__dict__)
        return None
    except SystemExit as e:
        return None if e.code in (None, 0) else e
    except BaseException as e:
        return e
    finally:
        sys.argv = saved[0]
        sys.path[:] = saved[1]
        os.chdir(saved[2])
        sys.modules["__main__"] = saved[3]
        sys.stderr = saved[4]


ERRS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES]
