"""C14: the same calls in processes that differ in everything that must not matter."""
import ast
import builtins
import copy
import gc
import importlib.abc
import importlib.util
import json
import os
import random
import subprocess
import sys
import threading

from . import workload as W
from .base import Prop
from .zygote import fixed_env
from .lab import REPO, Skip

MODS = ("bpyeuclid", "poly2FacesGraph", "bpypolyskel")


# ---- unordered collections with a planned order -----------------------------------------
class Order:
    rng = None
    mode = None
    used = 0


def arranged(items):
    items = list(items)
    if len(items) < 2 or Order.mode is None:
        return items
    Order.used += 1
    if Order.mode == "reverse":
        items.reverse()
    elif Order.mode == "shuffle":
        Order.rng.shuffle(items)
    elif Order.mode == "rotate":
        items = items[1:] + items[:1]
    return items


class SimSet(set):
    def __iter__(self):
        return iter(arranged(set.__iter__(self)))

    def pop(self):
        x = next(iter(self))
        self.discard(x)
        return x


def _wrap(name):
    f = getattr(set, name)

    def g(self, *a):
        r = f(self, *a)
        return SimSet(set.__iter__(r)) if type(r) is set else r

    setattr(SimSet, name, g)


for _n in ("__or__", "__and__", "__sub__", "__xor__", "__ror__", "__rand__", "__rsub__", "__rxor__", "union", "intersection", "difference", "symmetric_difference", "copy"):
    _wrap(_n)


class SimFrozen(frozenset):
    def __iter__(self):
        return iter(arranged(frozenset.__iter__(self)))


class Sets(ast.NodeTransformer):
    """Set displays and comprehensions become calls, so that their order can be planned."""

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__simset__", ast.Load()), [ast.copy_location(ast.List(node.elts, ast.Load()), node)], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__simset__", ast.Load()), [ast.copy_location(ast.ListComp(node.elt, node.generators), node)], []), node)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Loads the modules of the library from the working tree, with the seam for sets."""

    def find_spec(self, name, path, target=None):
        if name.startswith("bpypolyskel."):
            f = os.path.join(REPO, *name.split(".")) + ".py"
            if os.path.exists(f):
                s = importlib.util.spec_from_loader(name, self, origin=f)
                s.has_location = True
                return s
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        module.__file__ = f
        with open(f, "rb") as fh:
            tree = Sets().visit(ast.parse(fh.read(), f))
        ast.fix_missing_locations(tree)
        module.__dict__.update(__simset__=SimSet, set=SimSet, frozenset=SimFrozen)
        exec(compile(tree, f, "exec", dont_inherit=True), module.__dict__)


def sequence(b, euclid, ops):
    res = []
    for op in ops:
        I = W.materialise(op, None, None, None, b, euclid)
        try:
            r = W.exact(I, W.call(I, b))
        except Exception as e:
            r = ("exc", type(e).__name__)
        res.append(r)
    return res


# variables of the environment and modules of a host that a process may have
VARS = {
    "LANG": ["C", "de_DE.UTF-8", "tr_TR.UTF-8", "en_US.UTF-8"], "LC_ALL": ["C", "C.utf8", "de_DE"], "LC_NUMERIC": ["de_DE"], "TZ": ["UTC", "Asia/Tokyo", "America/St_Johns"],
    "HOME": ["/", "/nonexistent", "/tmp"], "USER": ["root", "nobody", "x"], "LOGNAME": ["root", "nobody"], "CI": ["true", "1"], "DEBUG": ["1", "0", ""], "TERM": ["dumb", "xterm"],
    "PYTHONUTF8": ["0", "1"], "PYTHONMALLOC": ["malloc", "debug", "pymalloc"], "PYTHONDEBUG": [""], "PYTHONINTMAXSTRDIGITS": ["0", "4300"], "OMP_NUM_THREADS": ["1", "8"], "DISPLAY": [":0"],
    "TMPDIR": ["/nonexistent", "/tmp"], "HOSTNAME": ["a", "b"], "BPYPOLYSKEL_DEBUG": ["1"], "BLENDER_USER_SCRIPTS": ["/tmp"], "PYTEST_CURRENT_TEST": ["tests/test_x.py::test_polygonize (call)"], "VERIF_SEED": ["9"],
}
MODULES = {"bpy": 0, "bmesh": 0, "bpy_extras": 0, "pytest": 0, "unittest": 1, "decimal": 1, "fractions": 1, "multiprocessing": 1, "asyncio": 1, "numpy": 1, "logging": 1, "ctypes": 1, "readline": 0, "pydevd": 0, "coverage": 0, "IPython": 0}


def host_module(name):
    m = sys.modules[name] = type(sys)(name)
    m.app = type(sys)(name + ".app")
    m.app.version = (4, 2, 0)
    m.app.background = True


def child():
    """Runs in a new interpreter: plan on stdin, results on stdout."""
    d = json.load(sys.stdin)
    env = d["env"]
    sys.dont_write_bytecode = True
    from . import seams

    seams.install()
    if env.get("clock"):
        t0 = float(env["clock"])
        import time

        time.time = time.monotonic = time.perf_counter = lambda: t0
    random.seed(env.get("rand", 0))
    ballast = []
    if env.get("ballast"):
        r = random.Random(env["ballast"])
        for _ in range(r.randrange(4000)):
            ballast.append(r.choice([lambda: bytearray(r.randrange(1, 600)), lambda: [None] * r.randrange(40), lambda: object(), lambda: {1: 2}, lambda: (1.5 * r.random(),)])())
        for i in sorted({r.randrange(len(ballast) or 1) for _ in range(len(ballast) // 2)}, reverse=True):
            if i < len(ballast):
                del ballast[i]
    g = env.get("gc")
    if g == "off":
        gc.disable()
    elif g == "often":
        gc.set_threshold(3, 2, 2)
    elif g == "frozen":
        gc.freeze()
    if env.get("order"):
        Order.mode = env["order"][0]
        Order.rng = random.Random(env["order"][1])
    for n in env.get("mods") or ():
        if MODULES[n]:
            __import__(n)
        else:
            host_module(n)
    if "argv" in env:
        sys.argv = ["x.py"] + env["argv"]
    if env.get("cpus"):
        n = env["cpus"]
        os.cpu_count = lambda: n
        os.sched_getaffinity = lambda pid: set(range(n))
    if env.get("limit"):
        sys.setrecursionlimit(env["limit"])
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, Finder())
    names = list(MODS)
    if env.get("imports"):
        random.Random(env["imports"]).shuffle(names)
    mods = {}
    for n in names:
        try:
            mods[n] = importlib.import_module("bpypolyskel." + n)
        except Exception as e:
            json.dump({"res": [("exc", "import fails: " + type(e).__name__)] * len(d["ops"]), "sets": 0, "collections": 0, "str": 0}, sys.stdout)
            return
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    W.footprints()
    if env.get("cwd"):
        os.chdir(env["cwd"])
    if env.get("fork"):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                seams.PID += 1
                with os.fdopen(w, "w") as f:
                    json.dump(sequence(mods["bpypolyskel"], mods["bpyeuclid"], d["ops"]), f)
                os._exit(0)
            finally:
                os._exit(3)
        os.close(w)
        with os.fdopen(r) as f:
            t = f.read()
        if os.waitpid(pid, 0)[1]:
            raise RuntimeError("forked process")
        res = json.loads(t)
    elif "thread" in env:
        threading.stack_size(env["thread"])
        got, end = [], seams.real_allocate()
        end.acquire()

        def body():
            try:
                got.append(sequence(mods["bpypolyskel"], mods["bpyeuclid"], d["ops"]))
            finally:
                end.release()

        seams.real_start(body, ())
        end.acquire()
        res = got[0]
    else:
        res = sequence(mods["bpypolyskel"], mods["bpyeuclid"], d["ops"])
    json.dump({"res": res, "sets": Order.used, "collections": gc.get_stats()[0]["collections"], "str": hash("x") & 0xFFFF}, out)
    out.close()


class C14(Prop):
    pid = "C14"
    block_size = 6
    quick = (96, 500)
    thorough = (2400, 800)
    min_budget = (80, 90)
    rule = "one evaluation = a sequence of calls in a new interpreter with planned hash seed, memory ballast, garbage collection, clock, random state, import order, optimisation, environment variables, command line, folder, thread, forked process, loaded modules, number of processors, recursion limit, flags and order of unordered collections, compared bit by bit and index by index with a plain process; non-trivial: at least one of these differs from the plain process"
    state_measure = "distinct = different (calls, environment)"
    real = ["bpypolyskel/bpypolyskel.py", "bpypolyskel/poly2FacesGraph.py", "bpypolyskel/bpyeuclid.py", "mathutils", "CPython 3.12, a new process for each run"]
    stubs = ["set and frozenset in the library: iteration order planned (subclass; set displays rewritten to calls while loading from the working tree)", "clock: constant, planned", "address randomisation off, memory layout varied by planned ballast"]
    assumptions = ["dict order is insertion order, as the language guarantees"]

    def make(self, lab, rng, block_rng, tier, block, run):
        names = sorted(n for n in W.footprints() if not n.startswith("tie_"))
        size = {n: len(W.footprints()[n]["outer"]) for n in names}
        ops = []
        budget = 260
        if rng.random() < 0.3:
            names = [n for n in names if size[n] > 30]
        while budget > 0 and len(ops) < 14:
            n = rng.choice(names)
            if size[n] > budget and ops:
                break
            budget -= size[n]
            op = {"k": "skel" if rng.random() < 0.15 else "poly", "f": n}
            if op["k"] == "poly":
                if rng.random() < 0.4:
                    op["uv"] = 1
                if rng.random() < 0.3:
                    op["off"] = rng.choice([1, 8, 40, 300])
                if rng.random() < 0.3:
                    op["st"] = rng.randrange(size[n])
                if rng.random() < 0.3:
                    op["fl"] = 0
                if rng.random() < 0.4:
                    op["cv"] = rng.choice([1, 2])
            ops.append(op)
        env = {}
        if rng.random() < 0.8:
            env["hash"] = rng.randrange(1, 2**32 - 1)
        if rng.random() < 0.6:
            env["order"] = [rng.choice(["shuffle", "shuffle", "reverse", "rotate"]), rng.randrange(10**6)]
        if rng.random() < 0.6:
            env["ballast"] = rng.randrange(1, 10**6)
        if rng.random() < 0.5:
            env["gc"] = rng.choice(["off", "often", "frozen"])
        if rng.random() < 0.3:
            env["clock"] = rng.choice([1.0, 1.7e9, 4.0e9])
        if rng.random() < 0.3:
            env["rand"] = rng.randrange(1, 10**6)
        if rng.random() < 0.3:
            env["imports"] = rng.randrange(1, 10**6)
        if rng.random() < 0.2:
            env["opt"] = rng.choice([1, 2])
        if rng.random() < 0.35:
            r = rng.random()
            env["vars"] = {k: rng.choice(v) for k, v in sorted(VARS.items()) if rng.random() < r}
        if rng.random() < 0.25:
            env["argv"] = rng.choice([[], ["-v"], ["--debug", "-t", "1"], ["blender", "--background", "--python", "x.py"]])
        if rng.random() < 0.25:
            env["cwd"] = rng.choice(["/", "/usr", "/proc/self"])
        if rng.random() < 0.25:
            env["thread"] = rng.choice([0, 1 << 20, 1 << 26])
        elif rng.random() < 0.3:
            env["fork"] = 1
        if rng.random() < 0.35:
            env["mods"] = sorted(rng.sample(sorted(MODULES), rng.randint(1, 3)))
        if rng.random() < 0.2:
            env["cpus"] = rng.choice([1, 2, 64])
        if rng.random() < 0.2:
            env["limit"] = rng.choice([1500, 3000, 10**5])
        if rng.random() < 0.2:
            env["flags"] = rng.choice([["-W", "error"], ["-X", "dev"], ["-q"], ["-X", "no_debug_ranges"], ["-b"]])
        if not env:
            env["hash"] = 1
        return {"ops": ops, "env": env}

    def preload(self, lab):
        W.footprints()

    def plain(self, lab, plan):
        return json.loads(json.dumps(sequence(lab.b, lab.euclid, plan["ops"])))

    def execute(self, lab, plan):
        want = lab.remote("prop", "plain", [plan], timeout=100)
        env = plan["env"]
        e = fixed_env(PYTHONHASHSEED=str(env.get("hash", 0)))
        e.update(env.get("vars") or {})
        args = [sys.executable] + (env.get("flags") or []) + (["-" + "O" * env["opt"]] if env.get("opt") else []) + ["-c", "from sim.proc import child; child()"]
        p = subprocess.run(args, input=json.dumps(plan), cwd=os.path.dirname(W.HERE), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
        if p.returncode:
            raise RuntimeError("child: %s" % p.stderr[-3000:])
        got = json.loads(p.stdout)
        diffs = []
        for i, (a, b) in enumerate(zip(want, got["res"])):
            if a != b:
                diffs.append((i, self.describe(a, b)))
        return {"diffs": diffs, "sets": got["sets"], "str": got["str"], "collections": got["collections"]}

    def timeout(self, lab, plan):
        raise Skip()

    def describe(self, a, b):
        if a[0] != b[0]:
            return "%s in a plain process, %s here" % (str(a)[:60], str(b)[:60])
        if a[0] == "poly":
            if a[1] != b[1]:
                return "vertices differ"
            if sorted(map(tuple, a[2])) == sorted(map(tuple, b[2])):
                return "the faces are the same, in another order"
            x = [f for f in a[2] if f not in b[2]][:2]
            y = [f for f in b[2] if f not in a[2]][:2]
            return "faces differ: %s in a plain process, %s here" % (x, y)
        return "skeletons differ"

    def judge(self, plan, out):
        return [("depends-on-process", "%s: %s" % (plan["ops"][i]["f"], t)) for i, t in out["diffs"]]

    def fingerprint(self, out):
        return [out["diffs"], out["sets"], out["str"]]

    def measure(self, plan, out, st):
        names = {"hash": "other hash seed", "order": "other order of unordered collections", "ballast": "other memory layout", "gc": "other garbage collection", "clock": "other time", "rand": "other random state", "imports": "other import order", "opt": "assertions stripped", "vars": "other environment variables", "argv": "other command line", "cwd": "other working directory", "thread": "in another thread", "fork": "forked after the import", "mods": "modules of a host loaded", "cpus": "other number of processors", "limit": "other recursion limit", "flags": "other flags of the interpreter"}
        for k in plan["env"]:
            st["fired"][names[k]] += 1
        st["extra"]["iterations over sets of more than one element with planned order"] += out["sets"]
        st["ops"] += len(plan["ops"])
        st["nontrivial"] += 1
        st["distinct"].add(hash(json.dumps(plan, sort_keys=True)))
        if not st["samples"]:
            st["samples"].append({"plan": plan, "differences": out["diffs"]})

    def shrink(self, plan):
        n = len(plan["ops"])
        if n > 1:
            for i in range(n):
                yield dict(plan, ops=[plan["ops"][i]])
            for i in range(n):
                yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
        for k in sorted(plan["env"]):
            e = dict(plan["env"])
            del e[k]
            yield dict(plan, env=e)
        for i, op in enumerate(plan["ops"]):
            for k in sorted(op):
                if k not in ("k", "f"):
                    p = copy.deepcopy(plan)
                    del p["ops"][i][k]
                    yield p
