"""C13: the generator of test scripts in a simulated Blender with the blender-osm add-on."""
import copy
import errno
import json
import os
import random
import re
import shutil
import sys
import tempfile
import types
from collections import Counter

from .hosts import StepProp, Steps
from .kernel import EXCS
from .scripts import Disk, run_script

CONFIG = "config_generate_pytest_scripts.txt"
KEYS = ["blosmPath", "osmFilesDir", "outputDir", "assetsDir", "outputTemplate", "outputFileNamePrefix"]

ADDON = """
import bpy
registered = False
bpy._host.call("addon", lambda: None)

def register():
    bpy._host.register()

def unregister():
    bpy._host.registered = False
"""


class Settings:
    """The property group of the add-on: only known settings, only strings where strings are needed."""

    def __init__(self, host):
        object.__setattr__(self, "_h", host)
        for k, v in (("osmSource", "server"), ("osmFilepath", ""), ("assetsDir", ""), ("setupScript", "")):
            object.__setattr__(self, k, v)

    def __setattr__(self, k, v):
        if not isinstance(v, str):
            raise TypeError("bpy_struct: item.attr = val: BlosmProperties.%s expected a string type, not %s" % (k, type(v).__name__))
        if k == "osmSource" and v not in ("server", "file"):
            raise TypeError('enum "%s" not found in (\'server\', \'file\')' % v)
        self._h.call("set " + k, lambda: object.__setattr__(self, k, v))


class Scene(dict):
    """Custom properties and, once the add-on is registered, its settings."""


class BlosmHost:
    def __init__(self):
        self.registered = False
        self.fault = None
        self.fired = None
        self.imports = []
        self.scene = Scene()
        self.other = 0

    def call(self, name, do):
        f = self.fault
        if f and f["call"] == name:
            f["n"] -= 1
            if f["n"] == 0:
                self.fault = None
                if f["when"] == "after":
                    do()
                e = f["err"]
                self.fired = EXCS[e]("simulated " + e) if e in EXCS else {"ImportError": ImportError, "RuntimeError": RuntimeError}[e]("simulated error in " + name)
                raise self.fired
        return do()

    def register(self):
        if self.registered:
            raise ValueError("already registered")

        def do():
            self.registered = True
            self.scene.blosm = Settings(self)

        self.call("register", do)

    def install(self):
        bpy = types.ModuleType("bpy")
        bpy._host = self
        bpy.context = types.SimpleNamespace(scene=self.scene)
        bpy.data = types.SimpleNamespace(scenes=[self.scene], objects=[])
        host = self

        class Blosm:
            def __getattr__(self, n):
                if n == "import_data":
                    return host.import_data
                raise AttributeError('Calling operator "bpy.ops.blosm.%s" error, could not be found' % n)

        bpy.ops = types.SimpleNamespace(blosm=Blosm())
        sys.modules["bpy"] = bpy
        sys.modules.pop("blender-osm", None)

    def import_data(self, *a, **k):
        if not self.registered:
            raise AttributeError('Calling operator "bpy.ops.blosm.import_data" error, could not be found')
        b = self.scene.blosm
        rec = {k: getattr(b, k) for k in ("osmSource", "osmFilepath", "assetsDir", "setupScript")}
        rec["scene"] = dict(self.scene)
        rec["ok"] = False
        self.imports.append(rec)
        self.call("import_data", lambda: None)
        rec["ok"] = True
        return {"FINISHED"}


class C13(StepProp):
    pid = "C13"
    needs_lib = False
    block_size = 25
    quick = (96, 400)
    thorough = (6000, 800)
    rule = "one evaluation = a sequence of runs of the generator, each with its own configuration, folder content, listing order and at most one fault; non-trivial: a fault was injected, or the folder has more than one file"
    state_measure = "distinct = different (configuration, folder, order, fault, exit status and imports of every run)"
    real = ["misc/generate_pytest_scripts.py", "json", "the import system"]
    stubs = ["bpy and the blender-osm add-on: model of registration, settings and the import operator, with errors as planned", "raw file layer and folder listings: real files in a scratch folder, planned order and faults"]
    assumptions = ["An import fails if the operator raises, as Blender operators that report an error do.", "The configuration has all six keys; the folder contains files only."]

    def make(self, lab, rng, block_rng, tier, block, run):
        steps = []
        names = []
        for _ in range(rng.choice([0, 1, 2, 3, 3, 5, 9])):
            n = str(rng.choice([rng.randrange(1000), rng.randrange(10 ** 10)]))
            if names and rng.random() < 0.3:  # another file of the same element
                n = re.match(r"r?(\d+)", rng.choice(names)).group(1)
            names.append(rng.choice(["%s_.osm", "%s_.osm", "%s_.osm", "%s_.osm", "%s.osm", "%s_straße_1_.osm", "%s_via roma_.osm", "%s_.OSM", "r%s_.osm.xml"]) % n)
        names = sorted(set(names))
        for _ in range(rng.choice([1, 1, 2, 3])):
            ns = [x for x in names if rng.random() < 0.85] if rng.random() < 0.4 else list(names)
            rng.shuffle(ns)
            s = {"names": ns, "keys": rng.sample(KEYS, len(KEYS)), "rel": rng.random() < 0.15, "slash": rng.random() < 0.2, "v": rng.randrange(100), "indent": rng.choice([None, 4])}
            if rng.random() < 0.15:
                s["extra"] = True
            if rng.random() < 0.65:
                s["fault"] = self.fault(rng, max(1, len(ns)))
            steps.append(s)
        return {"steps": steps, "seed": rng.randrange(1 << 30)}

    def fault(self, rng, n):
        k = rng.random()
        if k < 0.3:
            what = rng.choice(["missing", "cut", "cut", "cut", "garbled", "latin1", "empty", "list", "directory"])
            return {"on": "config", "what": what, "part": rng.random()}
        if k < 0.5:
            op = rng.choice(["open", "read", "read", "listdir"])
            return {"on": "disk", "op": op, "n": rng.choice([0, rng.randint(0, 300)]) if op == "read" else 1, "match": "" if op == "listdir" else CONFIG, "err": rng.choice([errno.EIO, errno.EACCES])}
        if k < 0.88:
            call = rng.choice(["import_data"] * 6 + ["addon", "register", "set osmFilepath", "set assetsDir", "set setupScript", "set osmSource"])
            err = rng.choice(["RuntimeError"] * 3 + ["MemoryError", "KeyboardInterrupt", "Error", "SystemExit", "ImportError", "OSError"])
            return {"on": "host", "call": call, "n": rng.randint(1, n) if call in ("import_data", "set osmFilepath") else 1, "when": rng.choice(["before", "after"]), "err": err}
        return {"on": "line", "n": rng.randint(1, 22 + 3 * n), "exc": rng.choice(sorted(EXCS))}

    def child(self, lab, plan):
        base = tempfile.mkdtemp(prefix="simgen")
        try:
            return self.session(plan, base)
        finally:
            shutil.rmtree(base)

    def session(self, plan, base):
        rng = random.Random(plan["seed"])
        bad, logs, fired = [], [], Counter()
        steps = Steps()
        cwd = os.path.join(base, "work")
        osm = os.path.join(base, "osm files")
        blosm = os.path.join(base, "addons", "blender-osm")
        for d in (cwd, osm, blosm):
            os.makedirs(d)
        for n in ("a.txt", "7_.osm"):
            open(os.path.join(cwd, n), "w").close()  # the working folder is not the configured one
        with open(os.path.join(blosm, "__init__.py"), "w") as f:
            f.write(ADDON)
        sys.dont_write_bytecode = True

        def fail(k, t):
            bad.append((k, t.replace(base, "<scratch>")))

        with steps:
            for si, s in enumerate(plan["steps"]):
                for n in os.listdir(osm):
                    if n not in s["names"]:
                        os.unlink(os.path.join(osm, n))
                for n in s["names"]:
                    open(os.path.join(osm, n), "w").close()
                v = s["v"]
                rel = (lambda p: os.path.relpath(p, cwd)) if s["rel"] else (lambda p: p)
                end = "/" if s["slash"] else ""
                cfg = {
                    "blosmPath": rel(blosm), "osmFilesDir": rel(osm) + end, "outputDir": "/data/tests%d" % v, "assetsDir": "/data/ässets%d" % v + end,
                    "outputTemplate": "template%d.py" % v, "outputFileNamePrefix": "test_%d_" % v,
                }
                data = {k: cfg[k] for k in s["keys"]}
                if s.get("extra"):
                    data["comment"] = ["not used", 1]
                text = json.dumps(data, indent=s["indent"], ensure_ascii=bool(v % 2)).encode()
                fa = s.get("fault")
                path = os.path.join(cwd, CONFIG)
                if os.path.isdir(path):
                    os.rmdir(path)
                readable = True
                if fa and fa["on"] == "config":
                    readable = False
                    w = fa["what"]
                    if w == "cut":
                        text = text[: int(fa["part"] * len(text))]
                    elif w == "garbled":
                        i = int(fa["part"] * (len(text) - 1))
                        text = b"\x00" + text[i:]
                    elif w == "latin1":
                        text = b'{"blosmPath": "\xff\xfe", ' + text[1:]
                    elif w == "empty":
                        text = b""
                    elif w == "list":
                        text = b"[" + text + b"]"
                    if os.path.exists(path):
                        os.unlink(path)
                    if w == "directory":
                        os.mkdir(path)
                    elif w != "missing":
                        with open(path, "wb") as f:
                            f.write(text)
                else:
                    with open(path, "wb") as f:
                        f.write(text)
                host = BlosmHost()
                host.install()
                disk = Disk(base)
                disk.order = s["names"]
                if fa and fa["on"] == "disk":
                    disk.fault = fa
                elif fa and fa["on"] == "host":
                    host.fault = dict(fa)
                elif fa and fa["on"] == "line":
                    steps.arm(fa["n"], fa["exc"])
                with disk:
                    exc = run_script("misc/generate_pytest_scripts.py", [], cwd)
                linef = steps.disarm()
                hit = host.fired or disk.fired or linef or not readable
                if hit:
                    fired[{"config": lambda: "config " + fa["what"], "disk": lambda: "disk " + fa["op"], "line": lambda: "interrupt", "host": lambda: "host " + fa["call"]}[fa["on"]]()] += 1
                where = "run %d (%s)" % (si, fa if hit else "no fault")
                logs.append([si, type(exc).__name__ if exc is not None else None, [(os.path.basename(r["osmFilepath"]), r["ok"]) for r in host.imports]])
                got = [os.path.normpath(os.path.join(cwd, r["osmFilepath"])) for r in host.imports]
                want = sorted(os.path.join(osm, n) for n in s["names"])
                if len(set(got)) != len(got):
                    fail("imported-twice", "%s: %s" % (where, got))
                if set(got) - set(want):
                    fail("wrong-file", "%s: %s" % (where, sorted(set(got) - set(want))))
                for r in host.imports:
                    e = {
                        "osmSource": "file", "assetsDir": cfg["assetsDir"],
                        "scene": {"outputDir": cfg["outputDir"], "outputTemplate": cfg["outputTemplate"], "outputFileNamePrefix": cfg["outputFileNamePrefix"]},
                    }
                    diff = [k for k in ("osmSource", "assetsDir") if r[k] != e[k]]
                    diff += [k for k, x in e["scene"].items() if r["scene"].get(k) != x]
                    if os.path.normpath(os.path.join(cwd, r["setupScript"])) != os.path.join(blosm, "setup", "test_hipped.py"):
                        diff.append("setupScript")
                    if diff:
                        fail("settings-not-in-place", "%s: import of %s with wrong %s" % (where, r["osmFilepath"], diff))
                        break
                unread = not readable or fa and fa["on"] == "disk" and disk.fired and fa["match"] == CONFIG
                if unread and host.imports:
                    fail("import-without-configuration", "%s: %s" % (where, got))
                if exc is None:
                    if unread or host.fired:
                        fail("failure-reported-as-success", where)
                    if sorted(got) != want:
                        fail("files-missing", "%s: imported %s of %s" % (where, got, want))
                elif not hit:
                    fail("fails-without-fault", "%s: %r" % (where, exc))
                if bad:
                    break
        return {"bad": bad[:3], "log": logs, "fired": dict(fired), "kinds": {"run": len(plan["steps"])}, "n": steps.n}

    def shrink_more(self, plan):
        for i, s in enumerate(plan["steps"]):
            for j in range(len(s["names"])):
                p = copy.deepcopy(plan)
                del p["steps"][i]["names"][j]
                yield p
            for k in ("rel", "slash", "extra"):
                if s.get(k):
                    p = copy.deepcopy(plan)
                    p["steps"][i][k] = False
                    yield p
