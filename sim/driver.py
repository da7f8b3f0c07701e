"""Seeded search over plans: distribution to workers, minimisation, replay files, evidence.

A check is a number of blocks; a block is a number of runs that share a pool of footprints. Everything in a run
follows from (seed, property, block, run), never from the worker that executes it or from time.
"""
import copy
import hashlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import seams
from .lab import ChildFailure, ChildTimeout, Lab, Skip

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "known_findings.jsonl")
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
now = seams.real_monotonic


def rng_of(*key):
    return random.Random(int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], "big"))


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


# ---- known findings ----------------------------------------------------------
def known_findings(pid):
    res = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for l in f:
                l = l.strip()
                if l:
                    d = json.loads(l)
                    if d["property"] == pid and d["status"] == "known":
                        res.append(d)
    return res


def is_known(prop, known, plan, v):
    """A violation matches a finding only if kind and the specific input match."""
    for d in known:
        if v[0] == d["kind"] and prop.finding_key(plan, v) == d["key"]:
            return d["id"]
    return None


# ---- execution of one plan ------------------------------------------------------
def evaluate(lab, prop, plan):
    """(violations, out) of a plan."""
    try:
        out = prop.execute(lab, plan)
    except ChildTimeout:
        out = prop.timeout(lab, plan)
    for k, d in out.get("events", ()):
        if k == "harness":
            raise ChildFailure("harness: %s" % d["error"])
    return [tuple(v) for v in prop.judge(plan, out)], out


# ---- minimisation -----------------------------------------------------------------
def minimise(lab, prop, plan, kind, budget=150, seconds=60):
    end = now() + seconds

    def bad(p):
        nonlocal budget
        budget -= 1
        try:
            vs, _ = evaluate(lab, prop, p)
        except Exception:
            return False
        return any(v[0] == kind for v in vs)

    changed = True
    while changed and budget > 0 and now() < end:
        changed = False
        for cand in prop.shrink(plan):
            if budget <= 0 or now() > end:
                break
            if bad(cand):
                plan = cand
                changed = True
                break
    return plan


# ---- worker ---------------------------------------------------------------------
def run_block(lab, prop, seed, tier, block, stop_at_first=True):
    """Executes one block; returns its statistics and the first violation."""
    st = {
        "runs": 0, "skipped": 0, "fired": Counter(), "distinct": set(), "nontrivial": 0, "evals": 0, "ops": 0, "steps": 0, "clock": 0.0,
        "switches": 0, "sites": set(), "samples": [], "violation": None, "known": {}, "opkinds": Counter(), "extra": Counter(), "digest": "",
    }
    h = hashlib.sha256()
    for run in range(prop.block_size):
        rng = rng_of(seed, prop.pid, block, run)
        try:
            plan = prop.make(lab, rng, rng_of(seed, prop.pid, block, "pool"), tier, block, run)
            vs, out = evaluate(lab, prop, plan)
        except Skip:
            st["skipped"] += 1
            continue
        st["runs"] += 1
        prop.measure(plan, out, st)
        h.update(json.dumps([vs, prop.fingerprint(out)], default=str).encode())
        for v in vs:
            kid = is_known(prop, lab.known, plan, v)
            if kid:
                st["known"][kid] = st["known"].get(kid, 0) + 1
            elif st["violation"] is None:
                st["violation"] = {"block": block, "run": run, "plan": plan, "v": v, "all": vs}
        if st["violation"] is not None and stop_at_first:
            break
    st["digest"] = h.hexdigest()[:16]
    return st


def worker(lab, prop, seed, tier, rfd, wfd):
    """Reads block numbers, answers with pickled statistics."""
    with os.fdopen(rfd, "rb") as r, os.fdopen(wfd, "wb") as w:
        while True:
            d = r.read(8)
            if len(d) < 8:
                return
            block = int.from_bytes(d, "little")
            try:
                res = ("ok", run_block(lab, prop, seed, tier, block))
            except BaseException as e:
                res = ("err", "".join(traceback.format_exception(e))[-4000:])
            data = pickle.dumps(res)
            w.write(len(data).to_bytes(8, "little") + data)
            w.flush()


def search(lab, prop, seed, tier, nblocks, wall):
    """Runs the blocks on forked workers. Returns results by block."""
    results = {}
    procs = []
    nxt = 0
    stop = nblocks
    t0 = now()
    for _ in range(min(WORKERS, nblocks)):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for p in procs:
                    os.close(p["w"])
                    os.close(p["r"])
                worker(lab, prop, seed, tier, r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        procs.append({"pid": pid, "w": w1, "r": r2, "block": None})
    error = None

    def give(p):
        nonlocal nxt
        if error is None and nxt < stop and now() - t0 < wall:
            p["block"] = nxt
            os.write(p["w"], nxt.to_bytes(8, "little"))
            nxt += 1
        else:
            p["block"] = None

    def readn(fd, n):
        parts = b""
        while len(parts) < n:
            d = os.read(fd, n - len(parts))
            if not d:
                raise EOFError
            parts += d
        return parts

    for p in procs:
        give(p)
    while any(p["block"] is not None for p in procs):
        busy = {p["r"]: p for p in procs if p["block"] is not None}
        rs, _, _ = select.select(list(busy), [], [], wall * 0.6 + 120)
        if not rs:
            error = "workers do not answer: blocks %s" % [p["block"] for p in busy.values()]
            break
        for fd in rs:
            p = busy[fd]
            try:
                n = int.from_bytes(readn(fd, 8), "little")
                kind, val = pickle.loads(readn(fd, n))
            except EOFError:
                kind, val = "err", "a worker ended"
                p["block"] = None
            if kind == "err":
                error = val
                p["block"] = None
                continue
            results[p["block"]] = val
            if val["violation"] is not None:
                stop = min(stop, p["block"])
            give(p)
    for p in procs:
        os.close(p["w"])
        if error:
            try:
                os.kill(p["pid"], signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.close(p["r"])
        os.waitpid(p["pid"], 0)
    # everything up to the first violation, in the order of the blocks
    if stop < nblocks:
        results = {b: r for b, r in results.items() if b <= stop}
    return results, error


# ---- replay files -------------------------------------------------------------------
def replay_file(path, lab=None, quiet=False):
    with open(path) as f:
        d = json.load(f)
    from . import registry

    prop = registry.get(d["property"])
    lab = lab or new_lab(prop)
    vs, out = evaluate(lab, prop, d["plan"])
    same = json.loads(json.dumps([vs, prop.fingerprint(out)], default=str)) == d["observed"]
    kinds = {v[0] for v in vs}
    if not quiet:
        for v in vs:
            print("%s: %s" % v)
        print("REPLAY property=%s kind=%s reproduced=%s identical=%s" % (d["property"], d["kind"], d["kind"] in kinds, same))
    return (d["kind"] in kinds), same


def new_lab(prop):
    lab = Lab(prop.needs_lib)
    lab.known = known_findings(prop.pid)
    lab.pid = prop.pid
    return lab


def write_replay(lab, prop, viol, seed, tier):
    os.makedirs(REPLAYS, exist_ok=True)
    kind = viol["v"][0]
    plan0 = viol["plan"]
    plan = minimise(lab, prop, plan0, kind, *prop.min_budget)
    stable = 0
    vs = out = None
    for _ in range(3):
        try:
            vs, out = evaluate(lab, prop, plan)
        except Exception:
            continue
        if any(v[0] == kind for v in vs):
            stable += 1
    if not stable:
        plan = plan0
        for _ in range(5):
            vs, out = evaluate(lab, prop, plan)
            if any(v[0] == kind for v in vs):
                stable += 1
                break
    path = os.path.join(REPLAYS, "%s-%s-b%d-r%d.json" % (prop.pid, seed, viol["block"], viol["run"]))
    with open(path, "w") as f:
        json.dump({
            "property": prop.pid, "kind": kind, "what": next((v[1] for v in vs if v[0] == kind), viol["v"][1]), "seed": seed, "tier": tier,
            "block": viol["block"], "run": viol["run"], "plan": plan,
            "original_plan_size": len(json.dumps(plan0)), "observed": json.loads(json.dumps([vs, prop.fingerprint(out)], default=str)),
        }, f, indent=1, default=str)
    return path, stable


def confirm(path):
    """Replays a file in a fresh process."""
    p = subprocess.run([sys.executable, "-m", "sim", "replay", path], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
    return p.returncode == 1, "identical=True" in p.stdout, p.stdout


# ---- check ------------------------------------------------------------------------------
def check(pid, tier, seed):
    from . import registry

    prop = registry.get(pid)
    t0 = now()
    lab = new_lab(prop)
    nblocks, wall = prop.budget(tier)
    nblocks = int(os.environ.get("SIM_BLOCKS", nblocks))
    pre = prop.before(lab, tier, seed)
    results, error = search(lab, prop, seed, tier, nblocks, wall)
    tsearch = now() - t0
    tot = {
        "runs": 0, "skipped": 0, "fired": Counter(), "distinct": set(), "nontrivial": 0, "evals": 0, "ops": 0, "steps": 0, "clock": 0.0,
        "switches": 0, "sites": set(), "samples": [], "known": Counter(), "opkinds": Counter(), "extra": Counter(),
    }
    viol = None
    dig = hashlib.sha256()
    for b in sorted(results):
        r = results[b]
        for k in ("runs", "evals", "skipped", "nontrivial", "ops", "steps", "clock", "switches"):
            tot[k] += r[k]
        for k in ("fired", "opkinds", "extra"):
            tot[k].update(r[k])
        tot["known"].update(r["known"])
        tot["distinct"] |= r["distinct"]
        tot["sites"] |= r["sites"]
        if len(tot["samples"]) < 2:
            tot["samples"] += r["samples"][:1]
        dig.update(r["digest"].encode())
        if viol is None and r["violation"] is not None:
            viol = r["violation"]
    code = 0
    lines = []
    path = None
    if viol is not None:
        try:
            path, stable = write_replay(lab, prop, viol, seed, tier)
            ok, same, text = confirm(path)
            print("%s: %s" % viol["v"])
            print("seed=%s block=%d run=%d; reproduced %d/3 here, in a fresh process: %s (identical: %s)" % (seed, viol["block"], viol["run"], stable, ok, same))
            if stable or ok:
                lines.append("VIOLATION property=%s replay=%s" % (pid, path))
                code = 1
            else:
                print("ERROR: not reproducible, so it is not reported as a violation")
                code = 2
        except Exception:
            traceback.print_exc()
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            code = 1
    elif error:
        print("ERROR in the harness:\n%s" % error)
        code = 2
    else:
        done = len(results)
        if done < nblocks * (0.3 if tier == "quick" else 0.02):
            print("ERROR: only %d of %d blocks within %d s" % (done, nblocks, wall))
            code = 2
        if tot["runs"] == 0 or tot["skipped"] > tot["runs"]:
            print("ERROR: %d runs, %d skipped" % (tot["runs"], tot["skipped"]))
            code = 2
    for d in known_findings(pid):
        if code == 0 or tot["known"].get(d["id"]):
            # reported for every listed finding; the check itself replays them in `before`
            print("KNOWN-FINDING: property=%s %s" % (pid, d["what"]))
    wall_s = now() - t0
    cov = {
        "evaluations": tot["evals"] or tot["runs"],
        "distinct_nontrivial": len(tot["distinct"]),
        "rule": prop.rule,
        "samples": tot["samples"] or [{"none": "no run"}],
        "runs": tot["runs"], "skipped_runs": tot["skipped"], "blocks": len(results), "blocks_planned": nblocks,
        "seeds_per_hour": round(tot["runs"] / max(tsearch, 0.01) * 3600),
        "operations": tot["ops"],
        "simulated_time": {"library_line_steps_counted": tot["steps"], "virtual_clock_s": round(tot["clock"], 3)},
        "faults_injected": dict(sorted(tot["fired"].items())),
        "context_switches": tot["switches"],
        "distinct_locations_hit_by_scheduler": len(tot["sites"]),
        "runs_with_at_least_one_event": tot["nontrivial"],
        "operation_kinds": dict(sorted(tot["opkinds"].items())),
        "details": {**dict(sorted(tot["extra"].items())), **(pre or {})},
        "state_measure": prop.state_measure,
        "real_code": prop.real, "stubs": prop.stubs,
        "run_digest": dig.hexdigest()[:16],
        "workers": min(WORKERS, nblocks),
        "known_findings_hit": dict(tot["known"]),
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov, "assumptions": prop.assumptions,
        "wall_s": round(wall_s, 2), "violations": 1 if code == 1 else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s seed=%d: %d runs in %d blocks, %d distinct, %d operations, %.1f s, digest %s" % (
        pid, tier, seed, tot["runs"], len(results), len(tot["distinct"]), tot["ops"], wall_s, cov["run_digest"]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return code
