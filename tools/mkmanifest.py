"""Writes MANIFEST.json."""
import json

import jsonschema

TECH = {
    "C01": "deterministic simulation: seeded thread schedules with pre-emption at bytecodes, stalls and aborts; refinement against the same call alone",
    "C02": "deterministic simulation: seeded histories of calls, failures, aborts and caller actions; comparison with the same call in a pristine process",
    "C03": "deterministic simulation: exceptions injected at seeded bytecodes, allocations and list operations, with retries; comparison with fault-free calls",
    "C04": "deterministic simulation: output lists sampled at every step of seeded schedules with aborts and torn extensions",
    "C05": "deterministic simulation: calls nested at seeded bytecodes of running calls, simulated locks, deadlock detection",
    "C06": "deterministic simulation: simulator-owned event queue, seeded order of simultaneous events; completeness oracle on the roof",
    "C07": "deterministic simulation: seeded stalls and deaths of concurrent calls; step counts as bounded liveness",
    "C08": "deterministic simulation: debug output sampled at every step of seeded schedules with aborts; comparison with skeletonize() of the same contours",
    "C09": "deterministic simulation: inputs sampled at every step of seeded schedules with aborts",
    "C10": "deterministic simulation: seeded slider histories with interrupts and failing draw calls; comparison with a fresh demo",
    "C11": "deterministic simulation: seeded sessions in a model of Blender with host errors and interrupts; reference model of scene, undo and registrations",
    "C12": "deterministic simulation: real urllib and http.client on a simulated network, server and disk with injected faults and re-runs",
    "C13": "deterministic simulation: model of Blender and add-on, seeded listing orders, configuration, disk and host faults",
    "C14": "deterministic simulation: seeded process environments (hash seed, addresses, collector, set order); comparison of whole processes",
    "C15": "deterministic simulation: seeded sequences of buildings with failures, aborts and retries on shared lists; reference model of the union",
    "C16": "deterministic simulation: simulator-owned event queue, seeded order of simultaneous events; height oracle",
    "C17": "deterministic simulation: seeded histories of calls, failures, aborts and nested calls with a census of live objects and retained containers",
    "C18": "deterministic simulation: real fork at seeded bytecodes while simulated threads are in the middle of calls; parent and child compared with the calls alone",
    "C19": "deterministic simulation: virtual clocks with seeded suspensions and jumps at bytecodes of running calls; comparison with the undisturbed call",
    "C21": "deterministic simulation: simulator-owned event queue, seeded order of simultaneous events; structural oracle for the skeleton",
    "C20": "deterministic simulation: settings of the process sampled at every step of seeded schedules with aborts, recorded system calls and output, several copies of the library",
}
NOTE = {
    "C01": "Seeded search, no proof: schedules with up to a few dozen pre-emptions per run at bytecode granularity of the library, weighted to rare locations. Built-in operations of CPython are taken as atomic, as with the GIL.",
    "C02": "Seeded search over histories of up to a few dozen calls. The reference is the code itself in a pristine process, so a fault that is the same in every history is out of reach (that is N01 to N12).",
    "C03": "Seeded search: several abort points per call, all kinds of exceptions, at calls, returns, loop heads and list operations of the library. Headers of with and try are excluded, as no program can handle an exception there.",
    "C04": "Samples after every executed line of the library and at every operation on the lists themselves; calls that a single C-level extend makes are seen element by element through the input iterator.",
    "C05": "Nested calls at seeded bytecodes; deadlock is decided by simulated locks, not by time.",
    "C06": "Fixed corpus of 177 real and synthetic footprints and 235 generated ones with many simultaneous events, in all rotations; decisions seeded. Footprints known to fail are listed as findings.",
    "C07": "Steps are counted as executed lines. The bound is the number of steps alone, half again and 300 at most; besides, the same call is compared early and late in a history and with few and many entries in its lists.",
    "C08": "Samples after every executed line. The reference is skeletonize() of the same code.",
    "C09": "Samples after every executed line, including identities and the coordinates of the argument objects.",
    "C10": "Real matplotlib with the Agg backend, real slider events through its callbacks; the reference is a fresh demo at the same pitch.",
    "C11": "Blender is a model: registration, menus, meshes, scene and undo stack. Scales 0.25 to 4.",
    "C12": "Network and raw file layer are simulated, urllib, http.client and io are real. One known finding of urllib (answer closed within the header).",
    "C13": "Blender and the blender-osm add-on are models.",
    "C14": "Real processes with different environments and, in the process, an arbitrary iteration order for sets of the library.",
    "C15": "The reference for each building is its roof alone, by the same code.",
    "C16": "As C06. Slope of each face for the footprints without merged nodes (294 of 412).",
    "C17": "Live objects of the classes of the library and vectors are counted, and entries of all containers reachable from its modules; memory inside C extensions is not seen.",
    "C18": "The child is a real forked process; locks are simulated, so a lock held by a thread that does not exist there is a deadlock and not a hang.",
    "C19": "All clocks of time and datetime are virtual.",
    "C21": "Corpus of 268 of the footprints of C06: those for which the unchanged code passed 320 orders each. Heights within 0.2 m + 3 %, as close nodes are merged.",
    "C20": "System calls are those with an audit event of the interpreter; settings are those listed in the statement, sampled after executed lines of the library.",
}
PURE = "a pure function of one footprint: no schedule, fault, time, I/O or history enters, so simulation with fault injection has nothing to vary; sampling inputs would be another technique"
checks = []
for p, t in TECH.items():
    checks.append({
        "property": p, "quick_cmd": "/opt/venv/bin/python -m sim check %s" % p, "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python -m sim check %s" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": NOTE[p],
    })
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
na = [{"property": d["id"], "reason": "%s: %s" % (d["title"], PURE)} for d in props if d["id"].startswith("N")]
m = {
    "version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: all seams are found at run time (sys.monitoring, list subclasses, heapq, locks, sockets, files, host modules). Replay: python -m sim replay <file>, exit 1 if the violation is reproduced.",
}
assert {d["id"] for d in props} == set(TECH) | {x["property"] for x in na}
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
with open("/verif/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
