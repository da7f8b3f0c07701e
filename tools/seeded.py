"""seeded.py [--all] [ID...]: applies each planted bug to /repo, runs the check of its property (all checks with --all), undoes it."""
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(ROOT, "seeded")
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(D))
checks = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE).stdout
for i in ids:
    prop = json.load(open(os.path.join(D, i, "meta.json")))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(D, i, "patch.diff")], check=True)
    try:
        res = []
        for c in checks if every else [prop]:
            t = time.time()
            r = subprocess.run(["/opt/venv/bin/python", "-m", "sim", "check", c], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            kind = json.load(open(v[0].split("replay=")[1]))["kind"] if v else ""
            same = [l for l in r.stdout.splitlines() if "identical" in l]
            res.append("%s=%d%s %ds" % (c, r.returncode, " " + kind if kind else "", time.time() - t))
            if r.returncode == 2 or v and "identical: True" not in "".join(same):
                res.append("\n" + r.stdout[-1500:])
        print(i, "|", "; ".join(res), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
