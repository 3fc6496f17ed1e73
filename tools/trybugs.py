#!/usr/bin/env python3
"""trybugs.py [--all-props] [id...]: runs the checks against each planted bug in the scratch copy /tmp/plant/repo (see plant.py)."""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/plant/repo"
args = sys.argv[1:]
allp = "--all-props" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
man = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]


def one(p):
    r = subprocess.run(["python3", "run.py", p], cwd=HERE, env=dict(os.environ, NV_REPO=R, NV_NOEVID="1"), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    why = [l for l in r.stdout.splitlines() if not l.startswith(("VIOLATION", "    ", "KNOWN"))]
    return p, r.returncode, len(v), (why[1] if len(why) > 1 else why[-1] if why else "")[:150]


for i in ids:
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    a = subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"])
    if a.returncode:
        print(i, "patch does not apply")
        continue
    props = man if allp else [meta["property"]]
    props = [p for p in props if p in man]
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(one, props))
    print("%-28s %-4s" % (i, meta["property"]), "; ".join("%s:%s" % (p, "CAUGHT %s" % w if rc == 1 else "rc%d %s" % (rc, w)) for p, rc, n, w in res if not allp or rc != 0) or "nothing", flush=True)
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
