#!/usr/bin/env python3
"""plant.py SPEC.py...: plants bugs in a scratch copy of /repo, confirms each (compiles, stable tests pass, demo tells it apart) and keeps it in seeded/.

A spec file defines BUGS = [dict(id=, property=, needs=, what=, edits=[(file, old, new)], demo=C++ source, srcs=optional list)]."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
R = W + "/repo"

DEMO = """#!/bin/bash
# run with cwd = the repository
set -u
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cd "$w" || exit 99
R=$OLDPWD
clang++-18 -std=c++23 -stdlib=libc++ -O0 -w %s -I"$R/include" -isystem /usr/include/eigen3 "$here/demo.cpp" "$R"/src/*/*.cpp -o demo || exit 98
timeout 60 ./demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def prepare():
    if not os.path.isdir(R):
        sh("git clone -q /repo %s" % R)
        for s in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + s).read().replace("/opt/vp/build.sh", W + "/build.sh").replace("/repo", R)
            open(W + "/" + s, "w").write(t)
    sh("git -C %s fetch -q; git -C %s reset -q --hard origin/HEAD" % (R, R))
    h1 = sh("git -C /repo rev-parse HEAD").stdout
    h2 = sh("git -C %s rev-parse HEAD" % R).stdout
    assert h1 == h2, (h1, h2)


def stable():
    out = sh("bash %s/test.sh %s/out.json" % (W, W))
    res = json.load(open(W + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["passed"] if "passed" in base else base.get("stable_passed") or base["stable"]
    want = [x if isinstance(x, str) else x["name"] for x in want]
    missing = [x for x in want if x not in res["passed"]]
    return missing, out.stdout[-600:]


def main():
    only = None
    specs = sys.argv[1:]
    if specs and specs[0].startswith("--only="):
        only = specs.pop(0)[7:].split(",")
    prepare()
    for s in specs:
        for b in runpy.run_path(s)["BUGS"]:
            if only and b["id"] not in only:
                continue
            d = os.path.join(HERE, "seeded", b["id"])
            sh("git -C %s checkout -q -- ." % R)
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(b["id"], "EDIT matches %d times in %s: %s" % (t.count(old), f, old[:60]))
                    ok = False
                    break
                open(p, "w").write(t.replace(old, new))
            if not ok:
                continue
            missing, out = stable()
            if missing:
                print(b["id"], "TESTS fail:", str(missing)[:200], out[-300:])
                continue
            t = W + "/demo"
            shutil.rmtree(t, ignore_errors=True)
            os.makedirs(t)
            open(t + "/demo.cpp", "w").write(b["demo"])
            open(t + "/demo.sh", "w").write(DEMO % b.get("flags", ""))
            bad = sh("bash %s/demo.sh" % t, cwd=R)
            diff = sh("git -C %s diff" % R).stdout
            sh("git -C %s checkout -q -- ." % R)
            good = sh("bash %s/demo.sh" % t, cwd=R)
            if good.returncode != 0 or bad.returncode in (0, 98, 99):
                print(b["id"], "DEMO good=%d bad=%d" % (good.returncode, bad.returncode), good.stdout[-300:], bad.stdout[-300:])
                continue
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(t, d)
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
            print(b["id"], "kept (demo good=0 bad=%d)" % bad.returncode)
            sys.stdout.flush()


main()
