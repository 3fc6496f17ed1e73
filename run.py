#!/usr/bin/env python3
"""run.py <property id>: decides one property of /repo's current tree by static analysis.

exit 0: held on everything analysed; exit 1 and a VIOLATION line: broken; exit 2: the analysis could not be carried out."""
import json
import os
import resource
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                out.append(json.loads(line))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] == "thorough":
        tier = "thorough"
    t0 = time.time()
    from nv.frontend import export, AnalysisBroken
    from nv import props, check
    from nv.check import Ctx_
    try:
        repo = os.environ.get("NV_REPO", "/repo")
        spec = props.PROPS[pid]
        ctx = Ctx_(None, tier)
        for name, g in spec.get("pre", lambda: [])():
            ctx.group = name
            g(ctx, repo)
        try:
            ctx.setprog(export(repo))
        except AnalysisBroken:
            if not any(i["status"] == "refuted" for i in ctx.items):
                raise
            spec = dict(spec, groups=lambda: [])
        limit = 75 if tier == "quick" else 240
        times = {}
        for name, g in spec["groups"]():
            left = (600 if tier == "quick" else 3000) - (time.time() - t0)
            if left < 5:
                ctx.group = name
                ctx.add("open", "time limit of the check", name, "")
                continue
            times[name] = round(ctx.run_group(name, g, min(limit, left)), 2)
    except AnalysisBroken as ex:
        print("analysis broken: %s" % ex)
        return 2
    items = ctx.items
    counts = {}
    for i in items:
        counts[i["status"]] = counts.get(i["status"], 0) + 1
    bad = [i for i in items if i["status"] == "refuted"]
    known, new = [], []
    kf = [k for k in known_findings() if k["property"] == pid]
    for i in bad:
        k = next((k for k in kf if k["rule"] == i["rule"] and k["site"] in i["where"] + " " + str(i["detail"])), None)
        (known if k else new).append((i, k))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    proved = [i for i in items if i["status"] == "proved"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {"explanation": spec["explain"], "rules_decided": len(items), "rules_proved_for_all_inputs": len(proved),
                       "rules_violated": len(bad), "rules_not_decided": counts.get("open", 0),
                       "rules_unproved_without_counterexample": counts.get("agrees", 0),
                       "functions_analysed": len(ctx.funcs), "scalar_obligations": ctx.nobl,
                       "functions": sorted("%s %s" % (l, k) for k, l in ctx.funcs.items()),
                       "groups_s": times,
                       "results": [{"status": i["status"], "rule": i["rule"], "where": i["where"], "detail": str(i["detail"])[:400]} for i in items]},
          "assumptions": spec.get("assumes", []) + props.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", pid + ".json") if not os.environ.get("NV_NOEVID") else os.devnull, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d rules: %s; %d functions, %d obligations, %.1f s" %
          (pid, len(items), ", ".join("%d %s" % (n, s) for s, n in sorted(counts.items())), len(ctx.funcs), ctx.nobl, time.time() - t0))
    for i, k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if not new:
        return 0
    rd = os.path.join(HERE, "build", "replay")
    os.makedirs(rd, exist_ok=True)
    for n, (i, _) in enumerate(new[:20]):
        path = os.path.join(rd, "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump({"property": pid, "rule": i["rule"], "where": i["where"], "violation": i["detail"], "witness": i["witness"]}, f, indent=1, default=str)
        print("%s: %s" % (i["where"], i["rule"]))
        print("    %s" % str(i["detail"])[:500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def boot():
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY if False else 512 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main())
