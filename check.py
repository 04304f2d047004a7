#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [-v] [--job NAME]...   |   check.py --replay FILE   |   check.py --setup"""
import os, re, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vp, checks

def main():
    a = sys.argv[1:]
    if a[0] == "--setup":
        vp.build_engine()
        return 0
    if a[0] == "--replay":
        txt = open(a[1]).read()
        m = re.search(r"property (\S+), job (\S+) ", txt)
        job = [j for j in checks.CHECKS[m.group(1)]["jobs"] if j["name"] == m.group(2)][0]
        job.setdefault("units", ["tiny"])
        exe = vp.Builder().link(job, True)
        ins = [tuple(l.rsplit(" ", 1)) for l in txt.splitlines() if l and not l.startswith("#")]
        r = vp.run_native(exe, ins)
        print("violated: %s\nbad: %s\n%s\n%s" % (r["violated"], r["bad"], r["obs"], r["err"]))
        return 1 if r["violated"] or r["bad"] else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    verbose = "-v" in a
    only = []
    while "--job" in a:
        i = a.index("--job"); only.append(a[i + 1]); del a[i:i + 2]
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return vp.run_check(a[0], checks.CHECKS[a[0]], tier, seed, verbose, only)
    except vp.BuildError as e:
        print("ERROR cannot build: %s" % e)
        return 2

sys.exit(main())
