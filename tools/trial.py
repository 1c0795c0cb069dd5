#!/usr/bin/env python3
"""Run checks against seeded changes, each in a scratch copy of /repo.

trial.py [-c C01,C02] [-t thorough] [seed ...]    default: the property the seed names
"""
import argparse, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-c", default=None)
ap.add_argument("-t", default="quick")
ap.add_argument("-s", default="1")
ap.add_argument("seeds", nargs="*")
a = ap.parse_args()
seeds = [s for s in sorted(os.listdir(V + "/seeded")) if not a.seeds or any(x in s for x in a.seeds)]
resf = V + "/tools/seeded_results.json"
for s in seeds:
    d = f"{V}/seeded/{s}"
    prop = json.load(open(d + "/meta.json"))["property"]
    wt = f"/tmp/trial_{s}"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    subprocess.run(["git", "-C", wt, "apply", d + "/patch.diff"], check=True)
    for c in (a.c.split(",") if a.c else [prop]):
        t = time.time()
        p = subprocess.run([V + "/check.py", c, "--tier", a.t, "--seed", a.s], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=wt))
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        hit = any(f"property={c}" in l for l in v) and p.returncode == 1
        print(f"{s:26s} {c} rc={p.returncode} {'CAUGHT' if hit else 'missed'} {time.time()-t:.0f}s {v[0][:120] if v else ''}", flush=True)
        r = json.load(open(resf)) if os.path.exists(resf) else {}
        cur = set(r.get(s, []))
        (cur.add if hit else cur.discard)(c)
        r[s] = sorted(cur)
        json.dump(r, open(resf, "w"), indent=1, sort_keys=True)
    shutil.rmtree(wt, ignore_errors=True)
