#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough]   decide one property on /repo's current tree
   check.py --replay FILE                         replay a violation on /repo's current tree"""
import argparse, json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
from common import VERIF
def main():
    a = argparse.ArgumentParser(); a.add_argument("--property"); a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); a.add_argument("--replay"); a = a.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1")); tier = "thorough" if a.tier == "thorough" else "quick"
    if a.replay:
        kind = open(a.replay).readline()
        if kind.startswith("zcm-gen"): import gencheck as m
        else: import libcheck as m
        sys.exit(m.replay_file(os.path.abspath(a.replay)))
    p = a.property; t0 = time.time()
    if p[0] == "L": import libcheck as m
    else: import gencheck as m
    cov, assumptions, findings, unclear = m.check(p, tier, seed)
    new, old = [], []
    kn = [k for k in common.known() if k[0] == p]
    for f in findings: (old if any((not k[1] or k[1] in f[2][0]) and (not k[2] or k[2] in f[2][1]) for k in kn) else new).append(f)
    for k in kn: print(f"KNOWN-FINDING: property={p} {k[3]}")
    cov["known_findings_seen"] = len(old)
    ev = dict(property=p, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=len(new))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{p}.json", "w"), indent=1)
    for f in new: print("found:", f[1]); print(f"VIOLATION property={p} replay={f[0]}")
    print(f"{p} {tier}: {cov['evaluations']} runs, {cov['distinct_nontrivial']} distinct, {len(new)} violation(s), {time.time() - t0:.1f} s")
    if new: sys.exit(1)
    if unclear: print("a run failed but its failure did not repeat", file=sys.stderr); sys.exit(3)
    sys.exit(0)
try: main()
except SystemExit: raise
except Exception as e:
    traceback.print_exc(); sys.exit(3)
