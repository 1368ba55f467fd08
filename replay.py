#!/usr/bin/env python3
"""replay.py <replay file>: runs a recorded counterexample against /repo's current tree (no solver involved)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/lib")
import pipeline as P, props
r = json.load(open(sys.argv[1]))
g = [h["group"] for h in props.PROPS[r["property"]]["harnesses"] if h["name"] == r["harness"]][0]
os.makedirs(P.B, exist_ok=True)
n = P.build_native([g], r["property"])
end, det, obs = P.replay(n, [(r["harness"], r["inputs"])])[0]
print(end, det, obs)
sys.exit(1 if end in ("viol", "panic", "crash", "hang") else 0)
