#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
import props
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPS.values():
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": p["quantifier"], "why_tests_cant": p["why_tests_cant"],
            "anchors": {"files": sorted({w for w, _ in p["mech"]}), "mechanism": [{"name": n, "where": w} for w, n in p["mech"]], "hook_needed": p.get("hook")}}) + "\n")
checks, na = [], []
for p in props.PROPS.values():
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
        "technique": "symbolic execution of the compiled LLVM IR of the real code with an SMT solver (Z3), counterexamples replayed natively",
        "level": p["level"], "level_note": p.get("note") or "Bounded: every value within the bounds listed in evidence coverage.bounds; nothing is claimed outside them. Trusts the items listed under assumptions in the evidence file."})
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": props.HOOKS, "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Engine: engine/ (own symbolic executor for LLVM IR on Z3); encodings are regenerated from /repo on every run."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

# tables at the end of DESIGN.md
d = open(V + "/DESIGN.md").read().split("<!-- tables -->")[0] + "<!-- tables -->\n"
d += "## Planted changes\n\n| change | property | breaks | needs | first missed |\n|---|---|---|---|---|\n"
for n in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    e = json.load(open(V + "/seeded/%s/meta.json" % n))
    d += "| %s | %s | %s | %s | %s |\n" % (n, e["property"], e["what_it_breaks"], e["needs"], props.MISSED.get(n, ""))
d += "\nEach is caught by the check of its property (quick). The last column tells what was added when it was missed at first.\n"
d += "\n## Harnesses and bounds\n\n| property | harness | bound | |\n|---|---|---|---|\n"
for p in props.PROPS.values():
    for h in p["harnesses"]:
        d += "| %s | %s | %s | %s |\n" % (p["id"], h["name"], h["bound"], "exact solver" if h.get("alias") else "")
open(V + "/DESIGN.md", "w").write(d)
