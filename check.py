#!/usr/bin/env python3
"""check.py <property id> : decides one property of /repo's current tree (see DESIGN.md).

exit 0  the property held on everything explored (evidence/<id>.json says what that was)
exit 1  VIOLATION, with a counterexample found by the solver and reproduced against the real code
exit 2  the check could not give an answer
"""
import concurrent.futures as cf, fcntl, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
import pipeline as P
import props


def load_known(pid):
    out = []
    f = V + "/known_findings.json"
    if os.path.exists(f):
        for e in json.load(open(f))["findings"]:
            if e["property"] == pid and e["status"] == "open":
                out.append(e)
    return out


def is_known(known, harness, msg, inputs):
    d = {n: int(v) for n, v in inputs}
    for e in known:
        if e["harness"] == harness and e["message"] in msg and all(d.get(k) == v for k, v in e.get("inputs", {}).items()):
            return e
    return None


def demangle(names):
    p = subprocess.run(["llvm-cxxfilt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    if p.returncode:
        return names
    return p.stdout.decode().split("\n")[:len(names)]


def required_covers(src, harness):
    m = re.search(r"pub extern \"C-unwind\" fn %s\(\)(.*?)\n(?=#\[no_mangle\]|\Z)" % harness, src, re.S)
    return sorted(set(re.findall(r'\bcover\(c"([^"]+)"\)', m.group(1)))) if m else []


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    spec = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(P.B, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    for f in os.listdir(V + "/evidence"):
        if f.startswith("replay-%s-" % pid):
            os.remove(V + "/evidence/" + f)
    lock = open(P.B + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = {}
    for h in spec["harnesses"]:
        if h.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        if only and h["name"] not in only:
            continue
        jobs.setdefault((h["group"], h.get("alias", "")), []).append(h)
    groups = sorted({g for g, _ in jobs})
    cfgs = ["sx_thorough"] if tier == "thorough" else []
    suffix = "-t" if tier == "thorough" else ""
    native, irs = None, {}
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            fe = ex.submit(P.build_engine)
            fn = ex.submit(P.build_native, groups + cfgs, pid + suffix)
            fi = {g: ex.submit(P.emit_ir, [g] + cfgs, g + suffix) for g in groups}
            irs = {g: f.result() for g, f in fi.items()}
            engine, native = fe.result(), fn.result()
    except P.Err as e:
        print("ERROR: build failed\n%s" % e)
        return 2
    build_s = time.time() - t0
    budget = (spec.get("budget_thorough", 840) if tier == "thorough" else spec.get("budget", 500)) - build_s
    results, err, incomplete = [], [], []
    cut = set()
    srcs = {g: open(V + "/harness/src/%s.rs" % props.MODULE[g]).read() for g in groups}
    tlim = time.time() + budget
    for (g, alias), hs in jobs.items():
        lo, names = P.lower(irs[g], [h["name"] for h in hs] + ([a.split("=")[1] for a in alias.split(",")] if alias else []), "%s-%s%s" % (pid, g, suffix))
        cut.update(names)
        al = []
        for a in (alias.split(",") if alias else []):
            pat, tgt = a.split("=")
            ms = list(P.mangled(lo, pat))
            if not ms:
                print("NOTE: %s is no longer called by the encoded code; its replacement is unused" % pat)
            for m in ms:
                al += ["--alias", "%s=%s" % (m, tgt)]
        for h in hs:
            left = tlim - time.time()
            out = P.B + "/%s-%s.json" % (pid, h["name"])
            if os.path.exists(out):
                os.remove(out)
            if left < 5:
                incomplete.append("%s: not started (time budget)" % h["name"])
                continue
            cmd = [engine, lo, "--harness", h["name"], "--time", "%d" % max(1, min(left, h.get("time", 10 ** 6))), "--out", out,
                   "--samples", str(h.get("samples", 6)), "--timeout-ms", str(h.get("timeout_ms", 20000))] + al + h.get("args", [])
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode or not os.path.exists(out):
                err.append("%s: engine failed: %s" % (h["name"], p.stderr.decode(errors="replace")[-500:]))
                continue
            r = json.load(open(out))[0]
            r["bound"] = h["bound"]
            r["mod"] = g
            results.append(r)
            os.remove(out)
        os.remove(lo)
    fcntl.flock(lock, fcntl.LOCK_UN)

    # counterexamples: only what the real code reproduces is a violation
    known = load_known(pid)
    nviol, shown, validated, mismatched = 0, set(), 0, []
    for r in results:
        H = r["harness"]
        vs = r["violations"]
        reps = P.replay(native, [(H, v["inputs"]) for v in vs]) if vs else []
        hits = 0
        for v, (end, det, obs) in zip(vs, reps):
            if end in ("viol", "panic", "crash", "hang"):
                hits += 1
                k = is_known(known, H, det or v["msg"], v["inputs"])
                what = "%s (%s)" % (det or v["msg"], ", ".join("%s=%s" % tuple(x) for x in v["inputs"]))
                if k:
                    if k["id"] not in shown:
                        shown.add(k["id"])
                        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                    continue
                nviol += 1
                if nviol <= 5:
                    path = V + "/evidence/replay-%s-%d.json" % (pid, nviol)
                    json.dump({"property": pid, "harness": H, "inputs": v["inputs"], "violated": v["msg"], "native_result": [end, det],
                               "how": "python3 %s/replay.py %s" % (V, path)}, open(path, "w"), indent=1)
                    print("VIOLATION property=%s replay=%s" % (pid, path))
                    print("  %s: %s" % (H, what))
        if vs and not hits and all("does not return" in v["msg"] for v in vs):
            # more steps than the executor goes through, but the real code comes to an end: not explored
            incomplete.append("%s: %d paths are longer than the step bound" % (H, r["nviolations"]))
        elif vs and not hits:
            err.append("%s: counterexample not reproduced by the real code: %s -> %r" % (H, json.dumps(vs[0]), reps[0]))
        # sampled paths: what the encoding computed is what the real code computes
        tr = r["traces"]
        reps = P.replay(native, [(H, t["inputs"]) for t in tr]) if tr else []
        for t, (end, det, obs) in zip(tr, reps):
            want = "panic" if t["end"].startswith("panic") else "done"
            if end == want and [(a, str(b)) for a, b in obs] == [(a, str(b)) for a, b in t["obs"]]:
                validated += 1
            else:
                mismatched.append("%s: encoding and real code disagree on %s: %s %s / %s %s %s" % (H, t["inputs"], t["end"], t["obs"], end, det, obs))
        if r["errors"]:
            rest = {m: n for m, n in r["error_msgs"].items() if m not in ("time limit", "solver returned unknown")}
            if rest:
                # paths the executor could not follow: not explored, and said so; no answer at all if nothing was
                (incomplete if any(x["done"] for x in results) else err).append("%s: paths not followed: %s" % (H, json.dumps(rest)[:600]))
        if r["error_msgs"].get("solver returned unknown"):
            incomplete.append("%s: solver gave no answer on %d paths" % (H, r["error_msgs"]["solver returned unknown"]))
        if r["timed_out"] or r["pending"]:
            incomplete.append("%s: stopped by the time budget after %d paths" % (H, r["done"]))
        if not r["nviolations"]:
            for c in required_covers(srcs[r["mod"]], H):
                if not r["covers"].get(c):
                    if H not in " ".join(incomplete):
                        err.append("%s: no path reaches '%s' (vacuous)" % (H, c))
    err += mismatched[:3]

    S = lambda k: sum(r[k] for r in results)
    fns = sorted(set(f for f in demangle(sorted({f for r in results for f in r["functions"] if "rust_systre" in f}))))
    samples = []
    for r in results:
        for t in r["traces"][:2]:
            samples.append({"harness": r["harness"], "inputs": {a: b for a, b in t["inputs"]}, "observed": t["obs"][:12], "end": t["end"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": S("done") + S("assume") + S("panics_allowed"), "transitions": S("decides"),
            "traces_validated_against_impl": validated,
            "samples": samples[:24] or ["none"],
            "exhaustive": not incomplete and not err,
            "explanation": "states: feasible path classes of the real code executed symbolically to their end; transitions: branch and value decisions put to interval reasoning or the SMT solver on those paths",
            "functions_encoded": fns,
            "functions_encoded_count": len(fns),
            "bounds": {r["harness"]: r["bound"] for r in results},
            "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"),
            "solver_s": round(S("solver_s"), 3), "solver": results[0]["z3"] if results else "",
            "symbolic_instructions": S("steps"),
            "paths_cut_by_precondition": S("assume"), "paths_ending_in_documented_panic": S("panics_allowed"),
            "bodies_replaced_by_models": sorted(cut),
            "per_harness": {r["harness"]: {k: r[k] for k in ("done", "assume", "panics_allowed", "forks", "queries", "unsat", "solver_s", "wall_s", "covers", "timed_out")} for r in results},
            "incomplete": incomplete,
            "build_s": round(build_s, 2),
        },
        "assumptions": props.TRUSTED + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    for m in incomplete:
        print("INCOMPLETE: " + m)
    print("%s %s: %d harnesses, %d paths, %d queries (%d unsat), solver %.1f s, %d traces validated, %d violations, wall %.1f s" % (
        pid, tier, len(results), ev["coverage"]["states"], S("queries"), S("unsat"), S("solver_s"), validated, nviol, time.time() - t0))
    if nviol:
        return 1
    if err:
        for e in err[:10]:
            print("ERROR: " + e[:1500])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
