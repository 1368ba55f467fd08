"""Regenerates the encoding of /repo's current source and runs the symbolic executor on it."""
import glob, json, os, queue, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("SX_BUILD", os.path.join(V, ".build"))
HOOK = "rust_systre_verif"
PASSES = ("internalize,globaldce,function(sroa,early-cse<memssa>,simplifycfg),cgscc(inline),"
          "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,adce),globaldce")

# Bodies replaced by models in the executor (see DESIGN.md, trusted base).
CUT = [
    r"core9panicking9panic_fmt$", r"core9panicking18panic_nounwind_fmt$",
    r"handle_alloc_error", r"hash_one", r"hashmap_random_keys",
]


class Err(Exception):
    pass


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, cwd, extra=None, timeout=700, check=True, stdin=None):
    e = env()
    if extra:
        e.update(extra)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=stdin)
    if check and p.returncode != 0:
        raise Err("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-4000:]))
    return p


def llvm_bin():
    c = glob.glob(os.path.expanduser("~/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin"))
    c += glob.glob("/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin")
    c += glob.glob("/usr/local/rustup/toolchains/stable*/lib/rustlib/x86_64-unknown-linux-gnu/bin")
    for d in c:
        if os.path.exists(d + "/opt"):
            return d
    p = run(["rustc", "--print", "sysroot"], V).stdout.decode().strip()
    d = p + "/lib/rustlib/x86_64-unknown-linux-gnu/bin"
    if os.path.exists(d + "/opt"):
        return d
    raise Err("opt not found")


def build_engine():
    run(["cargo", "build", "--release", "--offline", "-q", "--target-dir", B + "/engine"], V + "/engine")
    return B + "/engine/release/symex"


def build_native(groups, tag="x"):
    rf = "--cfg sx_native --cfg %s %s" % (HOOK, " ".join("--cfg " + g for g in groups))
    td = B + "/native-" + tag
    run(["cargo", "build", "--offline", "-q", "--target-dir", td], V + "/harness/native", {"RUSTFLAGS": rf})
    return td + "/debug/sxnative"


def emit_ir(groups, tag):
    """whole-program LLVM IR of /repo's crate plus the harnesses of the groups"""
    rf = "--cfg %s %s -Clinker=true -Awarnings" % (HOOK, " ".join("--cfg " + g for g in groups))
    td = B + "/sym-" + tag
    for f in glob.glob(td + "/x86_64-unknown-linux-gnu/release/deps/sxsym*.ll"):
        os.remove(f)
    # always re-emit: touch the entry point through a changed fingerprint-free path
    run(["cargo", "rustc", "--release", "--offline", "-q", "--target", "x86_64-unknown-linux-gnu",
         "--target-dir", td, "--", "--emit=llvm-ir"],
        V + "/harness/sym", {"RUSTFLAGS": rf})
    lls = glob.glob(td + "/x86_64-unknown-linux-gnu/release/deps/sxsym*.ll")
    if len(lls) != 1:
        raise Err("expected one .ll, got %r" % lls)
    return lls[0]


DEF = re.compile(r'^define .*?@("(?:[^"]+)"|[-\w.$]+)\(')


def cut_bodies(text, pats):
    """turn the bodies of the modelled functions into declarations"""
    pat = [re.compile(p) for p in pats]
    out, names, skip = [], [], False
    for line in text.split("\n"):
        if skip:
            if line == "}":
                skip = False
            continue
        if line.startswith("define"):
            m = DEF.match(line)
            n = m.group(1).strip('"')
            if any(p.search(n) for p in pat):
                names.append(n)
                h = line[:line.rindex("{")].rstrip()
                h = re.sub(r"^define (?:internal |private |hidden |dso_local |linkonce_odr |weak_odr |noundef )*", "declare ", h)
                h = re.sub(r" (?:unnamed_addr|local_unnamed_addr)", "", h)
                h = re.sub(r" personality ptr @\S+", "", h)
                h = re.sub(r" comdat(\(\$[^)]*\))?", "", h)
                h = re.sub(r" section \"[^\"]*\"", "", h)
                h = re.sub(r"( ![a-z_]+ !\d+)+", "", h)
                out.append(h)
                skip = True
                continue
        out.append(line)
    return "\n".join(out), names


def lower(ll, harnesses, tag, cut_extra=()):
    text = open(ll).read()
    text, names = cut_bodies(text, CUT + list(cut_extra))
    cutf = B + "/%s.cut.ll" % tag
    open(cutf, "w").write(text)
    out = B + "/%s.opt.ll" % tag
    lb = llvm_bin()
    run([lb + "/opt", "-S", "--strip-debug", "--passes=" + PASSES,
         "--internalize-public-api-list=" + ",".join(harnesses), cutf, "-o", out], V)
    os.remove(cutf)
    t = open(out).read()
    if "@memcmp(" in t:
        t = re.sub(r"^define .*?^}$", lambda m: eq_only(m.group(0)), t, flags=re.S | re.M)
        if not re.search(r"^declare .*@bcmp\(", t, re.M):
            t += "\ndeclare i32 @bcmp(ptr, ptr, i64)\n"
        open(out, "w").write(t)
    return out, names


def eq_only(fn):
    """memcmp whose result is only compared with zero is bcmp (the executor then compares values, not bytes)"""
    if "@memcmp(" not in fn:
        return fn
    for m in list(re.finditer(r"(%[\w.$-]+) = (?:tail |musttail )?call (?:noundef )?i32 @memcmp\(", fn)):
        r = re.escape(m.group(1))
        uses = len(re.findall(r + r"(?![\w.$-])", fn)) - 1
        zero = len(re.findall(r"icmp (?:eq|ne) i32 " + r + r", 0\b", fn))
        if uses == zero:
            fn = re.sub(r"(" + r + r" = (?:tail |musttail )?call (?:noundef )?i32 )@memcmp\(", r"\1@bcmp(", fn)
    return fn


def mangled(ll, pattern):
    r = re.compile(pattern)
    for line in open(ll):
        if line.startswith("define"):
            m = DEF.match(line)
            n = m.group(1).strip('"')
            if r.search(n):
                yield n


def replay(native, cases, case_s=20):
    """cases: [(harness, [(name, value)])] -> [(end, detail, [(name, value)])]
    end: done, viol, panic, assume; crash (the process died); hang (no result within case_s)"""
    res = []
    while len(res) < len(cases):
        rest = cases[len(res):]
        data = "".join(h + "\t" + "\t".join("%s=%s" % (a, b) for a, b in ins) + "\n" for h, ins in rest)
        p = subprocess.Popen([native], cwd=V, env=env(), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        lines, errs = queue.Queue(), []
        threading.Thread(target=lambda: ([lines.put(l) for l in p.stdout], lines.put(None)), daemon=True).start()
        te = threading.Thread(target=lambda: errs.append(p.stderr.read()), daemon=True)
        te.start()
        def feed():
            try:
                p.stdin.write(data.encode())
                p.stdin.close()
            except OSError:
                pass
        threading.Thread(target=feed, daemon=True).start()
        bad = None
        for _ in rest:
            try:
                line = lines.get(timeout=case_s)
            except queue.Empty:
                bad = ("hang", "no result within %d s" % case_s, [])
                break
            if line is None:
                bad = ("crash", "", [])
                break
            end, _, obs = line.decode(errors="replace").rstrip("\n").partition("\x01")
            k, _, det = end.partition("\t")
            res.append((k, det, [tuple(o.rsplit("=", 1)) for o in obs.split("\t") if o]))
        p.kill()
        p.wait()
        te.join(2)
        if bad:
            e = b"".join(errs).decode(errors="replace")[-300:].replace("\n", " ")
            res.append((bad[0], bad[1] or e, []))
            if sum(r[0] == "hang" for r in res) > 3:
                res += [("skipped", "", [])] * (len(cases) - len(res))
    return res
