// symex: bounded symbolic execution of LLVM IR with an SMT solver.
mod exec;
mod ir;
mod num;
mod solver;
use exec::*;
use num::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Item { log: Vec<L>, seed: HashMap<String, Int> }

struct Shared { q: Mutex<(VecDeque<Item>, usize, bool)>, cv: Condvar, idle: AtomicUsize, qlen: AtomicUsize }

#[derive(Default)]
struct Stats {
    done: u64, assume: u64, panics_allowed: u64, errors: u64,
    error_msgs: BTreeMap<String, u64>,
    panic_msgs: BTreeMap<String, u64>,
    violations: Vec<(String, Vec<(String, Int)>)>,
    nviol: u64,
    traces: Vec<(Vec<(String, Int)>, Vec<(String, Int)>, String)>,
    covers: BTreeMap<String, u64>,
    executed: BTreeSet<u32>,
    steps: u64, forks: u64, decides: u64, cache: u64,
    queries: u64, sat: u64, unsat: u64, unknown: u64, time: f64, max_time: f64, maxsteps: u64, vars: usize,
}

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), c if (c as u32) < 32 || (c as u32) > 126 => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { r.push_str(&format!("\\u{:04x}", u)); } } c => r.push(c) } }
    r.push('"');
    r
}

/// values of this path's inputs (names are unique within a path, not across paths)
fn named_model(w: &Worker, st: &State) -> HashMap<String, Int> { input_list(w, st).into_iter().collect() }
fn input_list(w: &Worker, st: &State) -> Vec<(String, Int)> { st.inputs.iter().map(|(n, v)| (n.clone(), w.cx.eval_var(*v, &st.model))).collect() }

struct Opts { threads: usize, time: f64, mode: u8, max_steps: u64, samples: usize, max_viol: usize, dbg: bool, timeout_ms: u32 }

fn worker(prog: &'static ir::Program, entry: u32, sh: &Shared, stop: &'static AtomicBool, o: &Opts, base: &State0, tid: usize) -> Stats {
    let mut s = Stats::default();
    let mut w = Worker {
        prog, cx: solver::Ctx::new(o.mode, o.timeout_ms), st: base.mk(), stack: vec![], replay: vec![],
        executed: vec![false; prog.funcs.len()], steps: 0, forks: 0, decides: 0, unknowns: 0, covers: BTreeMap::new(),
        max_steps: o.max_steps, dbg: o.dbg, stop_flag: stop, recent: vec![], seed: HashMap::new(), cache_hits: 0, forksites: std::env::var("SX_FORKS").ok().map(|_| HashMap::new()),
    };
    let init = w.st.clone();
    let mut npath = 0u64;
    loop {
        // next item
        let item = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if g.2 { break None; }
                if let Some(x) = g.0.pop_front() { sh.qlen.store(g.0.len(), Ordering::Relaxed); break Some(x); }
                g.1 += 1;
                sh.idle.store(g.1, Ordering::Relaxed);
                if g.1 == o.threads { g.2 = true; sh.cv.notify_all(); break None; }
                g = sh.cv.wait(g).unwrap();
                if g.2 { break None; }
                g.1 -= 1;
                sh.idle.store(g.1, Ordering::Relaxed);
            }
        };
        let item = match item { Some(i) => i, None => break };
        w.st = init.clone();
        w.seed = item.seed;
        w.replay = item.log;
        w.recent.clear();
        if let Err(e) = w.push_call(entry, vec![], ir::NODST, None) { *s.error_msgs.entry(format!("{:?}", e)).or_insert(0) += 1; s.errors += 1; continue; }
        loop {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.run()));
            npath += 1;
            if w.st.steps > s.maxsteps { s.maxsteps = w.st.steps; }
            let out = match r { Ok(x) => x, Err(_) => Stop::Engine("engine panic".into()) };
            let mut trace = None;
            match out {
                Stop::Done => { s.done += 1; trace = Some("done".to_string()); }
                Stop::Assume => s.assume += 1,
                Stop::Restart => {}
                Stop::Panic(m) => {
                    *s.panic_msgs.entry(m.clone()).or_insert(0) += 1;
                    if w.st.allow_panic { s.panics_allowed += 1; trace = Some(format!("panic {}", m)); }
                    else { s.nviol += 1; let msg = format!("panic: {}", m); if s.violations.iter().filter(|v| v.0 == msg).count() < 3 && s.violations.len() < o.max_viol { let i = input_list(&w, &w.st); s.violations.push((msg, i)); } }
                }
                Stop::Violation(m) => { s.nviol += 1; if s.violations.iter().filter(|v| v.0 == m).count() < 3 && s.violations.len() < o.max_viol { let i = input_list(&w, &w.st); s.violations.push((m, i)); } }
                Stop::Engine(m) => {
                    s.errors += 1;
                    if s.error_msgs.len() < 40 { let i = if o.dbg { format!(" {:?}", input_list(&w, &w.st)) } else { String::new() }; *s.error_msgs.entry(m + &i).or_insert(0) += 1; }
                }
            }
            if let Some(t) = trace {
                // reservoir-like sampling, deterministic per thread
                let k = s.traces.len();
                if k < o.samples || (npath % (1 + npath / (o.samples as u64).max(1))) == 0 {
                    let i = input_list(&w, &w.st);
                    let ob: Vec<(String, Int)> = w.st.obs.iter().map(|(n, v)| (n.clone(), match v { Val::C(x) => Int::from_i128(sext(*x, 64)), Val::S(sy) => match &**sy { Sym::I(p) => w.cx.eval(p, &w.st.model), _ => Int::S(0) }, _ => Int::S(0) })).collect();
                    if k < o.samples { s.traces.push((i, ob, t)); } else if o.samples > 0 { let j = (npath as usize * 7919) % o.samples; s.traces[j] = (i, ob, t); }
                }
            }
            if stop.load(Ordering::Relaxed) { if !w.stack.is_empty() { s.errors += 1; *s.error_msgs.entry("time limit".into()).or_insert(0) += 1; } w.stack.clear(); break; }
            if s.nviol > 200 { // enough counterexamples
                w.stack.clear();
                let mut g = sh.q.lock().unwrap();
                g.2 = true; sh.cv.notify_all();
                break;
            }
            if sh.idle.load(Ordering::Relaxed) > 0 && sh.qlen.load(Ordering::Relaxed) == 0 && w.stack.len() > 1 {
                let d = w.stack.remove(0);
                let it = Item { log: d.log.clone(), seed: named_model(&w, &d) };
                let mut g = sh.q.lock().unwrap();
                g.0.push_back(it);
                sh.qlen.store(g.0.len(), Ordering::Relaxed);
                sh.cv.notify_one();
            }
            match w.stack.pop() { Some(n) => { w.st = n; } None => break }
        }
    }
    if let (0, Some(f)) = (tid, &w.forksites) {
        let mut v: Vec<_> = f.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(12) { eprintln!("  forks {} {}", n, k); }
    }
    s.covers = w.covers;
    for (i, b) in w.executed.iter().enumerate() { if *b { s.executed.insert(i as u32); } }
    s.steps = w.steps; s.forks = w.forks; s.decides = w.decides; s.cache = w.cache_hits;
    s.queries = w.cx.queries; s.sat = w.cx.sat; s.unsat = w.cx.unsat; s.unknown = w.cx.unknown; s.time = w.cx.time; s.max_time = w.cx.max_time;
    s.vars = w.cx.vars.len();
    s
}

struct State0 { globals: Vec<Vec<u8>> }
impl State0 {
    fn mk(&self) -> State {
        let mut mem = vec![None];
        for g in &self.globals { mem.push(Some(Rc::new(Obj { data: g.clone(), sym: BTreeMap::new() }))); }
        State {
            frames: vec![], mem, free: vec![], path: vec![], bounds: HashMap::new(), vb: HashMap::new(), nfixed: 0, defs: BTreeSet::new(),
            model: Rc::new(HashMap::new()), log: vec![], rpos: 0, inputs: Rc::new(vec![]), obs: Rc::new(vec![]), allow_panic: false, steps: 0,
        }
    }
}

fn jlist(v: &[(String, Int)]) -> String { format!("[{}]", v.iter().map(|(n, x)| format!("[{},\"{}\"]", esc(n), x)).collect::<Vec<_>>().join(",")) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut harness: Vec<String> = vec![];
    let mut out = String::new();
    let mut aliases = vec![];
    let mut o = Opts { threads: 8, time: 600.0, mode: 0, max_steps: 40_000_000, samples: 40, max_viol: 24, dbg: false, timeout_ms: 60_000 };
    let mut k = 1;
    while k < args.len() {
        let a = args[k].clone();
        let mut nx = || { k += 1; args[k].clone() };
        match &a[..] {
            "--harness" => harness.extend(nx().split(',').map(|s| s.to_string())),
            "--threads" => o.threads = nx().parse().unwrap(),
            "--time" => o.time = nx().parse().unwrap(),
            "--out" => out = nx(),
            "--mode" => o.mode = nx().parse().unwrap(),
            "--max-steps" => o.max_steps = nx().parse().unwrap(),
            "--samples" => o.samples = nx().parse().unwrap(),
            "--timeout-ms" => o.timeout_ms = nx().parse().unwrap(),
            "--alias" => { let x = nx(); let (p, q) = x.split_once('=').unwrap(); aliases.push((p.to_string(), q.to_string())); }
            "--debug" => o.dbg = true,
            _ => file = a,
        }
        k += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("read");
    let prog = match ir::parse(&text, &aliases) { Ok(p) => p, Err(e) => { eprintln!("parse error: {}", e); std::process::exit(4); } };
    let prog: &'static ir::Program = Box::leak(Box::new(prog));
    let tp = t0.elapsed().as_secs_f64();
    let base = State0 { globals: prog.globals.iter().map(|g| g.data.clone()).collect() };
    if !o.dbg { std::panic::set_hook(Box::new(|i| { eprintln!("engine: {}", i); })); }
    let stop: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let mut js = vec![];
    for h in &harness {
        let entry = match prog.fn_id.get(h) { Some(e) => *e, None => { eprintln!("no function {}", h); std::process::exit(4); } };
        let th = Instant::now();
        stop.store(false, Ordering::SeqCst);
        let sh = Shared { q: Mutex::new((VecDeque::from(vec![Item { log: vec![], seed: HashMap::new() }]), 0, false)), cv: Condvar::new(), idle: AtomicUsize::new(0), qlen: AtomicUsize::new(1) };
        let finished = AtomicBool::new(false);
        let stats: Vec<Stats> = std::thread::scope(|sc| {
            let (sh, o, base, finished) = (&sh, &o, &base, &finished);
            let hs: Vec<_> = (0..o.threads).map(|t| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || worker(prog, entry, sh, stop, o, base, t)).unwrap()).collect();
            let limit = Duration::from_secs_f64(o.time);
            sc.spawn(move || {
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    if th.elapsed() > limit && !stop.load(Ordering::Relaxed) {
                        stop.store(true, Ordering::SeqCst);
                    }
                    solver::watchdog(stop);
                    if stop.load(Ordering::Relaxed) { let mut g = sh.q.lock().unwrap(); g.2 = true; drop(g); sh.cv.notify_all(); }
                }
            });
            let r = hs.into_iter().map(|h| h.join().unwrap()).collect();
            finished.store(true, Ordering::Relaxed);
            r
        });
        let pending = sh.q.lock().unwrap().0.len() as u64;
        let mut t = Stats::default();
        for s in stats {
            t.done += s.done; t.assume += s.assume; t.panics_allowed += s.panics_allowed; t.errors += s.errors; t.nviol += s.nviol;
            for (m, n) in s.error_msgs { *t.error_msgs.entry(m).or_insert(0) += n; }
            for (m, n) in s.panic_msgs { *t.panic_msgs.entry(m).or_insert(0) += n; }
            for (m, n) in s.covers { *t.covers.entry(m).or_insert(0) += n; }
            t.violations.extend(s.violations); t.traces.extend(s.traces); t.executed.extend(s.executed);
            t.steps += s.steps; t.forks += s.forks; t.decides += s.decides; t.cache += s.cache;
            t.queries += s.queries; t.sat += s.sat; t.unsat += s.unsat; t.unknown += s.unknown; t.time += s.time;
            t.max_time = t.max_time.max(s.max_time); t.maxsteps = t.maxsteps.max(s.maxsteps); t.vars = t.vars.max(s.vars);
        }
        let timed = stop.load(Ordering::Relaxed);
        let fns: Vec<String> = t.executed.iter().map(|i| esc(&prog.funcs[*i as usize].name)).collect();
        let wall = th.elapsed().as_secs_f64();
        eprintln!("{}: done {} assume {} panics-allowed {} violations {} errors {} pending {} | steps {} (max/path {}) forks {} decides {} cache {} | queries {} (sat {} unsat {} unknown {}) solver {:.2}s max {:.2}s vars {} | wall {:.2}s", h, t.done, t.assume, t.panics_allowed, t.nviol, t.errors, pending, t.steps, t.maxsteps, t.forks, t.decides, t.cache, t.queries, t.sat, t.unsat, t.unknown, t.time, t.max_time, t.vars, wall);
        for (m, n) in &t.error_msgs { eprintln!("  error x{}: {}", n, m); }
        for (m, n) in &t.panic_msgs { eprintln!("  panic x{}: {}", n, m); }
        for (m, i) in t.violations.iter().take(if o.dbg { 12 } else { 4 }) { eprintln!("  VIOL {} {}", m, jlist(i)); }
        if o.dbg { eprintln!("  covers {:?}", t.covers); }
        let mut j = String::new();
        j.push_str(&format!("{{\"harness\":{},\"done\":{},\"assume\":{},\"panics_allowed\":{},\"nviolations\":{},\"errors\":{},\"pending\":{},\"timed_out\":{},\"steps\":{},\"max_path_steps\":{},\"forks\":{},\"decides\":{},\"cache_hits\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"parse_s\":{:.3},\"z3\":{},", esc(h), t.done, t.assume, t.panics_allowed, t.nviol, t.errors, pending, timed, t.steps, t.maxsteps, t.forks, t.decides, t.cache, t.queries, t.sat, t.unsat, t.unknown, t.time, t.max_time, wall, tp, esc(&solver::z3_version())));
        let mp = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(a, b)| format!("{}:{}", esc(a), b)).collect::<Vec<_>>().join(","));
        j.push_str(&format!("\"error_msgs\":{},\"panic_msgs\":{},\"covers\":{},\"functions\":[{}],", mp(&t.error_msgs), mp(&t.panic_msgs), mp(&t.covers), fns.join(",")));
        j.push_str(&format!("\"violations\":[{}],", t.violations.iter().map(|(m, i)| format!("{{\"msg\":{},\"inputs\":{}}}", esc(m), jlist(i))).collect::<Vec<_>>().join(",")));
        j.push_str(&format!("\"traces\":[{}]}}", t.traces.iter().map(|(i, b, r)| format!("{{\"inputs\":{},\"obs\":{},\"end\":{}}}", jlist(i), jlist(b), esc(r))).collect::<Vec<_>>().join(",")));
        js.push(j);
    }
    if !out.is_empty() { std::fs::write(&out, format!("[{}]", js.join(",\n"))).unwrap(); }
}
