// Interface between harnesses and the symbolic executor (or the native replayer).
#![allow(dead_code)]
use std::ffi::CStr;

#[cfg(not(sx_native))]
mod imp {
    use super::*;
    extern "C" {
        fn sx_sym(n: *const u8, lo: i64, hi: i64) -> i64;
        fn sx_assume(c: u8);
        fn sx_assert(c: u8, m: *const u8);
        fn sx_cover(m: *const u8);
        fn sx_observe(m: *const u8, v: i64);
        fn sx_allow_panic(c: u8);
        fn sx_conc(v: u64) -> u64;
    }
    /// an arbitrary integer in lo..=hi
    pub fn int(n: &'static CStr, lo: i64, hi: i64) -> i64 { unsafe { sx_sym(n.as_ptr() as *const u8, lo, hi) } }
    pub fn assume(c: bool) { unsafe { sx_assume(c as u8) } }
    pub fn check(c: bool, m: &'static CStr) { unsafe { sx_assert(c as u8, m.as_ptr() as *const u8) } }
    pub fn cover(m: &'static CStr) { unsafe { sx_cover(m.as_ptr() as *const u8) } }
    pub fn observe(m: &'static CStr, v: i64) { unsafe { sx_observe(m.as_ptr() as *const u8, v) } }
    pub fn allow_panic(c: bool) { unsafe { sx_allow_panic(c as u8) } }
    /// case split: every feasible value becomes its own path
    pub fn conc(v: i64) -> i64 { unsafe { sx_conc(v as u64) as i64 } }
}

#[cfg(sx_native)]
pub mod native {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct St { pub ins: Vec<(String, i64)>, pub used: Vec<String>, pub obs: Vec<(String, i64)>, pub end: String, pub panic: String }
    thread_local! { pub static ST: RefCell<St> = RefCell::new(St::default()); }
    pub fn start(ins: Vec<(String, i64)>) { ST.with(|s| *s.borrow_mut() = St { ins, ..St::default() }); }
    pub fn set_panic(m: String) { ST.with(|s| s.borrow_mut().panic = m); }
    pub fn finish(ok: bool) -> String {
        ST.with(|s| {
            let s = s.borrow();
            let end = if !s.end.is_empty() { s.end.clone() } else if ok { "done".into() } else { format!("panic\t{}", s.panic) };
            let obs: Vec<String> = s.obs.iter().map(|(n, v)| format!("{}={}", n, v)).collect();
            format!("{}\u{1}{}", end, obs.join("\t"))
        })
    }
}
#[cfg(sx_native)]
mod imp {
    use super::*;
    use super::native::ST;
    pub fn int(n: &'static CStr, lo: i64, hi: i64) -> i64 {
        if lo == hi { return lo; }
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let base = n.to_str().unwrap().to_string();
            let pre = format!("{}~", base);
            let dup = s.used.iter().filter(|x| **x == base || x.starts_with(&pre)).count();
            let name = if dup > 0 { format!("{}~{}", base, dup) } else { base };
            let v = s.ins.iter().find(|x| x.0 == name).map(|x| x.1).unwrap_or(if lo <= 0 && hi >= 0 { 0 } else { lo });
            s.used.push(name);
            v
        })
    }
    fn stop(e: String) -> ! { ST.with(|s| s.borrow_mut().end = e); std::panic::resume_unwind(Box::new(0u8)) }
    pub fn assume(c: bool) { if !c { stop("assume".into()) } }
    pub fn check(c: bool, m: &'static CStr) { if !c { stop(format!("viol\t{}", m.to_str().unwrap())) } }
    pub fn cover(_m: &'static CStr) {}
    pub fn observe(m: &'static CStr, v: i64) { ST.with(|s| s.borrow_mut().obs.push((m.to_str().unwrap().to_string(), v))); }
    pub fn allow_panic(_c: bool) {}
    pub fn conc(v: i64) -> i64 { v }
}
pub use imp::*;

pub fn i32_(n: &'static CStr, lo: i64, hi: i64) -> i32 { int(n, lo, hi) as i32 }
pub fn idx(n: &'static CStr, lo: usize, hi: usize) -> usize { conc(int(n, lo as i64, hi as i64)) as usize }
pub fn boolean(n: &'static CStr) -> bool { int(n, 0, 1) == 1 }
/// bound of the quick / the thorough tier
pub fn sz(quick: i64, deep: i64) -> i64 { if cfg!(sx_thorough) { deep } else { quick } }
