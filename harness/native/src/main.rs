// Replays harnesses on concrete inputs against the real crates.
// stdin lines: harness \t name=value \t name=value ...
#[path = "../../src/all.rs"]
mod all;
use std::io::BufRead;
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        all::sx::native::set_panic(format!("{} at {}", m.replace(['\n', '\t'], " "), l));
    }));
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        for line in std::io::stdin().lock().lines() {
            let line = line.unwrap();
            let mut it = line.split('\t');
            let h = it.next().unwrap().to_string();
            let ins: Vec<(String, i64)> = it.filter(|s| !s.is_empty()).map(|s| { let (a, b) = s.split_once('=').unwrap(); (a.to_string(), b.parse().unwrap()) }).collect();
            let f = match all::TABLE.iter().find(|x| x.0 == h) { Some(x) => x.1, None => { println!("nosuch"); continue; } };
            all::sx::native::start(ins);
            let r = std::panic::catch_unwind(|| f());
            println!("{}", all::sx::native::finish(r.is_ok()));
        }
    }).unwrap();
    t.join().unwrap();
}
