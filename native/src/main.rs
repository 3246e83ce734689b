mod builders;
mod hist;
mod model;
mod readers;
mod rng;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Case { pub key: String, pub nontrivial: bool, pub res: Result<(), String> }
impl Case {
    pub fn new(key: String, nontrivial: bool) -> Case { Case { key, nontrivial, res: Ok(()) } }
    pub fn run(&mut self, f: impl FnOnce() -> Result<(), String>) {
        self.res = match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => r, Err(e) => Err(format!("panic: {}", msg(&e))) };
    }
}
pub fn msg(e: &Box<dyn std::any::Any + Send>) -> String {
    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    let l = LAST.lock().unwrap().clone();
    format!("{} ({})", m, l)
}
static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static CUR: AtomicU64 = AtomicU64::new(0);
static BEAT: AtomicU64 = AtomicU64::new(0);

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars().take(1500) {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))), c => o.push(c) }
    }
    o.push('"');
    o
}
fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) } h }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = a[1].clone();
    if prop == "probe" { probe(&a[2]); return }
    let seed: u64 = get("--seed").map_or(1, |x| x.parse().unwrap());
    let ms: u64 = get("--ms").map_or(2000, |x| x.parse().unwrap());
    let only: Option<u64> = get("--case").map(|x| x.parse().unwrap());
    let trace = a.iter().any(|x| x == "--trace");
    let f: fn(&mut rng::Rng, u64) -> Case = match prop.as_str() {
        "R01" => readers::r01, "R02" => readers::r02, "R03" => readers::r03, "R04" => readers::r04, "R05" => readers::r05,
        "R06" => builders::r06, "R07" => builders::r07, "R08" => builders::r08, "R09" => builders::r09, "R10" => builders::r10,
        "R11" => builders::r11, "R12" => builders::r12, "R13" => builders::r13, "R14" => builders::r14,
        p => panic!("no search for {}", p),
    };
    std::panic::set_hook(Box::new(|i| { *LAST.lock().unwrap() = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line())) }));
    let total = if prop == "R13" { builders::R13_CASES } else { u64::MAX };
    let limit_s = if prop == "R13" { 240 } else { 60 };
    let p2 = prop.clone();
    let prof = if cfg!(debug_assertions) { "debug" } else { "release" };
    // one case that does not end is reported as such
    std::thread::spawn(move || {
        let mut last = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last.0 { last = (b, Instant::now()) }
            if last.1.elapsed() > Duration::from_secs(limit_s) {
                let n = CUR.load(Ordering::Relaxed);
                println!("{{\"prop\":\"{}\",\"profile\":\"{}\",\"cases\":{},\"distinct\":0,\"samples\":[],\"violation\":{{\"case\":{},\"input\":\"\",\"detail\":\"the call does not return\"}}}}", p2, prof, b, n);
                std::process::exit(1);
            }
        }
    });
    let t0 = Instant::now();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut cases = 0u64;
    let mut viol: Option<(u64, String, String)> = None;
    let mut n = only.unwrap_or(0);
    while n < total {
        CUR.store(n, Ordering::Relaxed);
        BEAT.fetch_add(1, Ordering::Relaxed);
        if trace { eprintln!("case {}", n) }
        let mut r = rng::Rng::new(seed, n);
        let c = match catch_unwind(AssertUnwindSafe(|| f(&mut r, n))) { Ok(c) => c, Err(e) => { let m = msg(&e); Case { key: "(while building the case)".into(), nontrivial: false, res: Err(m) } } };
        cases += 1;
        if c.nontrivial && seen.len() < 2_000_000 { if seen.insert(hash(&c.key)) && samples.len() < 2 { samples.push(c.key.clone()) } }
        if let Err(e) = c.res { viol = Some((n, c.key, e)); break }
        if only.is_some() || (total == u64::MAX && t0.elapsed() > Duration::from_millis(ms)) { break }
        n += 1;
    }
    let v = match &viol { None => "null".to_string(), Some((n, k, e)) => format!("{{\"case\":{},\"input\":{},\"detail\":{}}}", n, esc(k), esc(e)) };
    println!("{{\"prop\":\"{}\",\"profile\":\"{}\",\"cases\":{},\"distinct\":{},\"samples\":[{}],\"violation\":{}}}", prop, prof, cases, seen.len(), samples.iter().map(|s| esc(&s.chars().take(300).collect::<String>())).collect::<Vec<_>>().join(","), v);
    std::process::exit(if viol.is_some() { 1 } else { 0 });
}

/// known findings: is the recorded failure still there?
fn probe(name: &str) {
    use butte::*;
    let there = match name {
        // a byte that is neither 0 nor 1 becomes a bool
        "bool-slice" => {
            let b = [2u8, 0, 0, 0, 1, 2];
            match <&[bool] as Follow>::follow(&b, 0) { Ok(s) => unsafe { *(s.as_ptr() as *const u8).add(1) == 2 }, Err(_) => false }
        }
        "bool-scalar" => {
            let b = [2u8];
            let r: Result<bool, Error> = read_scalar::<bool>(&b);
            match &r { Ok(x) => unsafe { std::ptr::read_volatile(x as *const bool as *const u8) == 2 }, Err(_) => false }
        }
        _ => false,
    };
    println!("{}", if there { "PRESENT" } else { "absent" });
}
