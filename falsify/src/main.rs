//! Search for a failing input against the real crate, property by property, with an
//! independent oracle. A failing case is a byte string, so that it can be replayed.
//!   falsify <PROP> --seed N --ms BUDGET --tier quick|thorough --out FILE [--trace FILE]
//!   falsify replay <FILE>
mod blame;
mod derive;
mod errors;
mod gen;
mod oracle;
mod places;
mod props;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// buffers: exhaustive short ones, then generated ones
    Buf,
    /// 8-byte seeds of a structured generator
    Seed,
    /// every 16-bit value
    Half,
    /// one case
    Once,
}
pub struct Suite {
    pub name: &'static str,
    pub kind: Kind,
    pub f: fn(&[u8]) -> Res,
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

thread_local! { static NT: Cell<bool> = const { Cell::new(false) }; }
/// the current case exercised the property for real
pub fn nontrivial() {
    NT.with(|c| c.set(true))
}

// the case being run, for the hang and allocation reports
static CUR: Mutex<(String, Vec<u8>)> = Mutex::new((String::new(), Vec::new()));
static TICK: AtomicU64 = AtomicU64::new(0);
static OUT: Mutex<String> = Mutex::new(String::new());
static PROP: Mutex<String> = Mutex::new(String::new());
static BIG: AtomicUsize = AtomicUsize::new(usize::MAX);

struct Al;
unsafe impl GlobalAlloc for Al {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > BIG.load(Ordering::Relaxed) {
            BIG.store(usize::MAX, Ordering::Relaxed);
            let (s, c) = { let g = CUR.lock().unwrap(); g.clone() };
            report(&s, &c, &format!("allocation of {} bytes requested", l.size()));
            std::process::exit(1)
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Al = Al;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn dict_text() -> String {
    gen::DICT.get().map(|d| d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap_or_default()
}
fn report(suite: &str, case: &[u8], why: &str) {
    let p = PROP.lock().unwrap().clone();
    let o = OUT.lock().unwrap().clone();
    let d = dict_text();
    let t = format!("property: {}\nsuite: {}\ncase: {}\nwhy: {}\ndict: {}\n", p, suite, hex(case), why.replace('\n', " "), d);
    print!("FAIL\n{}", t);
    if !o.is_empty() {
        let _ = std::fs::write(&o, t);
    }
}

fn run(f: fn(&[u8]) -> Res, case: &[u8]) -> Res {
    match std::panic::catch_unwind(|| f(case)) {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            Err(format!("panic: {}", m))
        }
    }
}

/// try to make the failing case smaller
fn shrink(f: fn(&[u8]) -> Res, case: &[u8], until: Instant) -> Vec<u8> {
    let mut c = case.to_vec();
    loop {
        let mut better = None;
        let mut w = c.len();
        'o: while w > 0 {
            let mut i = 0;
            while i + w <= c.len() {
                let mut d = c.clone();
                d.drain(i..i + w);
                if Instant::now() > until {
                    break 'o;
                }
                TICK.fetch_add(1, Ordering::Relaxed);
                if run(f, &d).is_err() {
                    better = Some(d);
                    break 'o;
                }
                i += 1;
            }
            w /= 2;
        }
        match better {
            Some(d) => c = d,
            None => return c,
        }
    }
}

struct Stat {
    evals: u64,
    seen: HashSet<u64>,
    samples: Vec<String>,
}

fn one(s: &Suite, case: &[u8], st: &mut Stat, trace: &mut Option<std::fs::File>) -> bool {
    {
        let mut g = CUR.lock().unwrap();
        if g.0 != s.name {
            g.0 = s.name.to_string();
        }
        g.1.clear();
        g.1.extend_from_slice(case);
    }
    if let Some(t) = trace {
        use std::io::Seek;
        let _ = t.rewind();
        let _ = t.set_len(0);
        let _ = write!(t, "property: {}\nsuite: {}\ncase: {}\nwhy: the process died\ndict: {}\n", PROP.lock().unwrap(), s.name, hex(case), dict_text());
    }
    TICK.fetch_add(1, Ordering::Relaxed);
    NT.with(|c| c.set(false));
    st.evals += 1;
    let r = run(s.f, case);
    if let Err(e) = r {
        let small = if s.kind == Kind::Buf { shrink(s.f, case, Instant::now() + Duration::from_secs(5)) } else { case.to_vec() };
        let e2 = run(s.f, &small).err().unwrap_or(e);
        report(s.name, &small, &e2);
        return false;
    }
    if NT.with(|c| c.get()) {
        let mut h = 0xcbf29ce484222325u64;
        for b in s.name.bytes().chain(case.iter().cloned()) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        if st.seen.len() < 4_000_000 && st.seen.insert(h) && st.samples.len() < 12 && st.seen.len() % 97 == 1 {
            st.samples.push(format!("{}:{}", s.name, hex(case)));
        }
    }
    true
}

fn explore(s: &Suite, seed: u64, budget: Duration, thorough: bool, st: &mut Stat, trace: &mut Option<std::fs::File>) -> bool {
    let t0 = Instant::now();
    match s.kind {
        Kind::Once => return one(s, &[], st, trace),
        Kind::Half => {
            for a in 0..=0xffffu16 {
                if !one(s, &a.to_be_bytes(), st, trace) {
                    return false;
                }
            }
            return true;
        }
        Kind::Buf => {
            if !one(s, &[], st, trace) {
                return false;
            }
            for a in 0..=255u8 {
                if !one(s, &[a], st, trace) {
                    return false;
                }
            }
            for a in 0..=0xffffu16 {
                if !one(s, &a.to_be_bytes(), st, trace) {
                    return false;
                }
            }
            for n in 3..=(if thorough { 5 } else { 4 }) {
                let mut idx = vec![0usize; n];
                'x: loop {
                    let c: Vec<u8> = idx.iter().map(|i| gen::ALPHA[*i]).collect();
                    if !one(s, &c, st, trace) {
                        return false;
                    }
                    let mut k = n;
                    loop {
                        if k == 0 {
                            break 'x;
                        }
                        k -= 1;
                        idx[k] += 1;
                        if idx[k] < gen::ALPHA.len() {
                            break;
                        }
                        idx[k] = 0;
                    }
                    if t0.elapsed() > budget * 3 / 4 {
                        break;
                    }
                }
            }
        }
        Kind::Seed => {}
    }
    let mut r = gen::Rng::new(seed ^ s.name.len() as u64);
    let mut n = 0u64;
    while n < 2000 || t0.elapsed() < budget {
        n += 1;
        let c = match s.kind {
            Kind::Buf => gen::buf(&mut r),
            _ => r.next().to_le_bytes().to_vec(),
        };
        if !one(s, &c, st, trace) {
            return false;
        }
    }
    true
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let set = |s: &str| {
        let _ = gen::DICT.set(s.split(',').filter_map(|x| x.parse().ok()).collect());
    };
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if a.get(1).map(|s| s.as_str()) == Some("replay") {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let f = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k)).map(|x| x.to_string())).unwrap_or_default();
        set(&f("dict"));
        let p = f("property");
        let case = unhex(&f("case"));
        *PROP.lock().unwrap() = p.clone();
        for s in suites(&p) {
            if s.name == f("suite") {
                watchdog();
                *CUR.lock().unwrap() = (s.name.to_string(), case.clone());
                return match run(s.f, &case) {
                    Ok(()) => {
                        println!("holds");
                        0
                    }
                    Err(e) => {
                        println!("FAIL {}", e);
                        1
                    }
                };
            }
        }
        return 2;
    }
    let prop = a[1].clone();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let ms: u64 = get("--ms").and_then(|s| s.parse().ok()).unwrap_or(5000);
    let thorough = get("--tier").as_deref() == Some("thorough");
    set(&get("--dict").unwrap_or_default());
    *OUT.lock().unwrap() = get("--out").unwrap_or_default();
    *PROP.lock().unwrap() = prop.clone();
    let mut trace = get("--trace").map(|p| std::fs::File::create(p).unwrap());
    let su = suites(&prop);
    if su.is_empty() {
        println!("no suite for {}", prop);
        return 2;
    }
    watchdog();
    let mut st = Stat { evals: 0, seen: HashSet::new(), samples: vec![] };
    BIG.store(1 << 30, Ordering::Relaxed);
    let timed = su.iter().filter(|s| matches!(s.kind, Kind::Buf | Kind::Seed)).count().max(1) as u32;
    for s in &su {
        if !explore(s, seed, Duration::from_millis(ms) / timed, thorough, &mut st, &mut trace) {
            return 1;
        }
    }
    println!(
        "OK evaluations={} distinct_nontrivial={} suites={}",
        st.evals,
        st.seen.len(),
        su.iter().map(|s| s.name).collect::<Vec<_>>().join(",")
    );
    for s in st.samples {
        println!("SAMPLE {}", s);
    }
    0
}
fn suites(p: &str) -> Vec<Suite> {
    let mut v = props::suites(p);
    v.extend(derive::suites(p));
    v.extend(errors::suites(p));
    v.extend(places::suites(p));
    v.extend(blame::suites(p));
    v
}
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (TICK.load(Ordering::Relaxed), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let t = TICK.load(Ordering::Relaxed);
            if t != last.0 {
                last = (t, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(20) {
                let (s, c) = { let g = CUR.lock().unwrap(); g.clone() };
                report(&s, &c, "the call does not return (20 s)");
                std::process::exit(1);
            }
        }
    });
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::thread::Builder::new().stack_size(1 << 29).spawn(real_main).unwrap().join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 2,
    })
}
