//! Monitor framework: seeded cases over 8 workers, panic capture, CPU-time and memory watchdogs,
//! known findings, evidence.
use crate::rng::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct V {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), V>;
#[macro_export]
macro_rules! bail {
    ($sig:expr, $($t:tt)*) => { return Err($crate::fw::V { sig: $sig.to_string(), msg: format!($($t)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($t:tt)*) => { if !($c) { $crate::bail!($sig, $($t)*) } };
}
pub fn v(sig: &str, msg: impl ToString) -> V {
    V { sig: sig.to_string(), msg: msg.to_string() }
}

pub struct Ctx {
    pub r: Rng,
    pub case: u64,
    pub thorough: bool,
    pub counts: BTreeMap<&'static str, u64>,
    pub fps: HashSet<u64>,
    pub sample: Option<String>,
    pub trace: bool,
}
impl Ctx {
    pub fn add(&mut self, k: &'static str, n: usize) {
        *self.counts.entry(k).or_insert(0) += n as u64;
    }
    pub fn max(&mut self, k: &'static str, n: usize) {
        let e = self.counts.entry(k).or_insert(0);
        *e = (*e).max(n as u64);
    }
    /// registers a non-trivial observed case
    pub fn seen(&mut self, fp: u64) {
        self.fps.insert(fp);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(s());
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

// ---------------------------------------------------------------- allocator guard
pub struct Guard;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static WATCH: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<u64> = const { Cell::new(u64::MAX) };
}
const MEM_LIMIT: isize = 5 << 30;
static CURPROP: Mutex<Option<(String, u64, String)>> = Mutex::new(None);
static REPORTED: AtomicBool = AtomicBool::new(false);

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}
fn note(d: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        if v > MEM_LIMIT && d > 0 && WATCH.try_with(|w| w.replace(false)).unwrap_or(false) {
            let case = CUR.with(|c| c.get());
            fatal(case, "unbounded-memory", &format!("one case holds more than {} GiB of live heap", MEM_LIMIT >> 30));
        }
    });
}
fn fatal(case: u64, sig: &str, msg: &str) -> ! {
    if !REPORTED.swap(true, SeqCst) {
        if let Some((p, seed, tier)) = CURPROP.lock().unwrap().clone() {
            report(&p, &tier, seed, case, sig, msg);
            evidence_abort(&p, &tier, seed, sig);
        }
    }
    std::process::exit(1)
}
fn evidence_abort(p: &str, tier: &str, seed: u64, sig: &str) {
    let e = serde_json::json!({"property": p, "tier": tier, "seed": seed, "level": "exploration", "wall_s": 0.0, "violations": 1,
        "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": format!("run stopped by {sig}"), "samples": [sig]}});
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let _ = std::fs::write(format!("{}/evidence/{p}.json", root()), e.to_string());
}
pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn report(p: &str, tier: &str, seed: u64, case: u64, sig: &str, msg: &str) {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{p}.json");
    let j = serde_json::json!({"property": p, "tier": tier, "seed": seed, "case": case, "sig": sig, "message": msg,
        "how": format!("bash check.sh --replay {p} {tier} {seed} {case}")});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    println!("violated [{sig}] case {case} seed {seed}: {msg}");
    println!("VIOLATION property={p} replay={path}");
}

// ---------------------------------------------------------------- cpu clocks
unsafe extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}
fn my_clock() -> i32 {
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    c
}
fn cpu_ms(clk: i32) -> u64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(clk, &mut ts) };
    (ts[0] * 1000 + ts[1] / 1_000_000) as u64
}

// ---------------------------------------------------------------- panic capture
thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
/// Runs library code, turning a panic into a violation.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, V> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            Err(V { sig: format!("panic:{what}:{file}"), msg: format!("{what} panicked at {loc}: {msg}") })
        }
    }
}

/// what `f` gives, or nothing if it panics
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    guard("", f).ok()
}

// ---------------------------------------------------------------- known findings
/// lines: `known: property=<id> sig=<sig> case=<scripted case or *> <text>`
fn known(p: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    t.lines()
        .filter(|l| l.starts_with("known:") && l.split_whitespace().any(|w| w == format!("property={p}")))
        .filter_map(|l| {
            let sig = l.split_whitespace().find_map(|w| w.strip_prefix("sig="))?;
            Some((sig.to_string(), l.trim_start_matches("known:").trim().to_string()))
        })
        .collect()
}

fn case_seed(seed: u64, id: &str, case: u64) -> u64 {
    let mut f = Fnv::new();
    for b in id.bytes() {
        f.u(b as u64);
    }
    f.u(seed);
    f.u(case);
    f.0
}

fn run_case(p: &Prop, seed: u64, case: u64, ctx: &mut Ctx) -> Result<R, String> {
    ctx.r = Rng::new(case_seed(seed, p.id, case));
    ctx.case = case;
    match catch_unwind(AssertUnwindSafe(|| (p.run)(ctx))) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // a panic located in the harness is an error of the check, anything else the library's
            if loc.starts_with("src/") || loc.contains("/verif/harness") {
                return Err(format!("harness panic at {loc}: {msg} (case {case} seed {seed})"));
            }
            let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            Ok(Err(V { sig: format!("panic:{file}"), msg: format!("library panicked at {loc}: {msg}") }))
        }
    }
}
pub fn new_ctx(thorough: bool) -> Ctx {
    Ctx { r: Rng::new(0), case: 0, thorough, counts: BTreeMap::new(), fps: HashSet::new(), sample: None, trace: false }
}

pub fn replay(p: &Prop, tier: &str, seed: u64, case: u64) -> i32 {
    install_hook();
    *CURPROP.lock().unwrap() = Some((p.id.into(), seed, tier.into()));
    let mut ctx = new_ctx(tier == "thorough");
    ctx.trace = true;
    let r = run_case(p, seed, case, &mut ctx);
    println!("{:?}", ctx.counts);
    match r {
        Ok(Ok(())) => {
            println!("case {case}: held");
            0
        }
        Ok(Err(v)) => {
            println!("[{}] {}", v.sig, v.msg);
            1
        }
        Err(e) => {
            println!("{e}");
            2
        }
    }
}

pub fn main_run(p: &'static Prop, tier: &str, seed: u64) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    *CURPROP.lock().unwrap() = Some((p.id.into(), seed, tier.into()));
    let target = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = Duration::from_secs(std::env::var("VERIF_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 40 }));
    let nt = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let keepgoing = std::env::var("VERIF_KEEP").is_ok();
    let next = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let live = Arc::new(AtomicUsize::new(nt));
    let kn = known(p.id);
    struct Shared {
        viol: BTreeMap<String, (u64, u64, String)>,
        err: Option<String>,
        known_hits: BTreeMap<String, u64>,
        ctxs: Vec<Ctx>,
        samples: Vec<String>,
    }
    let sh = Arc::new(Mutex::new(Shared { viol: BTreeMap::new(), err: None, known_hits: BTreeMap::new(), ctxs: vec![], samples: vec![] }));
    let slots: Arc<Vec<(AtomicU64, AtomicU64, AtomicU64)>> =
        Arc::new((0..nt).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0), AtomicU64::new(0))).collect());
    for w in 0..nt {
        let (next, done, stop, sh, slots, live, kn) =
            (next.clone(), done.clone(), stop.clone(), sh.clone(), slots.clone(), live.clone(), kn.clone());
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                let clk = my_clock();
                slots[w].2.store(clk as u32 as u64, SeqCst);
                let mut ctx = new_ctx(thorough);
                WATCH.with(|x| x.set(true));
                loop {
                    if stop.load(SeqCst) || t0.elapsed() > cap {
                        break;
                    }
                    let c = next.fetch_add(1, SeqCst);
                    if c >= target {
                        break;
                    }
                    CUR.with(|x| x.set(c));
                    LIVE.with(|l| l.set(0));
                    slots[w].1.store(cpu_ms(clk), SeqCst);
                    slots[w].0.store(c, SeqCst);
                    let r = run_case(p, seed, c, &mut ctx);
                    slots[w].0.store(u64::MAX, SeqCst);
                    done.fetch_add(1, SeqCst);
                    if let Some(s) = ctx.sample.take() {
                        let mut g = sh.lock().unwrap();
                        if g.samples.len() < 4 {
                            g.samples.push(s);
                        }
                        if g.samples.len() < 4 {
                            drop(g);
                        }
                    }
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(v)) => {
                            let mut g = sh.lock().unwrap();
                            if kn.iter().any(|k| k.0 == v.sig) {
                                *g.known_hits.entry(v.sig).or_insert(0) += 1;
                            } else {
                                let e = g.viol.entry(v.sig).or_insert((c, 0, v.msg.clone()));
                                e.1 += 1;
                                if c < e.0 {
                                    e.0 = c;
                                    e.2 = v.msg;
                                }
                                if !keepgoing {
                                    stop.store(true, SeqCst);
                                }
                            }
                        }
                        Err(e) => {
                            sh.lock().unwrap().err = Some(e);
                            stop.store(true, SeqCst);
                        }
                    }
                }
                WATCH.with(|x| x.set(false));
                sh.lock().unwrap().ctxs.push(ctx);
                live.fetch_sub(1, SeqCst);
            })
            .unwrap();
    }
    let lim_ms: u64 = if thorough { 240_000 } else { 90_000 };
    while live.load(SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(20));
        for s in slots.iter() {
            let c = s.0.load(SeqCst);
            if c != u64::MAX {
                let st = s.1.load(SeqCst);
                let now = cpu_ms(s.2.load(SeqCst) as u32 as i32);
                if s.0.load(SeqCst) == c && now > st + lim_ms {
                    // bounded progress, measured in CPU time of the case's own thread
                    if sh.lock().unwrap().viol.is_empty() {
                        fatal(c, "no-progress", &format!("case still running after {} s of its own CPU time", lim_ms / 1000));
                    }
                    stop.store(true, SeqCst);
                    live.store(0, SeqCst);
                    break;
                }
            }
        }
        if REPORTED.load(SeqCst) {
            std::thread::sleep(Duration::from_secs(5));
        }
    }
    let g = sh.lock().unwrap();
    let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
    let mut fps: HashSet<u64> = HashSet::new();
    for c in &g.ctxs {
        for (k, v) in &c.counts {
            let e = counts.entry(k).or_insert(0);
            if k.starts_with("max_") { *e = (*e).max(*v) } else { *e += v }
        }
        fps.extend(&c.fps);
    }
    let evals = done.load(SeqCst);
    let nviol = g.viol.len();
    let ev = serde_json::json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "wall_s": t0.elapsed().as_secs_f64(), "violations": nviol,
        "coverage": {"evaluations": evals, "distinct_nontrivial": fps.len(), "rule": p.rule,
            "samples": if g.samples.is_empty() { vec!["(none)".to_string()] } else { g.samples.clone() },
            "events": counts, "threads": nt,
            "known_finding_hits": g.known_hits},
        "assumptions": ["the reference models in /verif/harness/core/src/ref*.rs state the intended behaviour", "held on the executions observed; nothing is claimed about executions not driven"]
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    std::fs::write(format!("{}/evidence/{}.json", root(), p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s, events {:?}", p.id, evals, fps.len(), t0.elapsed().as_secs_f64(), counts);
    for (_, l) in &kn {
        println!("KNOWN-FINDING: {l}");
    }
    if keepgoing {
        for (s, (c, n, m)) in &g.viol {
            let m: String = m.chars().take(600).collect();
            println!("VIOL sig={s} n={n} first={c}: {m}");
        }
    }
    if let Some((s, (c, _, m))) = g.viol.iter().min_by_key(|x| x.1.0) {
        report(p.id, tier, seed, *c, s, m);
        return 1;
    }
    if let Some(e) = &g.err {
        println!("ERROR {e}");
        return 2;
    }
    if fps.is_empty() {
        println!("ERROR: nothing non-trivial observed");
        return 2;
    }
    0
}
