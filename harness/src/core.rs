//! Generated-input search engine: proptest strategies for generation and shrinking, our own loop for
//! counting, known findings, replay files, parallel workers and evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}
#[derive(Debug, Clone, Default)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
impl Info {
    pub fn nt(n: bool) -> Self {
        Info { nontrivial: n, labels: vec![] }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Self {
        if on {
            self.labels.push(l);
        }
        self
    }
}
pub type CaseResult = Result<Info, Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($a:tt)*) => { return Err($crate::core::Fail::new($sig, format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return Err($crate::core::Fail::new($sig, format!($($a)*))) } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::core::Fail::new($sig, format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b))) }
    }};
}

#[derive(Clone)]
pub enum Mode {
    Run,
    Replay { sub: String, case: Value },
}

#[derive(Clone, Debug)]
struct Known {
    id: String,
    sub: String,
    sig: String,
    case: Value,
    what: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub mode: Mode,
    pub root: String,
    known: Vec<Known>,
    subs: Vec<Value>,
    evaluations: u64,
    distinct: u64,
    samples: Vec<Value>,
    rules: Vec<String>,
    violations: u64,
    known_printed: HashSet<String>,
    excluded_known: u64,
    started: Instant,
    only: Option<String>,
    scale: f64,
    pub replayed: bool,
    workers: usize,
}

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    static BUDGET: Cell<i64> = const { Cell::new(i64::MAX) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
static FOREIGN_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

struct Slot {
    /// half seconds the watchdog has seen the case run
    ticks: u32,
    thread: libc::pthread_t,
    cpu_start: f64,
    prop: String,
    sub: String,
    root: String,
    case: Box<dyn Fn() -> String + Send>,
    pure: bool,
    active: bool,
}
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
static EMERGENCY: AtomicBool = AtomicBool::new(false);

fn cpu_of(th: libc::pthread_t) -> f64 {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(th, &mut clk) != 0 {
            return 0.0;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return 0.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

/// Counting allocator: a case may not allocate (gross) more than its budget. Used to turn unbounded
/// growth into a deterministic verdict instead of exhausting the machine.
pub struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        charge(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        charge(n);
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        charge(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
}
fn charge(n: usize) {
    let over = BUDGET
        .try_with(|b| {
            let v = b.get();
            if v == i64::MAX {
                return false;
            }
            let v = v - n as i64;
            if v < 0 {
                b.set(i64::MAX);
                true
            } else {
                b.set(v);
                false
            }
        })
        .unwrap_or(false);
    if over {
        let s = SLOT.with(|s| s.get());
        emergency(s, "unbounded-memory", "a single case allocated more than its memory budget (unbounded growth)");
    }
}
fn emergency(slot: usize, sig: &str, msg: &str) -> ! {
    if EMERGENCY.swap(true, Ordering::SeqCst) {
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    let slots = SLOTS.lock().unwrap();
    let s = &slots[slot];
    let case: Value = serde_json::from_str(&(s.case)()).unwrap_or(Value::Null);
    let path = write_replay(&s.root, &s.prop, &s.sub, &case, sig, msg);
    println!("  [{}] {}: {}", s.sub, sig, msg);
    println!("VIOLATION property={} replay={}", s.prop, path);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}");
        let here = IN_CASE.try_with(|c| c.get()).unwrap_or(false);
        if here {
            let _ = PANICS.try_with(|p| p.borrow_mut().push(m));
        } else {
            if std::env::var("VH_DEBUG").is_ok() {
                eprintln!("panic outside case: {m}");
            }
            FOREIGN_PANICS.lock().unwrap().push(m);
        }
    }));
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let mut hit: Option<(usize, bool)> = None;
        {
            let mut slots = SLOTS.lock().unwrap();
            for (i, s) in slots.iter_mut().enumerate() {
                if !s.active {
                    continue;
                }
                let cpu = cpu_of(s.thread) - s.cpu_start;
                if cpu > 60.0 && s.pure {
                    hit = Some((i, true));
                }
                s.ticks += 1;
                // every wait in a case is bounded, far below this
                if s.ticks > 360 {
                    hit = Some((i, false));
                }
            }
        }
        if let Some((i, cpu)) = hit {
            if cpu {
                emergency(i, "no-termination", "a single small case consumed 60 s of CPU without finishing");
            }
            emergency(i, "stuck", "a single small case has not come to an end in three minutes: a call blocks its thread");
        }
    });
}

pub fn splitmix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    splitmix(h)
}

fn write_replay(root: &str, prop: &str, sub: &str, case: &Value, sig: &str, msg: &str) -> String {
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{sub}-{:08x}.json", hash_str(&case.to_string()) as u32);
    let v = json!({"property": prop, "sub": sub, "sig": sig, "message": msg, "case": case});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn run_case<T>(f: &(dyn Fn(&T) -> CaseResult + Sync), case: &T, mem: i64) -> CaseResult {
    PANICS.with(|p| p.borrow_mut().clear());
    IN_CASE.with(|c| c.set(true));
    BUDGET.with(|b| b.set(mem));
    let r = catch_unwind(AssertUnwindSafe(|| f(case)));
    BUDGET.with(|b| b.set(i64::MAX));
    IN_CASE.with(|c| c.set(false));
    let panics = PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()));
    match r {
        Err(_) => Err(Fail::new("panic", panics.join(" | "))),
        Ok(Err(f)) => Err(f),
        Ok(Ok(i)) => {
            if panics.is_empty() {
                Ok(i)
            } else {
                Err(Fail::new("panic", panics.join(" | ")))
            }
        },
    }
}

pub struct SubOpts {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough_mul: u64,
    pub pure: bool,
    pub workers: usize,
    pub mem: i64,
}
pub fn sub(name: &'static str, quick: u64, rule: &'static str) -> SubOpts {
    SubOpts { name, rule, quick, thorough_mul: 20, pure: true, workers: 8, mem: 4 << 30 }
}
impl SubOpts {
    /// cases that wait on real I/O
    pub fn io(mut self) -> Self {
        self.pure = false;
        self
    }
    pub fn mul(mut self, m: u64) -> Self {
        self.thorough_mul = m;
        self
    }
    pub fn workers(mut self, w: usize) -> Self {
        self.workers = w;
        self
    }
}

/// How many times the written number of cases the quick tier runs: checks that are quick by far do more.
fn boost(prop: &str) -> u64 {
    match prop {
        "C19" | "C20" | "C23" | "C39" | "C40" => 1,
        "C12" | "C16" | "C18" | "C21" | "C22" | "C29" | "C31" | "C34" => 2,
        _ => 4,
    }
}
#[derive(Default)]
struct WorkerOut {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(usize, Value)>,
    known_hits: HashMap<String, u64>,
    fail: Option<(Value, Fail, u64)>,
    error: Option<String>,
}

impl Ctx {
    pub fn new(prop: &str, tier: &str, seed: u64, root: &str, mode: Mode) -> Self {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.jsonl")) {
            for l in s.lines() {
                if l.trim().is_empty() {
                    continue;
                }
                let v: Value = serde_json::from_str(l).expect("known_findings.jsonl");
                if v["status"] != "known" || v["property"] != prop {
                    continue;
                }
                known.push(Known {
                    id: v["id"].as_str().unwrap().into(),
                    sub: v["sub"].as_str().unwrap().into(),
                    sig: v["sig"].as_str().unwrap().into(),
                    case: v["case"].clone(),
                    what: v["what"].as_str().unwrap().into(),
                });
            }
        }
        Ctx {
            prop: prop.into(),
            thorough: tier == "thorough",
            seed,
            mode,
            root: root.into(),
            known,
            subs: vec![],
            evaluations: 0,
            distinct: 0,
            samples: vec![],
            rules: vec![],
            violations: 0,
            known_printed: HashSet::new(),
            excluded_known: 0,
            started: Instant::now(),
            only: std::env::var("VH_SUB").ok(),
            scale: std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            replayed: false,
            workers: std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
        }
    }

    pub fn check<T, S, F>(&mut self, o: SubOpts, strat: S, f: F)
    where
        T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send + 'static,
        S: Fn() -> BoxedStrategy<T> + Sync,
        F: Fn(&T) -> CaseResult + Sync,
    {
        let f: &(dyn Fn(&T) -> CaseResult + Sync) = &f;
        if let Mode::Replay { sub, case } = &self.mode {
            if sub != o.name {
                return;
            }
            self.replayed = true;
            let case: T = serde_json::from_value(case.clone()).expect("replay case does not decode");
            let slot = new_slot(&self.prop, o.name, &self.root, o.pure);
            arm(slot, &case);
            let r = run_case(f, &case, o.mem);
            disarm(slot);
            match r {
                Ok(i) => println!("replay of {}/{}: holds ({:?})", self.prop, o.name, i),
                Err(e) => {
                    println!("replay of {}/{}: FAILS [{}] {}", self.prop, o.name, e.sig, e.msg);
                    self.violations += 1;
                },
            }
            return;
        }
        if let Some(only) = &self.only {
            if !o.name.contains(only.as_str()) {
                return;
            }
        }
        let t0 = Instant::now();
        let known_sigs: HashMap<String, String> = self
            .known
            .iter()
            .filter(|k| k.sub == o.name)
            .map(|k| (k.sig.clone(), k.id.clone()))
            .collect();
        // saved inputs first
        let mut fixed: Vec<T> = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/corpus/{}.jsonl", self.root, self.prop)) {
            for l in s.lines().filter(|l| !l.trim().is_empty()) {
                let v: Value = serde_json::from_str(l).expect("corpus line");
                if v["sub"] == o.name {
                    match serde_json::from_value(v["case"].clone()) {
                        Ok(c) => fixed.push(c),
                        Err(e) => panic!("corpus case of {}/{} does not decode: {e}", self.prop, o.name),
                    }
                }
            }
        }
        let total = o.quick * if self.thorough { o.thorough_mul } else { boost(&self.prop) };
        let total = ((total as f64) * self.scale).max(1.0) as u64;
        let workers = if o.workers > 8 && self.workers == 8 { o.workers } else { o.workers.min(self.workers) }.max(1);
        let stop = AtomicUsize::new(usize::MAX);
        let shrink_budget = AtomicU64::new(0);
        let outs: Vec<WorkerOut> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..workers)
                .map(|w| {
                    let (stop, known_sigs, strat, prop, root, seed) =
                        (&stop, &known_sigs, &strat, &self.prop, &self.root, self.seed);
                    let fixed = if w == 0 { fixed.clone() } else { vec![] };
                    let o = &o;
                    let _ = &shrink_budget;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let slot = new_slot(prop, o.name, root, o.pure);
                            let mut out = WorkerOut::default();
                            let quota = total / workers as u64 + u64::from((total % workers as u64) > w as u64);
                            let h = hash_str(&format!("{prop}/{}/{w}/{seed}", o.name));
                            let mut bytes = [0u8; 32];
                            for (i, c) in bytes.chunks_mut(8).enumerate() {
                                c.copy_from_slice(&splitmix(h.wrapping_add(i as u64)).to_le_bytes());
                            }
                            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
                            let cfg = Config { failure_persistence: None, ..Config::default() };
                            let mut runner = TestRunner::new_with_rng(cfg, rng);
                            let strategy = strat();
                            for c in &fixed {
                                arm(slot, c);
                                let r = run_case(f, c, o.mem);
                                disarm(slot);
                                record(&mut out, c, r.as_ref().ok());
                                if let Err(e) = r {
                                    if let Some(id) = known_sigs.get(&e.sig) {
                                        *out.known_hits.entry(id.clone()).or_default() += 1;
                                    } else {
                                        out.fail = Some((serde_json::to_value(c).unwrap(), e, 0));
                                        stop.fetch_min(w, Ordering::SeqCst);
                                        return out;
                                    }
                                }
                            }
                            for _ in 0..quota {
                                // stop early only if a lower-numbered worker failed: the reported failure is
                                // then independent of thread timing
                                if stop.load(Ordering::SeqCst) < w {
                                    break;
                                }
                                let mut tree = match strategy.new_tree(&mut runner) {
                                    Ok(t) => t,
                                    Err(e) => {
                                        out.error = Some(format!("generator rejected too much: {e}"));
                                        return out;
                                    },
                                };
                                let case = tree.current();
                                arm(slot, &case);
                                let r = run_case(f, &case, o.mem);
                                disarm(slot);
                                record(&mut out, &case, r.as_ref().ok());
                                let Err(e) = r else { continue };
                                if let Some(id) = known_sigs.get(&e.sig) {
                                    *out.known_hits.entry(id.clone()).or_default() += 1;
                                    continue;
                                }
                                stop.fetch_min(w, Ordering::SeqCst);
                                // shrink
                                let mut best = (case, e);
                                let mut steps = 0u64;
                                let t_shrink = Instant::now();
                                let slow = best.1.sig.starts_with("timeout");
                                let max_steps = if slow { 0 } else { 3000 };
                                if slow {
                                    // a time-based verdict must repeat before it counts
                                    for _ in 0..2 {
                                        arm(slot, &best.0);
                                        let r = run_case(f, &best.0, o.mem);
                                        disarm(slot);
                                        if r.is_ok() {
                                            out.error = Some(format!("unrepeatable {}: {}", best.1.sig, best.1.msg));
                                            return out;
                                        }
                                    }
                                }
                                let mut go = max_steps > 0 && tree.simplify();
                                while go && steps < max_steps && t_shrink.elapsed() < Duration::from_secs(90) {
                                    steps += 1;
                                    let c = tree.current();
                                    arm(slot, &c);
                                    let r = run_case(f, &c, o.mem);
                                    disarm(slot);
                                    match r {
                                        Err(e) if !known_sigs.contains_key(&e.sig) && !e.sig.starts_with("timeout") => {
                                            best = (c, e);
                                            go = tree.simplify();
                                        },
                                        _ => go = tree.complicate(),
                                    }
                                }
                                out.fail = Some((serde_json::to_value(&best.0).unwrap(), best.1, steps));
                                return out;
                            }
                            out
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker crashed")).collect()
        });
        let mut evals = 0;
        let mut nt = 0;
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut known_hits: HashMap<String, u64> = HashMap::new();
        let mut first: Option<(Value, Fail, u64)> = None;
        let mut samples = vec![];
        for w in outs {
            if let Some(e) = w.error {
                eprintln!("ERROR in {}/{}: {e}", self.prop, o.name);
                std::process::exit(2);
            }
            evals += w.evals;
            nt += w.nontrivial;
            distinct.extend(w.distinct);
            for (k, v) in w.labels {
                *labels.entry(k).or_default() += v;
            }
            for (k, v) in w.known_hits {
                *known_hits.entry(k).or_default() += v;
            }
            samples.extend(w.samples);
            if first.is_none() {
                first = w.fail;
            }
        }
        // probes for the listed known findings of this sub-check
        let probes: Vec<Known> = self.known.iter().filter(|k| k.sub == o.name).cloned().collect();
        let slot = new_slot(&self.prop, o.name, &self.root, o.pure);
        for k in probes {
            let case: T = serde_json::from_value(k.case.clone()).expect("known finding case");
            arm(slot, &case);
            let r = run_case(f, &case, o.mem);
            disarm(slot);
            match r {
                Err(e) if e.sig == k.sig => {
                    if self.known_printed.insert(k.id.clone()) {
                        println!("KNOWN-FINDING: property={} {} [{}]", self.prop, k.what, k.id);
                    }
                },
                Err(e) if known_sigs.contains_key(&e.sig) => {},
                Err(e) => {
                    if first.is_none() {
                        first = Some((k.case.clone(), e, 0));
                    }
                },
                Ok(_) => {},
            }
        }
        let kh: u64 = known_hits.values().sum();
        self.excluded_known += kh;
        let nd = distinct.len() as u64;
        self.evaluations += evals;
        self.distinct += nd;
        self.rules.push(format!("{}: {}", o.name, o.rule));
        samples.sort_by_key(|s| s.0);
        for (_, s) in samples.into_iter().take(2) {
            self.samples.push(json!({"sub": o.name, "case": s}));
        }
        println!(
            "{}/{}: {} cases, {} non-trivial ({} distinct), {:.1}s{} {:?}",
            self.prop,
            o.name,
            evals,
            nt,
            nd,
            t0.elapsed().as_secs_f64(),
            if kh > 0 { format!(", {kh} hit known findings") } else { String::new() },
            labels
        );
        self.subs.push(json!({"sub": o.name, "evaluations": evals, "nontrivial": nt, "distinct_nontrivial": nd,
            "labels": labels, "hit_known_findings": kh}));
        if let Some((case, e, steps)) = first {
            let path = write_replay(&self.root, &self.prop, o.name, &case, &e.sig, &e.msg);
            println!("  [{}] {}: {} (shrunk in {steps} steps)", o.name, e.sig, e.msg);
            println!("VIOLATION property={} replay={}", self.prop, path);
            self.violations += 1;
        }
    }

    pub fn finish(&mut self) -> i32 {
        if let Mode::Replay { .. } = self.mode {
            if !self.replayed {
                eprintln!("no such sub-check");
                return 2;
            }
            return i32::from(self.violations > 0);
        }
        let samples: Vec<Value> = self.samples.iter().take(24).cloned().collect();
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct,
                "rule": self.rules.join(" || "),
                "samples": samples,
                "per_sub_check": self.subs,
                "cases_hitting_known_findings": self.excluded_known,
            },
            "assumptions": ["serde_json, proptest and tokio behave as documented", "oracles in /verif/harness/src state the property correctly"],
            "wall_s": self.started.elapsed().as_secs_f64(),
            "violations": self.violations,
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
        if self.only.is_none() {
            std::fs::write(
                format!("{}/evidence/{}.json", self.root, self.prop),
                serde_json::to_string_pretty(&ev).unwrap(),
            )
            .expect("write evidence");
        }
        if self.violations > 0 {
            1
        } else {
            println!("OK property={} held on {} cases", self.prop, self.evaluations);
            0
        }
    }
}

fn record<T: Serialize>(out: &mut WorkerOut, c: &T, i: Option<&Info>) {
    out.evals += 1;
    let Some(i) = i else { return };
    for l in &i.labels {
        *out.labels.entry(l).or_default() += 1;
    }
    if i.nontrivial {
        out.nontrivial += 1;
        let s = serde_json::to_string(c).unwrap();
        out.distinct.insert(hash_str(&s));
        if out.samples.len() < 2 && s.len() < 3000 {
            out.samples.push((out.evals as usize, serde_json::from_str(&s).unwrap()));
        }
    }
}

fn new_slot(prop: &str, sub: &str, root: &str, pure: bool) -> usize {
    let mut s = SLOTS.lock().unwrap();
    s.push(Slot {
        ticks: 0,
        thread: unsafe { libc::pthread_self() },
        cpu_start: 0.0,
        prop: prop.into(),
        sub: sub.into(),
        root: root.into(),
        case: Box::new(String::new),
        pure,
        active: false,
    });
    let i = s.len() - 1;
    SLOT.with(|c| c.set(i));
    i
}
fn arm<T: Serialize + Clone + Send + 'static>(slot: usize, c: &T) {
    let c = c.clone();
    let mut s = SLOTS.lock().unwrap();
    let s = &mut s[slot];
    s.ticks = 0;
    s.cpu_start = cpu_of(s.thread);
    s.case = Box::new(move || serde_json::to_string(&c).unwrap_or_default());
    s.active = true;
}
fn disarm(slot: usize) {
    let old = {
        let mut s = SLOTS.lock().unwrap();
        s[slot].active = false;
        std::mem::replace(&mut s[slot].case, Box::new(String::new))
    };
    drop(old);
}

/// Single-threaded runtime on virtual time: no wall clock, deterministic schedule.
pub fn vrt<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let r = rt.block_on(f);
    drop(rt);
    r
}
/// Single-threaded runtime on real time (loopback I/O).
pub fn rrt<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(f);
    rt.shutdown_timeout(Duration::from_millis(200));
    r
}
/// Let every ready task run without moving virtual time.
pub async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}
pub fn bx<S>(s: S) -> BoxedStrategy<S::Value>
where
    S: Strategy + 'static,
{
    s.boxed()
}
pub type A<T> = Arc<Mutex<T>>;
pub fn am<T>(t: T) -> A<T> {
    Arc::new(Mutex::new(t))
}

// ---- time travel --------------------------------------------------------------------------------
// The code under test reads the wall clock through std, i.e. libc's clock_gettime. This definition
// takes its place in the harness binary and adds a per-thread offset to the realtime clock (and another
// one to the monotonic clock behind std's Instant), so that expiry can be explored without waiting.
thread_local! {
    static SKEW: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static MSKEW: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
#[no_mangle]
/// # Safety
/// same contract as libc's clock_gettime
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int;
    if r == 0 && clk == libc::CLOCK_REALTIME && !ts.is_null() {
        (*ts).tv_sec += SKEW.try_with(|s| s.get()).unwrap_or(0);
    } else if r == 0 && clk == libc::CLOCK_MONOTONIC && !ts.is_null() {
        (*ts).tv_sec += MSKEW.try_with(|s| s.get()).unwrap_or(0);
    }
    r
}
/// Offset of this thread's wall clock while the guard lives.
pub struct Clock;
impl Clock {
    pub fn new() -> Self {
        SKEW.with(|s| s.set(0));
        MSKEW.with(|s| s.set(0));
        Clock
    }
    /// monotonic time passes (std's Instant; tokio's paused clock does not move)
    pub fn advance_mono(&self, secs: i64) {
        MSKEW.with(|s| s.set(s.get() + secs));
    }
    pub fn advance(&self, secs: i64) {
        SKEW.with(|s| s.set(s.get() + secs));
    }
    /// seconds since the epoch as the code under test sees them
    pub fn now(&self) -> i64 {
        std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
    }
}
impl Drop for Clock {
    fn drop(&mut self) {
        SKEW.with(|s| s.set(0));
        MSKEW.with(|s| s.set(0));
    }
}
