//! Shared driver for all checks: seeded sharded proptest runs, shrinking, replay files,
//! known findings, regression replays, evidence.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// One broken assertion, attributed to a property. `sig` is a stable signature of what failed.
#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub sig: String,
    pub msg: String,
}
pub fn viol(prop: &'static str, sig: impl Into<String>, msg: impl Into<String>) -> Viol {
    Viol { prop, sig: sig.into(), msg: msg.into() }
}

#[derive(Default, Debug)]
pub struct Outcome {
    pub viols: Vec<Viol>,
    pub nontrivial: bool,
    pub classes: Vec<(&'static str, u64)>,
}
impl Outcome {
    pub fn nontrivial() -> Self {
        Outcome { nontrivial: true, ..Default::default() }
    }
    pub fn class(&mut self, c: &'static str) {
        self.classes.push((c, 1));
    }
    pub fn fail(&mut self, prop: &'static str, sig: impl Into<String>, msg: impl Into<String>) {
        self.viols.push(viol(prop, sig, msg));
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub part: String,
    pub case: serde_json::Value,
    #[serde(default)]
    pub violations: Vec<String>,
}

#[derive(Deserialize, Clone, Debug, Default)]
struct KnownFile {
    #[serde(default)]
    findings: Vec<Known>,
    #[serde(default)]
    #[allow(dead_code)]
    fixed: Vec<serde_json::Value>,
}
#[derive(Deserialize, Clone, Debug)]
pub struct Known {
    pub property: String,
    pub signature: String,
    pub what: String,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<u32> = const { RefCell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if QUIET.with(|q| *q.borrow()) == 0 || std::env::var("VERIF_DEBUG").is_ok() {
            eprintln!("[panic] {loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn quiet<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r
}

/// Run code under test; a panic becomes Err("location: message").
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match quiet(f) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("{loc}: {msg}"))
        }
    }
}

/// Cases under way, for the watchdog: a case that does not end, or that ends the process, is a
/// violation as well.
mod watch {
    use super::*;
    use std::cell::Cell;
    use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize};

    type Ser = unsafe fn(*const ()) -> serde_json::Value;
    struct Slot {
        since: AtomicU64,
        case: AtomicPtr<()>,
        ser: AtomicUsize,
        crashed: AtomicUsize,
    }
    #[allow(clippy::declare_interior_mutable_const)]
    const EMPTY: Slot = Slot { since: AtomicU64::new(0), case: AtomicPtr::new(std::ptr::null_mut()), ser: AtomicUsize::new(0), crashed: AtomicUsize::new(0) };
    static SLOTS: [Slot; 256] = [EMPTY; 256];
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    pub static LIMIT: AtomicU64 = AtomicU64::new(120);
    pub static PLACE: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
    thread_local! {
        static MINE: Cell<usize> = const { Cell::new(usize::MAX) };
    }
    fn now() -> u64 {
        static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
        T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
    }
    unsafe fn ser<C: Serialize>(p: *const ()) -> serde_json::Value {
        serde_json::to_value(&*(p as *const C)).unwrap_or_default()
    }
    pub struct Guard(usize);
    impl Drop for Guard {
        fn drop(&mut self) {
            SLOTS[self.0].since.store(0, Ordering::SeqCst);
        }
    }
    pub fn enter<C: Serialize>(c: &C) -> Option<Guard> {
        let i = MINE.with(|m| {
            if m.get() == usize::MAX {
                m.set(NEXT.fetch_add(1, Ordering::SeqCst));
            }
            m.get()
        });
        let s = SLOTS.get(i)?;
        s.case.store(c as *const C as *mut (), Ordering::SeqCst);
        s.ser.store(ser::<C> as *const () as usize, Ordering::SeqCst);
        s.since.store(now(), Ordering::SeqCst);
        Some(Guard(i))
    }
    /// The thread that crashed waits for the watchdog to report its case.
    extern "C" fn on_crash(sig: libc::c_int) {
        let i = MINE.with(|m| m.get());
        if let Some(s) = SLOTS.get(i) {
            if s.since.load(Ordering::SeqCst) != 0 {
                s.crashed.store(sig as usize, Ordering::SeqCst);
                for _ in 0..200 {
                    unsafe { libc::usleep(100_000) };
                }
            }
        }
        unsafe {
            libc::signal(sig, libc::SIG_DFL);
            libc::raise(sig);
        }
    }
    pub fn start() {
        now();
        unsafe {
            libc::signal(libc::SIGABRT, on_crash as *const () as libc::sighandler_t);
        }
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for s in &SLOTS {
                let since = s.since.load(Ordering::SeqCst);
                let crashed = s.crashed.load(Ordering::SeqCst);
                if since == 0 {
                    continue;
                }
                let long = now().saturating_sub(since) / 1000;
                let what = if crashed != 0 {
                    format!("[crash] the process ends with signal {crashed}")
                } else if long > LIMIT.load(Ordering::SeqCst) {
                    format!("[no-end] the case does not end within {long} s")
                } else {
                    continue;
                };
                let case = unsafe {
                    let f: Ser = std::mem::transmute::<usize, Ser>(s.ser.load(Ordering::SeqCst));
                    f(s.case.load(Ordering::SeqCst))
                };
                if crashed == 0 && s.since.load(Ordering::SeqCst) != since {
                    continue; // it ended after all
                }
                let (prop, part) = PLACE.lock().unwrap().clone();
                let rep = Replay { property: prop.clone(), part: part.clone(), case, violations: vec![what.clone()] };
                let dir = verif_dir().join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let js = serde_json::to_string_pretty(&rep).unwrap();
                let path = dir.join(format!("{prop}-{part}-{:016x}.json", hash_str(&js)));
                let _ = std::fs::write(&path, js);
                unmute_stdout();
                println!("{what}");
                println!("VIOLATION property={prop} replay={}", path.display());
                use std::io::Write;
                let _ = std::io::stdout().flush();
                unsafe { libc::_exit(1) };
            }
        });
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<String, u64>,
}

pub struct PartReport {
    name: String,
    rule: String,
    stats: Stats,
    exhaustive: bool,
    wall: f64,
}

pub struct Harness {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    level: String,
    threads: usize,
    known: Vec<Known>,
    parts: Vec<PartReport>,
    replay: Option<Replay>,
    replayed: bool,
    only: Option<String>,
    scale: f64,
    start: Instant,
    assumptions: Vec<String>,
    viol: Option<(String, Replay)>,
    explanation: Vec<String>,
}

fn hash_str(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn seed32(seed: u64, part: &str, shard: usize) -> [u8; 32] {
    // splitmix-style expansion: pure function of (seed, part, shard)
    let mut x = seed ^ hash_str(part).rotate_left(17) ^ ((shard as u64) << 48) ^ 0x9E3779B97F4A7C15;
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}

/// The code under test prints its program logs to stdout: send them to /dev/null while it runs.
static SAVED_STDOUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
fn mute_stdout() {
    if std::env::var("VERIF_DEBUG").is_ok() || std::env::var("VERIF_TRACE").is_ok() {
        return;
    }
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if saved >= 0 && null >= 0 {
            libc::dup2(null, 1);
            libc::close(null);
            SAVED_STDOUT.store(saved, Ordering::SeqCst);
        }
    }
}
fn unmute_stdout() {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let s = SAVED_STDOUT.swap(-1, Ordering::SeqCst);
    if s >= 0 {
        unsafe {
            libc::dup2(s, 1);
            libc::close(s);
        }
    }
}

impl Harness {
    /// Usage: <bin> <PROP> [--replay FILE] [--part NAME] ; env VERIF_SEED, VERIF_TIER
    pub fn from_env(level: &str) -> Self {
        install_panic_hook();
        mute_stdout();
        watch::start();
        let mut prop = None;
        let mut replay = None;
        let mut only = None;
        let mut args = std::env::args().skip(1);
        while let Some(a) = args.next() {
            match a.as_str() {
                "--replay" => {
                    let f = args.next().expect("--replay FILE");
                    let s = std::fs::read_to_string(&f).unwrap_or_else(|e| {
                        eprintln!("cannot read replay {f}: {e}");
                        std::process::exit(2)
                    });
                    replay = Some(serde_json::from_str(&s).expect("replay json"));
                }
                "--part" => only = args.next(),
                p => prop = Some(p.to_string()),
            }
        }
        let prop = prop.unwrap_or_else(|| {
            eprintln!("usage: <bin> <PROPERTY> [--replay FILE]");
            std::process::exit(2)
        });
        watch::PLACE.lock().unwrap().0 = prop.clone();
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough".to_string(),
            _ => "quick".to_string(),
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
        let known: KnownFile = std::fs::read_to_string(verif_dir().join("known_findings.json"))
            .ok()
            .map(|s| serde_json::from_str(&s).expect("known_findings.json"))
            .unwrap_or_default();
        let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        Harness {
            known: known.findings.into_iter().filter(|k| k.property == prop).collect(),
            prop,
            tier,
            seed,
            level: level.into(),
            threads: std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
            parts: vec![],
            replay,
            replayed: false,
            only,
            scale,
            start: Instant::now(),
            assumptions: vec![],
            viol: None,
            explanation: vec![],
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    pub fn explain(&mut self, s: impl Into<String>) {
        self.explanation.push(s.into());
    }
    /// How long a single case may take before it counts as never ending.
    pub fn case_limit(&mut self, seconds: u64) {
        watch::LIMIT.store(seconds, Ordering::SeqCst);
    }
    pub fn set_threads(&mut self, n: usize) {
        self.threads = n;
    }

    fn enabled(&self, name: &str) -> bool {
        if self.viol.is_some() {
            return false;
        }
        if let Some(r) = &self.replay {
            return r.part == name;
        }
        self.only.as_deref().is_none_or(|o| o == name)
    }
    fn enter(&self, name: &str) -> bool {
        let e = self.enabled(name);
        if e {
            watch::PLACE.lock().unwrap().1 = name.into();
        }
        e
    }

    /// Evaluate one case: Err(messages) on an unlisted violation of this property.
    fn eval<C: Serialize>(
        prop: &str,
        known: &[Known],
        case: &C,
        test: &(impl Fn(&C) -> Outcome + Sync),
        stats: Option<&mut Stats>,
    ) -> Result<(), Vec<String>> {
        let under_way = watch::enter(case);
        let res = quiet(|| test(case));
        drop(under_way);
        let mut out = match res {
            Ok(o) => o,
            Err(_) => {
                let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                if loc.contains("/verif/") || loc.starts_with("src/") || loc.starts_with("../vcore") {
                    eprintln!("HARNESS ERROR: panic at {loc}: {msg}");
                    eprintln!("case: {}", serde_json::to_string(case).unwrap_or_default());
                    std::process::exit(3);
                }
                let mut o = Outcome::default();
                o.viols.push(Viol { prop: "*", sig: "panic-in-code-under-test".into(), msg: format!("{loc}: {msg}") });
                o
            }
        };
        let mut bad = vec![];
        let mut hits = vec![];
        // VERIF_ANY: report violations of any property (development only)
        if std::env::var_os("VERIF_ANY").is_none() {
            out.viols.retain(|v| v.prop == prop || v.prop == "*");
        }
        for v in &out.viols {
            if let Some(k) = known.iter().find(|k| k.signature == v.sig) {
                hits.push(k.signature.clone());
            } else {
                bad.push(if v.prop == prop || v.prop == "*" { format!("[{}] {}", v.sig, v.msg) } else { format!("[{} {}] {}", v.prop, v.sig, v.msg) });
            }
        }
        if let Some(st) = stats {
            st.evaluations += 1;
            for h in hits {
                *st.known.entry(h).or_default() += 1;
            }
            for (c, n) in &out.classes {
                *st.classes.entry(c.to_string()).or_default() += n;
            }
            if out.nontrivial {
                let js = serde_json::to_value(case).unwrap();
                let s = js.to_string();
                if st.nontrivial.insert(hash_str(&s)) && st.samples.len() < 2 && s.len() < 6000 {
                    st.samples.push(js);
                }
            }
        }
        if bad.is_empty() {
            Ok(())
        } else {
            Err(bad)
        }
    }

    fn regress_cases<C: DeserializeOwned>(&self, part: &str) -> Vec<(PathBuf, C)> {
        let dir = verif_dir().join("regress").join(&self.prop);
        let mut v = vec![];
        let mut names: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        names.sort();
        for p in names {
            if p.extension().is_some_and(|e| e == "json") {
                let r: Replay = serde_json::from_str(&std::fs::read_to_string(&p).unwrap()).expect("regress file");
                if r.part == part {
                    match serde_json::from_value(r.case) {
                        Ok(c) => v.push((p, c)),
                        Err(e) => {
                            eprintln!("HARNESS ERROR: stale regression case {}: {e}", p.display());
                            std::process::exit(3);
                        }
                    }
                }
            }
        }
        v
    }

    /// Generated-input search over `strategy`, sharded over threads.
    pub fn part<C, S>(
        &mut self,
        name: &str,
        rule: &str,
        (quick, thorough): (u64, u64),
        strategy: impl Fn() -> S + Sync,
        test: impl Fn(&C) -> Outcome + Sync,
    ) where
        C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send,
        S: Strategy<Value = C>,
    {
        if !self.enter(name) {
            return;
        }
        let t0 = Instant::now();
        if let Some(r) = self.replay.clone() {
            let case: C = serde_json::from_value(r.case).expect("case does not match this part");
            self.run_replay(name, &case, &test);
            return;
        }
        let mut all = Stats::default();
        for (p, case) in self.regress_cases::<C>(name) {
            if let Err(bad) = Self::eval(&self.prop, &self.known, &case, &test, Some(&mut all)) {
                self.viol = Some((p.display().to_string(), Replay {
                    property: self.prop.clone(),
                    part: name.into(),
                    case: serde_json::to_value(&case).unwrap(),
                    violations: bad,
                }));
                self.push(name, rule, all, false, t0);
                return;
            }
        }
        let cases = ((if self.thorough() { thorough } else { quick }) as f64 * self.scale).ceil() as u64;
        let shards = self.threads.min(cases.max(1) as usize);
        let stop = AtomicBool::new(false);
        let results: Mutex<Vec<(usize, Stats, Option<(C, Vec<String>)>)>> = Mutex::new(vec![]);
        let (prop, known, seed, start) = (&self.prop, &self.known, self.seed, self.start);
        std::thread::scope(|sc| {
            for shard in 0..shards {
                let (strategy, test, stop, results) = (&strategy, &test, &stop, &results);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let n = cases / shards as u64 + u64::from((shard as u64) < cases % shards as u64);
                        let cfg = Config {
                            cases: n.max(1) as u32,
                            failure_persistence: None,
                            max_shrink_iters: 3000,
                            max_shrink_time: 0,
                            verbose: 0,
                            ..Config::default()
                        };
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed32(seed, name, shard));
                        let mut runner = TestRunner::new_with_rng(cfg, rng);
                        let stats = RefCell::new(Stats::default());
                        let failed = RefCell::new(false);
                        let shrink_start = RefCell::new(None::<Instant>);
                        // the smallest failing case so far, with what it broke
                        let last = RefCell::new(None::<(String, Vec<String>)>);
                        let s = strategy();
                        let r = runner.run(&s, |case| {
                            if !*failed.borrow() && stop.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            // bound time spent on shrinking only (never decides an outcome)
                            if let Some(t) = *shrink_start.borrow() {
                                if t.elapsed().as_secs() > 60 || start.elapsed().as_secs() > 300 {
                                    return Ok(());
                                }
                            }
                            let first = !*failed.borrow();
                            let res = if first {
                                Self::eval(prop, known, &case, test, Some(&mut stats.borrow_mut()))
                            } else {
                                Self::eval(prop, known, &case, test, None)
                            };
                            res.map_err(|m| {
                                if first {
                                    *shrink_start.borrow_mut() = Some(Instant::now());
                                }
                                *failed.borrow_mut() = true;
                                stop.store(true, Ordering::Relaxed);
                                *last.borrow_mut() = serde_json::to_string(&case).ok().map(|c| (c, m.clone()));
                                TestCaseError::fail(m.join("\n"))
                            })
                        });
                        let fail = match r {
                            Ok(()) => None,
                            Err(TestError::Fail(_, min)) => {
                                let seen = last.into_inner().filter(|l| serde_json::to_string(&min).is_ok_and(|c| c == l.0));
                                let bad = match seen {
                                    Some((_, m)) => m,
                                    None => Self::eval(prop, known, &min, test, None).err().unwrap_or_else(|| vec!["not reproduced after shrinking".into()]),
                                };
                                Some((min, bad))
                            }
                            Err(TestError::Abort(m)) => {
                                eprintln!("HARNESS ERROR: proptest aborted in part {name}: {m}");
                                std::process::exit(3);
                            }
                        };
                        results.lock().unwrap().push((shard, stats.into_inner(), fail));
                    })
                    .unwrap();
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut failure = None;
        for (_, st, f) in results {
            merge(&mut all, st);
            if failure.is_none() {
                failure = f;
            }
        }
        if let Some((case, bad)) = failure {
            self.record_failure(name, &case, bad);
        }
        self.push(name, rule, all, false, t0);
    }

    /// Complete enumeration (or an explicit list) of cases.
    pub fn enumerate<C>(&mut self, name: &str, rule: &str, exhaustive: bool, cases: Vec<C>, test: impl Fn(&C) -> Outcome + Sync)
    where
        C: Serialize + DeserializeOwned + Clone + Send + Sync,
    {
        if !self.enter(name) {
            return;
        }
        let t0 = Instant::now();
        if let Some(r) = self.replay.clone() {
            let case: C = serde_json::from_value(r.case).expect("case does not match this part");
            self.run_replay(name, &case, &test);
            return;
        }
        let mut all = Stats::default();
        let n = self.threads.min(cases.len().max(1));
        let chunk = cases.len().div_ceil(n).max(1);
        let results: Mutex<Vec<(usize, Stats, Option<(C, Vec<String>)>)>> = Mutex::new(vec![]);
        let (prop, known) = (&self.prop, &self.known);
        std::thread::scope(|sc| {
            for (i, ch) in cases.chunks(chunk).enumerate() {
                let (test, results) = (&test, &results);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = Stats::default();
                        let mut fail = None;
                        for c in ch {
                            if let Err(bad) = Self::eval(prop, known, c, test, Some(&mut st)) {
                                fail = Some((c.clone(), bad));
                                break;
                            }
                        }
                        results.lock().unwrap().push((i, st, fail));
                    })
                    .unwrap();
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut failure = None;
        for (_, st, f) in results {
            merge(&mut all, st);
            if failure.is_none() {
                failure = f;
            }
        }
        if let Some((case, bad)) = failure {
            self.record_failure(name, &case, bad);
        }
        self.push(name, rule, all, exhaustive, t0);
    }

    fn run_replay<C: Serialize>(&mut self, name: &str, case: &C, test: &(impl Fn(&C) -> Outcome + Sync)) {
        self.replayed = true;
        let r = Self::eval(&self.prop, &self.known, case, test, None);
        unmute_stdout();
        match r {
            Ok(()) => println!("replay: property {} holds on this case (part {name})", self.prop),
            Err(bad) => {
                for b in &bad {
                    println!("{b}");
                }
                println!("VIOLATION property={} replay=<given>", self.prop);
                std::process::exit(1);
            }
        }
    }

    fn record_failure<C: Serialize>(&mut self, name: &str, case: &C, bad: Vec<String>) {
        let rep = Replay { property: self.prop.clone(), part: name.into(), case: serde_json::to_value(case).unwrap(), violations: bad };
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let js = serde_json::to_string_pretty(&rep).unwrap();
        let path = dir.join(format!("{}-{}-{:016x}.json", self.prop, name, hash_str(&js)));
        std::fs::write(&path, js).expect("write replay");
        self.viol = Some((path.display().to_string(), rep));
    }

    fn push(&mut self, name: &str, rule: &str, stats: Stats, exhaustive: bool, t0: Instant) {
        self.parts.push(PartReport { name: name.into(), rule: rule.into(), stats, exhaustive, wall: t0.elapsed().as_secs_f64() });
    }

    pub fn finish(mut self) -> ! {
        unmute_stdout();
        if self.replay.is_some() {
            if !self.replayed {
                eprintln!("replay part not found");
                std::process::exit(2);
            }
            std::process::exit(0);
        }
        let mut evals = 0u64;
        let mut distinct = 0u64;
        let mut samples = vec![];
        let mut parts = serde_json::Map::new();
        let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
        let mut rules = vec![];
        for p in &self.parts {
            evals += p.stats.evaluations;
            distinct += p.stats.nontrivial.len() as u64;
            for s in p.stats.samples.iter().take(2) {
                if samples.len() < 8 {
                    samples.push(serde_json::json!({"part": p.name, "case": s}));
                }
            }
            for (k, n) in &p.stats.known {
                *known_hits.entry(k.clone()).or_default() += n;
            }
            rules.push(format!("{}: {}", p.name, p.rule));
            parts.insert(p.name.clone(), serde_json::json!({
                "evaluations": p.stats.evaluations,
                "distinct_nontrivial": p.stats.nontrivial.len(),
                "classes": p.stats.classes,
                "exhaustive": p.exhaustive,
                "wall_s": (p.wall * 100.0).round() / 100.0,
            }));
        }
        // keep the evidence file well below 64 KB
        while serde_json::to_string(&samples).unwrap().len() > 30_000 {
            samples.pop();
        }
        let exhaustive = !self.parts.is_empty() && self.parts.iter().all(|p| p.exhaustive);
        let mut coverage = serde_json::json!({
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": rules.join(" | "),
            "samples": samples,
            "parts": parts,
            "exhaustive": exhaustive,
        });
        if !self.explanation.is_empty() {
            coverage["explanation"] = serde_json::json!(self.explanation.join(" "));
        }
        if !known_hits.is_empty() {
            coverage["known_finding_hits"] = serde_json::json!(known_hits);
        }
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": u64::from(self.viol.is_some()),
        });
        if self.only.is_none() {
            let dir = verif_dir().join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        }
        for p in &self.parts {
            println!("part {}: {} cases, {} distinct non-trivial, {:.1}s", p.name, p.stats.evaluations, p.stats.nontrivial.len(), p.wall);
            if std::env::var("VERIF_CLASSES").is_ok() {
                println!("    {:?}", p.stats.classes);
            }
        }
        for k in &self.known {
            if known_hits.contains_key(&k.signature) {
                println!("KNOWN-FINDING: property={} {}", self.prop, k.what);
            }
        }
        if let Some((path, rep)) = self.viol.take() {
            for b in &rep.violations {
                println!("{b}");
            }
            println!("VIOLATION property={} replay={}", self.prop, path);
            std::process::exit(1);
        }
        println!("OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s", self.prop, evals, distinct, self.start.elapsed().as_secs_f64());
        std::process::exit(0)
    }
}

fn merge(a: &mut Stats, b: Stats) {
    a.evaluations += b.evaluations;
    a.nontrivial.extend(b.nontrivial);
    for (k, n) in b.classes {
        *a.classes.entry(k).or_default() += n;
    }
    for (k, n) in b.known {
        *a.known.entry(k).or_default() += n;
    }
    for s in b.samples {
        if a.samples.len() < 6 {
            a.samples.push(s);
        }
    }
}

/// Hex helper used as the serialised form of byte strings in replay files.
pub mod hexbytes {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&b.iter().map(|x| format!("{x:02x}")).collect::<String>())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom)).collect()
    }
}
pub mod hex32 {
    use serde::{Deserializer, Serializer};
    pub fn serialize<S: Serializer>(b: &[u8; 32], s: S) -> Result<S::Ok, S::Error> {
        super::hexbytes::serialize(b, s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<[u8; 32], D::Error> {
        super::hexbytes::deserialize(d)?.try_into().map_err(|_| serde::de::Error::custom("32 bytes"))
    }
}

pub fn path_exists(p: &Path) -> bool {
    p.exists()
}
