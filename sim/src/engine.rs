//! Seeded search over scenarios: fixed number of runs per batch, order-independent
//! results, minimisation, replay files, evidence.
use crate::rng::{hash2, hash3, mix, Rng};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const COVER_BITS: usize = 1 << 18;

pub struct Stats {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sim_ts: u64,
    pub steps: u64,
    pub digest: u64,
    pub nontrivial: bool,
    cover: Vec<u64>,
}

impl Stats {
    pub fn new() -> Stats {
        Stats {
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            sim_ts: 0,
            steps: 0,
            digest: 0,
            nontrivial: false,
            cover: vec![0; COVER_BITS / 64],
        }
    }
    #[inline]
    pub fn fault(&mut self, name: &'static str, n: u64) {
        if n > 0 {
            *self.faults.entry(name).or_insert(0) += n;
        }
    }
    #[inline]
    pub fn probe(&mut self, name: &'static str, n: u64) {
        if n > 0 {
            *self.probes.entry(name).or_insert(0) += n;
        }
    }
    #[inline]
    pub fn cover(&mut self, h: u64) {
        let b = mix(h) as usize % COVER_BITS;
        self.cover[b / 64] |= 1 << (b % 64);
    }
    #[inline]
    pub fn eat(&mut self, v: u64) {
        self.digest = hash2(self.digest, v);
    }
    fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        self.sim_ts += o.sim_ts;
        self.steps += o.steps;
        for (a, b) in self.cover.iter_mut().zip(&o.cover) {
            *a |= b;
        }
    }
    fn covered(&self) -> u64 {
        self.cover.iter().map(|w| w.count_ones() as u64).sum()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    /// Short stable class of the failure; minimisation stays within the class.
    pub kind: String,
    pub msg: String,
}

pub type Res = Result<(), Violation>;

pub fn fail<T>(kind: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { kind: kind.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $kind:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::engine::fail($kind, format!($($arg)*));
        }
    };
}

/// A property under test.
pub trait Prop: 'static {
    const ID: &'static str;
    type Sc: Serialize + DeserializeOwned + Clone + Send;
    fn gen(rng: &mut Rng, index: u64) -> Self::Sc;
    /// Called once before any run.
    fn prepare() -> Result<(), String> {
        Ok(())
    }
    fn run(sc: &Self::Sc, st: &mut Stats) -> Res;
    /// Return a smaller scenario for which `test` is true.
    fn shrink(sc: Self::Sc, test: &mut dyn FnMut(&Self::Sc) -> bool) -> Self::Sc;
    fn runs(tier: Tier) -> u64;
    fn rule() -> &'static str;
    fn state_measure() -> &'static str;
    fn real() -> &'static [&'static str];
    fn stub() -> &'static [&'static str];
    fn assumptions() -> &'static [&'static str];
    /// How long minimisation may take.
    const SHRINK_SECS: u64 = 20;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Cfg {
    pub seed: u64,
    pub tier: Tier,
    pub workers: usize,
    pub cap: Duration,
    pub scale: f64,
}

impl Cfg {
    pub fn from_env() -> Cfg {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let workers = std::env::var("DST_WORKERS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
        let cap = match tier {
            Tier::Quick => 240,
            Tier::Thorough => 1500,
        };
        let scale = std::env::var("DST_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        Cfg { seed, tier, workers, cap: Duration::from_secs(cap), scale }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if quiet {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info.location().map(|l| format!(" at {}:{}", l.file().rsplit("repo/").next().unwrap_or(""), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{}{}", m, loc)));
        } else {
            old(info);
        }
    }));
}

/// Run code that may panic; a panic is returned as its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub fn run_one<P: Prop>(sc: &P::Sc, st: &mut Stats) -> Res {
    match guard(|| P::run(sc, st)) {
        Ok(r) => r,
        Err(m) => fail("panic", format!("panicked: {}", m)),
    }
}

pub fn run_seed<P: Prop>(cfg_seed: u64, index: u64) -> u64 {
    let mut h = 0u64;
    for b in P::ID.bytes() {
        h = hash2(h, b as u64);
    }
    hash3(cfg_seed, h, index)
}

#[derive(Serialize, Deserialize)]
pub struct Replay<S> {
    pub property: String,
    pub verif_seed: u64,
    pub index: u64,
    pub run_seed: u64,
    pub kind: String,
    pub message: String,
    pub minimised: bool,
    pub scenario: S,
}

fn write_replay<P: Prop>(r: &Replay<P::Sc>) -> String {
    let dir = "replays";
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/{}-{:016x}.json", dir, P::ID, r.run_seed);
    std::fs::write(&path, serde_json::to_string(r).unwrap()).expect("write replay");
    path
}

#[derive(Deserialize, Clone)]
pub struct Known {
    pub property: String,
    /// must equal the violation's kind
    #[serde(default)]
    pub kind: String,
    /// must be contained in the violation's message
    #[serde(default)]
    pub contains: String,
    #[serde(default)]
    pub status: String,
    pub what: String,
}

pub fn known_findings(id: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string("known_findings.json") else { return vec![] };
    let all: Vec<Known> = serde_json::from_str(&s).expect("known_findings.json");
    all.into_iter().filter(|k| k.property == id && k.status == "open").collect()
}

pub struct Batch<P: Prop> {
    pub done: u64,
    pub stats: Stats,
    pub digest: u64,
    pub distinct: u64,
    pub violation: Option<(u64, Violation, P::Sc)>,
    pub known_hits: BTreeMap<usize, u64>,
    pub truncated: bool,
    pub wall: f64,
}

pub fn batch<P: Prop>(cfg: &Cfg, runs: u64, known: &[Known]) -> Batch<P> {
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let over = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    struct Out<P: Prop> {
        done: u64,
        stats: Stats,
        digest: u64,
        digests: Vec<u64>,
        viol: Option<(u64, Violation, P::Sc)>,
        known: BTreeMap<usize, u64>,
    }
    let outs: Mutex<Vec<Out<P>>> = Mutex::new(Vec::new());
    let beats: Vec<(AtomicU64, AtomicU64)> = (0..cfg.workers).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    std::thread::scope(|s| {
        let handles: Vec<_> = (0..cfg.workers)
            .map(|w| {
                let (next, stop_at, over, outs, beats) = (&next, &stop_at, &over, &outs, &beats);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut o = Out::<P> { done: 0, stats: Stats::new(), digest: 0, digests: Vec::new(), viol: None, known: BTreeMap::new() };
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= runs || i > stop_at.load(Ordering::Relaxed) {
                                break;
                            }
                            if start.elapsed() > cfg.cap {
                                over.store(true, Ordering::Relaxed);
                                break;
                            }
                            beats[w].1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                            beats[w].0.store(i + 1, Ordering::Relaxed);
                            let seed = run_seed::<P>(cfg.seed, i);
                            let mut rng = Rng::new(seed);
                            let sc = P::gen(&mut rng, i);
                            o.stats.digest = 0;
                            o.stats.nontrivial = false;
                            let r = run_one::<P>(&sc, &mut o.stats);
                            o.done += 1;
                            o.digest = o.digest.wrapping_add(hash3(o.stats.digest, i, r.is_ok() as u64));
                            if o.stats.nontrivial {
                                o.digests.push(o.stats.digest);
                            }
                            if let Err(v) = r {
                                if let Some(k) = known.iter().position(|k| k.kind == v.kind && v.msg.contains(&k.contains)) {
                                    *o.known.entry(k).or_insert(0) += 1;
                                    continue;
                                }
                                stop_at.fetch_min(i, Ordering::Relaxed);
                                if o.viol.as_ref().map_or(true, |x| i < x.0) {
                                    o.viol = Some((i, v, sc));
                                }
                            }
                        }
                        beats[w].0.store(0, Ordering::Relaxed);
                        outs.lock().unwrap().push(o);
                    })
                    .unwrap()
            })
            .collect();
        let (beats, finished) = (&beats, &finished);
        let seed = cfg.seed;
        s.spawn(move || {
            // watchdog: a run that never returns is a violation by itself
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let now = start.elapsed().as_millis() as u64;
                for b in beats {
                    let i = b.0.load(Ordering::Relaxed);
                    if i != 0 && now.saturating_sub(b.1.load(Ordering::Relaxed)) > 60_000 && b.0.load(Ordering::Relaxed) == i {
                        let rs = run_seed::<P>(seed, i - 1);
                        let sc = P::gen(&mut Rng::new(rs), i - 1);
                        let msg = "the run does not terminate (no progress for 60 s)".to_string();
                        let path = write_replay::<P>(&Replay { property: P::ID.into(), verif_seed: seed, index: i - 1, run_seed: rs, kind: "hang".into(), message: msg.clone(), minimised: false, scenario: sc });
                        println!("{}", msg);
                        println!("VIOLATION property={} replay={}", P::ID, path);
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in handles {
            h.join().expect("worker");
        }
        finished.store(true, Ordering::Relaxed);
    });
    let mut b = Batch::<P> {
        done: 0,
        stats: Stats::new(),
        digest: 0,
        distinct: 0,
        violation: None,
        known_hits: BTreeMap::new(),
        truncated: over.load(Ordering::Relaxed),
        wall: 0.0,
    };
    let mut digests = Vec::new();
    for o in outs.into_inner().unwrap() {
        b.done += o.done;
        b.stats.merge(&o.stats);
        b.digest = b.digest.wrapping_add(o.digest);
        digests.extend(o.digests);
        for (k, n) in o.known {
            *b.known_hits.entry(k).or_insert(0) += n;
        }
        if let Some(v) = o.viol {
            if b.violation.as_ref().map_or(true, |x| v.0 < x.0) {
                b.violation = Some(v);
            }
        }
    }
    digests.sort_unstable();
    digests.dedup();
    b.distinct = digests.len() as u64;
    b.wall = start.elapsed().as_secs_f64();
    b
}

fn clip(s: String, n: usize) -> String {
    if s.len() <= n {
        s
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}

pub fn check<P: Prop>(cfg: &Cfg) -> i32 {
    let runs = ((P::runs(cfg.tier) as f64 * cfg.scale) as u64).max(1);
    let known = known_findings(P::ID);
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", P::ID, k.what);
    }
    if let Err(e) = P::prepare() {
        println!("{}: no answer: {}", P::ID, e);
        return 2;
    }
    let b = batch::<P>(cfg, runs, &known);
    let mut code = 0;
    let mut shrink_evals = 0u64;
    if let Some((i, v, sc)) = &b.violation {
        let rs = run_seed::<P>(cfg.seed, *i);
        println!("violation in run {} (seed {:016x}): [{}] {}", i, rs, v.kind, v.msg);
        let deadline = Instant::now() + Duration::from_secs(P::SHRINK_SECS);
        let kind = v.kind.clone();
        // a candidate that never returns must not hide the violation
        let minimising = std::sync::Arc::new(AtomicBool::new(true));
        {
            let minimising = minimising.clone();
            let path = write_replay::<P>(&Replay { property: P::ID.into(), verif_seed: cfg.seed, index: *i, run_seed: rs, kind: v.kind.clone(), message: v.msg.clone(), minimised: false, scenario: sc.clone() });
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_secs(80));
                if minimising.load(Ordering::Relaxed) {
                    println!("VIOLATION property={} replay={}", P::ID, path);
                    std::process::exit(1);
                }
            });
        }
        let min = {
            let mut test = |c: &P::Sc| {
                if Instant::now() > deadline || shrink_evals > 20_000 {
                    return false;
                }
                shrink_evals += 1;
                let mut st = Stats::new();
                matches!(run_one::<P>(c, &mut st), Err(e) if e.kind == kind && !known.iter().any(|k| k.kind == e.kind && e.msg.contains(&k.contains)))
            };
            guard(AssertUnwindSafe(|| P::shrink(sc.clone(), &mut test))).unwrap_or_else(|_| sc.clone())
        };
        // the minimised scenario must reproduce through the replay file's own form
        let text = serde_json::to_string(&min).unwrap();
        let back: P::Sc = serde_json::from_str(&text).unwrap();
        let mut st = Stats::new();
        let verdict = run_one::<P>(&back, &mut st);
        minimising.store(false, Ordering::Relaxed);
        let (sc2, v2, minimised) = match verdict {
            Err(e) => (back, e, true),
            Ok(()) => (sc.clone(), v.clone(), false),
        };
        let path = write_replay::<P>(&Replay {
            property: P::ID.into(),
            verif_seed: cfg.seed,
            index: *i,
            run_seed: rs,
            kind: v2.kind.clone(),
            message: v2.msg.clone(),
            minimised,
            scenario: sc2.clone(),
        });
        println!("minimised ({} evaluations): [{}] {}", shrink_evals, v2.kind, v2.msg);
        println!("scenario: {}", clip(serde_json::to_string(&sc2).unwrap(), 2000));
        println!("VIOLATION property={} replay={}", P::ID, path);
        code = 1;
    }
    let samples: Vec<serde_json::Value> = (0..2.min(runs))
        .map(|i| {
            let rs = run_seed::<P>(cfg.seed, i);
            let sc = P::gen(&mut Rng::new(rs), i);
            serde_json::json!({"index": i, "run_seed": format!("{:016x}", rs), "scenario": clip(serde_json::to_string(&sc).unwrap(), 1500)})
        })
        .collect();
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": b.done,
            "distinct_nontrivial": b.distinct,
            "rule": P::rule(),
            "samples": samples,
            "simulated_runs": b.done,
            "runs_per_hour": (b.done as f64 / b.wall * 3600.0) as u64,
            "seeds": "one derived seed per run: hash(VERIF_SEED, property, run index)",
            "simulated_tstates": b.stats.sim_ts,
            "simulated_seconds_at_3_5MHz": b.stats.sim_ts as f64 / 3.5e6,
            "scheduler_steps": b.stats.steps,
            "faults_injected": b.stats.faults,
            "events_observed": b.stats.probes,
            "distinct_states": { "measure": P::state_measure(), "count": b.stats.covered(), "bitmap_bits": COVER_BITS },
            "batch_digest": format!("{:016x}", b.digest),
            "workers": cfg.workers,
            "stopped_by_time_cap": b.truncated,
            "planned_runs": runs,
            "real_components": P::real(),
            "stub_components": P::stub(),
            "known_findings_hit": b.known_hits.iter().map(|(k, n)| (known[*k].what.clone(), *n)).collect::<BTreeMap<_, _>>(),
        },
        "assumptions": P::assumptions(),
        "wall_s": b.wall,
        "violations": if code == 0 { 0 } else { 1 },
    });
    let _ = std::fs::create_dir_all("evidence");
    std::fs::write(format!("evidence/{}.json", P::ID), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{} {:?} seed {}: {} runs ({} distinct non-trivial), {} steps, {} T-states, {} states, {:.1} s, digest {:016x}{}",
        P::ID,
        cfg.tier,
        cfg.seed,
        b.done,
        b.distinct,
        b.stats.steps,
        b.stats.sim_ts,
        b.stats.covered(),
        b.wall,
        b.digest,
        if b.truncated { " (time cap)" } else { "" }
    );
    code
}

/// Execute one run for another process: from its seed, or from its scenario.
pub fn serve<P: Prop>(kind: &str, arg: &str) -> String {
    let sc = if kind == "seed" {
        let mut p = arg.split(' ');
        let seed: u64 = p.next().unwrap_or("").parse().unwrap_or(0);
        let index: u64 = p.next().unwrap_or("").parse().unwrap_or(0);
        P::gen(&mut Rng::new(run_seed::<P>(seed, index)), index)
    } else {
        serde_json::from_str(arg).expect("scenario")
    };
    let mut st = Stats::new();
    let r = run_one::<P>(&sc, &mut st);
    serde_json::to_string(&(st.digest, st.sim_ts, r.err().map(|v| (v.kind, v.msg)))).unwrap()
}

pub fn replay<P: Prop>(text: &str) -> i32 {
    let r: Replay<P::Sc> = serde_json::from_str(text).expect("replay file");
    let id = r.property.clone();
    if r.kind == "hang" {
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(60));
            println!("REPRODUCED property={} kind=hang: no progress for 60 s", id);
            std::process::exit(1);
        });
    }
    if let Err(e) = P::prepare() {
        println!("{}: no answer: {}", P::ID, e);
        return 2;
    }
    let mut st = Stats::new();
    match run_one::<P>(&r.scenario, &mut st) {
        Err(v) => {
            println!("REPRODUCED property={} kind={}: {}", r.property, v.kind, v.msg);
            println!("identical to recorded: {}", v.kind == r.kind && v.msg == r.message);
            1
        }
        Ok(()) => {
            println!("NOT REPRODUCED property={} (recorded: [{}] {})", r.property, r.kind, r.message);
            0
        }
    }
}

/// Determinism: the same batch with different numbers of workers, twice, must give one digest.
pub fn selfcheck<P: Prop>(cfg: &Cfg, runs: u64) -> bool {
    let mut ds = Vec::new();
    if let Err(e) = P::prepare() {
        println!("{}: no answer: {}", P::ID, e);
        return false;
    }
    for w in [1usize, 3, 8, 8] {
        let c = Cfg { seed: cfg.seed, tier: cfg.tier, workers: w, cap: cfg.cap, scale: 1.0 };
        let b = batch::<P>(&c, runs, &known_findings(P::ID));
        ds.push((b.digest, b.done, b.stats.covered(), b.stats.sim_ts, b.stats.faults.clone(), b.stats.probes.clone()));
    }
    let ok = ds.windows(2).all(|w| w[0] == w[1]);
    println!("{} determinism over workers 1,3,8,8 ({} runs): {} digest {:016x}", P::ID, runs, if ok { "ok" } else { "FAILED" }, ds[0].0);
    ok
}

// ---- minimisation helpers ----

/// Delta-debugging of a list.
pub fn ddmin<T: Clone>(items: Vec<T>, test: &mut dyn FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = items;
    if cur.is_empty() || test(&[]) {
        return Vec::new();
    }
    let mut n = 2usize;
    while cur.len() >= 2 {
        let chunk = (cur.len() + n - 1) / n;
        let mut reduced = false;
        let mut i = 0;
        while i < cur.len() {
            let hi = (i + chunk).min(cur.len());
            let mut cand = Vec::with_capacity(cur.len());
            cand.extend_from_slice(&cur[..i]);
            cand.extend_from_slice(&cur[hi..]);
            if test(&cand) {
                cur = cand;
                reduced = true;
            } else {
                i = hi;
            }
        }
        if reduced {
            n = n.saturating_sub(1).max(2);
            if chunk == 1 {
                continue;
            }
        } else if chunk == 1 {
            break;
        } else {
            n = (n * 2).min(cur.len());
        }
    }
    cur
}

/// Smallest prefix length for which the test holds (assumes monotone, verifies the result).
pub fn min_prefix<T: Clone>(items: &[T], test: &mut dyn FnMut(&[T]) -> bool) -> Vec<T> {
    let (mut lo, mut hi) = (0usize, items.len());
    while lo < hi {
        let mid = (lo + hi) / 2;
        if test(&items[..mid]) {
            hi = mid;
        } else {
            lo = mid + 1;
        }
    }
    items[..hi].to_vec()
}
