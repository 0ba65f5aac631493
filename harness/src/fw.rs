//! Property-based testing driver: generated cases recorded as choice sequences, parallel
//! deterministic exploration, generic shrinking on the choice sequence, replay files, evidence.
use ndarray::{Array1, Array2};
use ndarray_rand::rand::{RngCore, SeedableRng};
use rand_xoshiro::Xoshiro256Plus;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Fail(Fail),
    /// Case is outside of the property's domain (precondition not met)
    Discard(String),
}
pub type R = Result<(), Stop>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Stop> {
    Err(Stop::Fail(Fail {
        sig: sig.to_string(),
        msg,
    }))
}
pub fn discard<T>(why: &str) -> Result<T, Stop> {
    Err(Stop::Discard(why.to_string()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !($c) {
            return $crate::fw::fail($sig, format!($($a)*));
        }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// Source of generated values; every choice is recorded so that a case is its choice sequence.
pub struct G {
    rng: Xoshiro256Plus,
    replay: Option<Vec<u64>>,
    pub choices: Vec<u64>,
    pub bounds: Vec<u64>,
    pub tier: Tier,
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub notes: Vec<(String, String)>,
    pub evals: u64,
    /// the case may run into the cycling of COBYLA (a defect of that library)
    cycling: Arc<AtomicBool>,
}

impl G {
    fn new(seed: u64, replay: Option<Vec<u64>>, tier: Tier) -> G {
        G {
            rng: Xoshiro256Plus::seed_from_u64(seed),
            replay,
            choices: vec![],
            bounds: vec![],
            tier,
            nontrivial: false,
            labels: vec![],
            notes: vec![],
            evals: 0,
            cycling: Arc::new(AtomicBool::new(false)),
        }
    }
    /// value in 0..bound (bound >= 1)
    pub fn raw(&mut self, bound: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.choices.len()).copied().unwrap_or(0) % bound,
            None => {
                // multiply-shift
                let x = self.rng.next_u64();
                ((x as u128 * bound as u128) >> 64) as u64
            }
        };
        self.choices.push(v);
        self.bounds.push(bound);
        v
    }
    /// integer in lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.raw((hi - lo + 1) as u64) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as i64, hi as i64) as usize
    }
    /// true with probability p/100 ; shrinks to false
    pub fn chance(&mut self, p: u64) -> bool {
        let v = self.raw(100);
        v >= 100 - p
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.raw(xs.len() as u64) as usize;
        xs[i].clone()
    }
    /// uniform in [0,1): small choices are coarse dyadic fractions
    pub fn unit(&mut self) -> f64 {
        let v = self.raw(1 << 32) as u32;
        v.reverse_bits() as f64 / 4294967296.0
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// log-uniform
    pub fn logf(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + (hi.ln() - lo.ln()) * self.unit()).exp()
    }
    /// symmetric float, log-distributed magnitude
    pub fn sym(&mut self, lo: f64, hi: f64) -> f64 {
        let s = if self.raw(2) == 1 { -1. } else { 1. };
        s * self.logf(lo, hi)
    }
    pub fn seed(&mut self) -> u64 {
        self.raw(1 << 32)
    }
    /// matrix of uniform values in [lo,hi)
    pub fn mat(&mut self, n: usize, d: usize, lo: f64, hi: f64) -> Array2<f64> {
        // one choice per matrix entry keeps shrinking effective
        Array2::from_shape_fn((n, d), |_| self.f(lo, hi))
    }
    pub fn vecf(&mut self, n: usize, lo: f64, hi: f64) -> Array1<f64> {
        Array1::from_shape_fn(n, |_| self.f(lo, hi))
    }
    /// cheap pseudo random stream derived from one choice (for bulk data)
    pub fn sub_rng(&mut self) -> Xoshiro256Plus {
        let s = self.seed();
        Xoshiro256Plus::seed_from_u64(s)
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = i - self.raw(i as u64 + 1) as usize;
            p.swap(i, j);
        }
        p
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn note(&mut self, k: &str, v: impl std::fmt::Debug) {
        if self.notes.len() < 60 {
            let mut s = format!("{v:?}");
            if s.len() > 4000 {
                s.truncate(3000);
                s.push_str("...");
            }
            self.notes.push((k.to_string(), s));
        }
    }
    /// the case runs COBYLA with constraints, which cycles for ever now and then
    pub fn may_cycle(&mut self) {
        self.cycling.store(true, Ordering::SeqCst);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub type CaseFn = fn(&mut G) -> R;

#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    /// number of cases run concurrently (0 = all cores)
    pub jobs: usize,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub static GLOBAL_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let m = format!("panic at {loc}: {msg}");
        if std::env::var("VPBT_BT").is_ok() {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(m.clone()));
        if let Ok(mut g) = GLOBAL_PANIC.lock() {
            *g = Some(m);
        }
    }));
}

/// Run f, mapping a panic to Err(message)
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take());
            let m = m.unwrap_or_else(|| {
                let p = e
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                format!("panic: {p}")
            });
            Err(m)
        }
    }
}

pub enum Outcome {
    Pass,
    Discard(String),
    Fail(Fail),
}

pub fn run_case(f: CaseFn, g: &mut G) -> Outcome {
    match no_panic(|| f(g)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(Stop::Discard(w))) => Outcome::Discard(w),
        Ok(Err(Stop::Fail(x))) => Outcome::Fail(x),
        Err(m) => Outcome::Fail(Fail {
            sig: "panic".into(),
            msg: m,
        }),
    }
}

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100000001b3)
    })
}
fn hash_choices(c: &[u64]) -> u64 {
    c.iter().fold(0x1234567, |h, v| mix(h, *v))
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub sub: String,
    pub tier: String,
    pub sig: String,
    pub message: String,
    pub case: Vec<(String, String)>,
    pub choices: Vec<u64>,
}

#[derive(Deserialize, Clone)]
pub struct Known {
    pub property: String,
    pub sub: String,
    pub sig: String,
    pub what: String,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR")
        .map(|s| s.into())
        .unwrap_or_else(|_| "/verif".into())
}

/// known_findings.txt: lines "KNOWN property=<id> sub=<sub> sig=<sig> <what>"
pub fn load_known() -> Vec<Known> {
    let p = verif_dir().join("known_findings.txt");
    let txt = std::fs::read_to_string(p).unwrap_or_default();
    txt.lines()
        .filter_map(|l| {
            let l = l.trim();
            let rest = l.strip_prefix("KNOWN ")?;
            let mut property = String::new();
            let mut sub = String::new();
            let mut sig = String::new();
            let mut what = vec![];
            for tok in rest.split_whitespace() {
                if let Some(v) = tok.strip_prefix("property=") {
                    property = v.into()
                } else if let Some(v) = tok.strip_prefix("sub=") {
                    sub = v.into()
                } else if let Some(v) = tok.strip_prefix("sig=") {
                    sig = v.into()
                } else {
                    what.push(tok)
                }
            }
            Some(Known {
                property,
                sub,
                sig,
                what: what.join(" "),
            })
        })
        .collect()
}

/// state of a check shared by the threads which run its cases
#[derive(Default)]
struct Shared {
    next: AtomicUsize,
    stop: AtomicBool,
    best: Mutex<Option<Best>>,
    discards: Mutex<BTreeMap<String, usize>>,
    labels: Mutex<BTreeMap<String, usize>>,
    hashes: Mutex<HashSet<u64>>,
    count: AtomicUsize,
    evs: AtomicUsize,
    samp: Mutex<Vec<(usize, serde_json::Value)>>,
    khit: Mutex<BTreeMap<String, (usize, String)>>,
    trunc: AtomicBool,
    slow: Mutex<(f64, usize)>,
    /// cases in progress: start, may cycle
    running: Mutex<BTreeMap<usize, (Instant, Arc<AtomicBool>)>>,
    /// threads at work (or lost in a case which does not end)
    alive: AtomicUsize,
}

struct Best {
    idx: usize,
    fail: Fail,
    choices: Vec<u64>,
}

#[derive(Clone)]
struct Shrunk {
    choices: Vec<u64>,
    fail: Fail,
    notes: Vec<(String, String)>,
    tried: u64,
}

/// shrinking goes on in its own thread as candidates may not end
fn shrink(sub: &Sub, tier: Tier, start: Vec<u64>, fail0: Fail, budget: Duration) -> Shrunk {
    let res = Arc::new(Mutex::new(Shrunk { choices: start, fail: fail0, notes: vec![], tried: 0 }));
    let done = Arc::new(AtomicBool::new(false));
    let (r2, d2, sub) = (res.clone(), done.clone(), *sub);
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            shrink_in(&sub, tier, &r2, budget);
            d2.store(true, Ordering::SeqCst);
        })
        .unwrap();
    let t0 = Instant::now();
    while !done.load(Ordering::SeqCst) && t0.elapsed() < budget + Duration::from_secs(30) {
        std::thread::sleep(Duration::from_millis(10));
    }
    let r = res.lock().unwrap().clone();
    r
}

fn shrink_in(sub: &Sub, tier: Tier, res: &Mutex<Shrunk>, budget: Duration) {
    let t0 = Instant::now();
    let (start, sig) = {
        let r = res.lock().unwrap();
        (r.choices.clone(), r.fail.sig.clone())
    };
    // true when the candidate fails alike and is not longer
    let attempt = |c: &Vec<u64>, first: bool| -> bool {
        let mut g = G::new(0, Some(c.clone()), tier);
        let o = run_case(sub.f, &mut g);
        let mut r = res.lock().unwrap();
        r.tried += 1;
        match o {
            Outcome::Fail(f) if f.sig == sig && (first || g.choices.len() < r.choices.len() || g.choices.len() == r.choices.len() && g.choices < r.choices) => {
                r.choices = g.choices;
                r.fail = f;
                r.notes = g.notes;
                true
            }
            _ => false,
        }
    };
    let best = || res.lock().unwrap().choices.clone();
    if !attempt(&start, true) {
        // not reproducible from its choices (non deterministic system): keep as is
        res.lock().unwrap().fail.msg.push_str(" [note: not reproduced on immediate replay]");
        return;
    }
    let mut improved = true;
    while improved && t0.elapsed() < budget {
        improved = false;
        // delete chunks
        let mut size = (best().len() / 2).max(1);
        loop {
            let mut i = 0;
            while t0.elapsed() < budget {
                let mut c = best();
                if i + size > c.len() {
                    break;
                }
                c.drain(i..i + size);
                if attempt(&c, false) {
                    improved = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero / lower values
        let mut i = 0;
        loop {
            let b = best();
            if i >= b.len() || t0.elapsed() > budget {
                break;
            }
            let cur = b[i];
            for cand in [0, 1, cur / 2, cur.saturating_sub(1), cur & 0xF, cur & 0xFF] {
                if cand >= cur {
                    continue;
                }
                let mut c = b.clone();
                c[i] = cand;
                if attempt(&c, false) {
                    improved = true;
                    break;
                }
            }
            i += 1;
        }
    }
}

pub struct RunCfg {
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<String>,
    pub mult: f64,
}

/// Returns process exit code
/// cases lost in COBYLA, at most
const MAX_LOST: usize = 4;

#[allow(clippy::too_many_arguments)]
fn worker(sh: &Shared, sub: &Sub, id: &str, n: usize, seed: u64, tier: Tier, t0: Instant, deadline: Duration, known: &[Known]) -> bool {
    let only_case: Option<usize> = std::env::var("VPBT_CASE").ok().and_then(|s| s.parse().ok());
    loop {
        if sh.stop.load(Ordering::SeqCst) {
            break;
        }
        let i = sh.next.fetch_add(1, Ordering::SeqCst);
        if i >= n {
            break;
        }
        if t0.elapsed() > deadline {
            sh.trunc.store(true, Ordering::SeqCst);
            break;
        }
        let cs = mix(mix(seed, hash_str(id) ^ hash_str(sub.name)), i as u64);
        if only_case.map(|c| c != i).unwrap_or(false) {
            continue;
        }
        let mut g = G::new(cs, None, tier);
        let tc = Instant::now();
        sh.running.lock().unwrap().insert(i, (tc, g.cycling.clone()));
        let out = run_case(sub.f, &mut g);
        if sh.running.lock().unwrap().remove(&i).is_none() {
            // counted as lost
            return false;
        }
        let dt = tc.elapsed().as_secs_f64();
        {
            let mut s = sh.slow.lock().unwrap();
            if dt > s.0 {
                *s = (dt, i);
            }
        }
        sh.count.fetch_add(1, Ordering::SeqCst);
        sh.evs.fetch_add(g.evals.max(1) as usize, Ordering::SeqCst);
        {
            let mut l = sh.labels.lock().unwrap();
            for x in &g.labels {
                *l.entry(x.clone()).or_insert(0) += 1;
            }
        }
        match out {
            Outcome::Pass => {
                if g.nontrivial {
                    let h = hash_choices(&g.choices);
                    sh.hashes.lock().unwrap().insert(h);
                    if i < 2 {
                        let mut m = serde_json::Map::new();
                        m.insert("sub".into(), sub.name.into());
                        m.insert("case".into(), i.into());
                        for (k, v) in &g.notes {
                            let mut v = v.clone();
                            if v.len() > 400 {
                                v = v.chars().take(400).collect();
                            }
                            m.insert(k.clone(), v.into());
                        }
                        sh.samp.lock().unwrap().push((i, m.into()));
                    }
                }
            }
            Outcome::Discard(w) => {
                *sh.discards.lock().unwrap().entry(w).or_insert(0) += 1;
            }
            Outcome::Fail(f) => {
                if let Some(k) = known.iter().find(|k| {
                    k.property == id && k.sub == sub.name && k.sig == f.sig
                }) {
                    let mut kh = sh.khit.lock().unwrap();
                    let e = kh
                        .entry(format!("{}/{}", sub.name, f.sig))
                        .or_insert((0, k.what.clone()));
                    e.0 += 1;
                } else {
                    sh.stop.store(true, Ordering::SeqCst);
                    let mut b = sh.best.lock().unwrap();
                    if b.as_ref().map(|b| i < b.idx).unwrap_or(true) {
                        *b = Some(Best {
                            idx: i,
                            fail: f,
                            choices: g.choices.clone(),
                        });
                    }
                }
            }
        }
    }
    true
}

fn write_replay(p: &Prop, sub: &Sub, cfg: &RunCfg, f: &Fail, choices: Vec<u64>, notes: Vec<(String, String)>) -> std::path::PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{:08x}.json", p.id, sub.name, hash_choices(&choices) as u32));
    let rep = Replay {
        property: p.id.into(),
        sub: sub.name.into(),
        tier: cfg.tier.name().into(),
        sig: f.sig.clone(),
        message: f.msg.clone(),
        case: notes,
        choices,
    };
    std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("write replay");
    path
}

/// Checks of cheap functions afford more cases in the quick tier than listed
pub fn quick_mult(id: &str) -> usize {
    match id {
        "C02" | "C03" | "C04" | "C05" | "C06" | "C08" | "C09" | "C10" | "C12" => 4,
        "C07" | "C13" | "C21" | "C22" | "C25" | "C26" | "C27" => 2,
        _ => 1,
    }
}

pub fn run_prop(p: &Prop, cfg: &RunCfg) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let deadline = match cfg.tier {
        Tier::Quick => Duration::from_secs(
            std::env::var("VPBT_DEADLINE")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(420),
        ),
        Tier::Thorough => Duration::from_secs(
            std::env::var("VPBT_DEADLINE")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(3 * 3600),
        ),
    };
    let known = load_known();
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let mut evaluations = 0usize;
    let mut nontrivial = 0usize;
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut persub = serde_json::Map::new();
    let mut violations: Vec<(String, std::path::PathBuf, String)> = vec![];
    let mut known_hit: BTreeMap<String, (usize, String)> = BTreeMap::new();
    let mut truncated = false;

    for sub in &p.subs {
        if let Some(o) = &cfg.only {
            if !sub.name.contains(o.as_str()) {
                continue;
            }
        }
        let n = match cfg.tier {
            Tier::Quick => sub.quick * quick_mult(p.id),
            Tier::Thorough => sub.thorough,
        };
        let n = if n == 0 { 0 } else { ((n as f64 * cfg.mult) as usize).max(1) };
        let ts = Instant::now();
        let jobs = if sub.jobs == 0 { ncpu } else { sub.jobs.min(ncpu) };
        let hang = Duration::from_secs(std::env::var("VPBT_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(if cfg.tier == Tier::Quick { 90 } else { 900 }));
        let sh = Arc::new(Shared::default());
        let start = || {
            sh.alive.fetch_add(1, Ordering::SeqCst);
            let (sh, sub, id, seed, tier, known) = (sh.clone(), *sub, p.id, cfg.seed, cfg.tier, known.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    if worker(&sh, &sub, id, n, seed, tier, t0, deadline, &known) {
                        sh.alive.fetch_sub(1, Ordering::SeqCst);
                    }
                })
                .unwrap();
        };
        for _ in 0..jobs {
            start();
        }
        let mut lost = 0;
        loop {
            std::thread::sleep(Duration::from_millis(5));
            if sh.alive.load(Ordering::SeqCst) <= lost {
                break;
            }
            // cases which never end
            let late = {
                let mut r = sh.running.lock().unwrap();
                let i = r.iter().find(|(_, t)| t.0.elapsed() > hang).map(|(i, _)| *i);
                i.map(|i| (i, r.remove(&i).unwrap().1.load(Ordering::SeqCst)))
            };
            if let Some((i, may)) = late {
                eprintln!("[{}] {} case {i} (seed {}) does not end (VPBT_CASE={i})", p.id, sub.name, cfg.seed);
                if sh.best.lock().unwrap().is_none() && (!may || lost >= MAX_LOST) {
                    std::process::exit(2);
                }
                *sh.discards.lock().unwrap().entry("COBYLA does not end".into()).or_insert(0) += 1;
                if let Some(k) = known.iter().find(|k| k.property == p.id && k.sub == sub.name && k.sig == "cobyla-cycling") {
                    sh.khit.lock().unwrap().entry(format!("{}/{}", k.sub, k.sig)).or_insert((0, k.what.clone())).0 += 1;
                }
                lost += 1;
                start();
            }
        }
        let c = sh.count.load(Ordering::SeqCst);
        let ev = sh.evs.load(Ordering::SeqCst);
        let nt = sh.hashes.lock().unwrap().len();
        evaluations += ev;
        nontrivial += nt;
        truncated |= sh.trunc.load(Ordering::SeqCst);
        let mut s = std::mem::take(&mut *sh.samp.lock().unwrap());
        s.sort_by_key(|x| x.0);
        samples.extend(s.into_iter().map(|x| x.1));
        let labs = sh.labels.lock().unwrap().clone();
        let disc = sh.discards.lock().unwrap().clone();
        let sl = *sh.slow.lock().unwrap();
        persub.insert(
            sub.name.into(),
            serde_json::json!({"cases": c, "planned": n, "evaluations": ev, "distinct_nontrivial": nt,
              "discarded": disc, "labels": labs, "wall_s": ts.elapsed().as_secs_f64(),
              "slowest_case_s": sl.0}),
        );
        for (k, v) in std::mem::take(&mut *sh.khit.lock().unwrap()) {
            known_hit.insert(k, v);
        }
        eprintln!(
            "[{}] {}: {} cases ({} evaluations), {} nontrivial, {:?} discarded, {:.1}s, slowest {:.2}s (case {})",
            p.id, sub.name, c, ev, nt, disc, ts.elapsed().as_secs_f64(), sl.0, sl.1
        );
        if std::env::var("VPBT_LABELS").is_ok() {
            eprintln!("   labels {labs:?}");
        }
        let failed = sh.best.lock().unwrap().take();
        if let Some(b) = failed {
            eprintln!("[{}] {} case {} FAILED [{}] {}", p.id, sub.name, b.idx, b.fail.sig, b.fail.msg);
            let Shrunk { choices, fail: f, notes, tried } = shrink(sub, cfg.tier, b.choices, b.fail, Duration::from_secs(
                std::env::var("VPBT_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(40)));
            eprintln!("[{}] shrunk after {} attempts to {} choices: [{}] {}", p.id, tried, choices.len(), f.sig, f.msg);
            let path = write_replay(p, sub, cfg, &f, choices, notes);
            violations.push((sub.name.into(), path, format!("[{}] {}", f.sig, f.msg)));
            if cfg.only.is_none() {
                break;
            }
        }
    }
    for k in known.iter().filter(|k| k.property == p.id) {
        let key = format!("{}/{}", k.sub, k.sig);
        let n = known_hit.get(&key).map(|x| x.0).unwrap_or(0);
        println!("KNOWN-FINDING: property={} sub={} sig={} {} (met by {} cases of this run)", p.id, k.sub, k.sig, k.what, n);
    }
    let ev = serde_json::json!({
        "property": p.id, "tier": cfg.tier.name(), "seed": cfg.seed, "level": p.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": p.rule,
            "samples": samples,
            "per_check": persub,
            "stopped_by_deadline": truncated,
            "known_findings_met": known_hit.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(
        evdir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("write evidence");
    for (s, path, m) in &violations {
        let m1: String = m.chars().take(600).collect::<String>().replace('\n', " ");
        println!("  {s}: {m1}");
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    if violations.is_empty() {
        println!(
            "OK property={} evaluations={} nontrivial={} wall={:.1}s",
            p.id,
            evaluations,
            nontrivial,
            t0.elapsed().as_secs_f64()
        );
        0
    } else {
        1
    }
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    install_panic_hook();
    let rep: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    let p = props.iter().find(|p| p.id == rep.property).expect("property");
    let sub = p.subs.iter().find(|s| s.name == rep.sub).expect("sub");
    let tier = if rep.tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let mut g = G::new(0, Some(rep.choices), tier);
    let out = run_case(sub.f, &mut g);
    for (k, v) in &g.notes {
        println!("  {k} = {v}");
    }
    match out {
        Outcome::Pass => {
            println!("PASS");
            0
        }
        Outcome::Discard(w) => {
            println!("DISCARD {w}");
            0
        }
        Outcome::Fail(f) => {
            println!("FAIL [{}] {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
    }
}
