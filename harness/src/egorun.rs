//! Optimization scenarios: generated problems, configurations, instrumented objective and constraints
use crate::c16::*;
use crate::fw::*;
use egobox_ego::*;
use egobox_moe::{CorrelationSpec, NbClusters, Recombination, RegressionSpec, ThetaTuning};
use ndarray::{Array1, Array2, ArrayView2};
use serde::{Deserialize, Serialize};
use std::result::Result;
use std::sync::{Arc, Mutex};

/// smooth function of a user point (enum levels get arbitrary offsets)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UField {
    pub c: f64,
    pub s: f64,
    pub v: Vec<UVar>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum UVar {
    /// lo, width, amplitude, frequency, phase, curvature, minimizer
    Num(f64, f64, f64, f64, f64, f64, f64),
    Tab(Vec<f64>),
}
impl UField {
    pub fn random(g: &mut G, t: &[XType], s: f64) -> UField {
        let lims = ref_limits(t);
        let mut c = 0;
        let v = t
            .iter()
            .map(|t| {
                let r = match t {
                    XType::Enum(n) => UVar::Tab((0..*n).map(|_| g.f(-1., 1.)).collect()),
                    _ => {
                        let (lo, hi) = lims[c];
                        UVar::Num(lo, (hi - lo).max(1e-300), g.f(-1., 1.), g.logf(0.5, 8.), g.f(-3., 3.), g.f(0., 2.), g.unit())
                    }
                };
                c += width(t);
                r
            })
            .collect();
        UField { c: 0., s, v }
    }
    pub fn val(&self, x: &[f64]) -> f64 {
        let mut o = 0.;
        for (v, x) in self.v.iter().zip(x) {
            o += match v {
                UVar::Num(lo, w, a, f, p, q, m) => {
                    let u = (x - lo) / w;
                    a * (f * u + p).sin() + q * (u - m) * (u - m)
                }
                UVar::Tab(l) => l.get(*x as usize).copied().unwrap_or(0.),
            };
        }
        self.c + self.s * o
    }
    /// least and largest value on the domain (up to the grid)
    pub fn range(&self, t: &[XType]) -> (f64, f64) {
        let one = |v: &UVar, x: f64| UField { c: 0., s: 1., v: vec![v.clone()] }.val(&[x]);
        let (mut lo, mut hi) = (0., 0.);
        for (v, t) in self.v.iter().zip(t) {
            let w: Vec<f64> = match (v, t) {
                (UVar::Tab(l), _) => l.clone(),
                (UVar::Num(..), XType::Ord(l)) => l.iter().map(|x| one(v, *x)).collect(),
                (UVar::Num(..), XType::Int(a, b)) => (*a..=*b).map(|x| one(v, x as f64)).collect(),
                (UVar::Num(l, w, ..), _) => (0..=2000).map(|i| one(v, l + w * i as f64 / 2000.)).collect(),
            };
            lo += w.iter().cloned().fold(f64::INFINITY, f64::min);
            hi += w.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        }
        (self.c + self.s * lo, self.c + self.s * hi)
    }
    pub fn grad(&self, x: &[f64]) -> Vec<f64> {
        self.v
            .iter()
            .zip(x)
            .map(|(v, x)| match v {
                UVar::Num(lo, w, a, f, p, q, m) => {
                    let u = (x - lo) / w;
                    self.s * (a * f * (f * u + p).cos() + 2. * q * (u - m)) / w
                }
                UVar::Tab(_) => 0.,
            })
            .collect()
    }
}

/// what the instrumented functions saw
#[derive(Default, Debug)]
pub struct Log {
    /// batches on which the objective was called, in order, and what it returned
    pub calls: Vec<(Array2<f64>, Array2<f64>)>,
    /// constraint calls: number, first invalid point, largest distance outside of the bounds
    pub ccalls: usize,
    pub cgrads: usize,
    pub cbad: Option<String>,
    pub cout: f64,
}
impl Log {
    pub fn rows(&self) -> usize {
        self.calls.iter().map(|c| c.0.nrows()).sum()
    }
    pub fn xs(&self) -> Vec<Vec<f64>> {
        self.calls.iter().flat_map(|c| c.0.rows().into_iter().map(|r| r.to_vec()).collect::<Vec<_>>()).collect()
    }
    pub fn ys(&self) -> Vec<Vec<f64>> {
        self.calls.iter().flat_map(|c| c.1.rows().into_iter().map(|r| r.to_vec()).collect::<Vec<_>>()).collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Doe {
    Auto,
    N(usize),
    X,
    Xy,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scn {
    pub t: Vec<XType>,
    /// continuous interface (min_within) instead of the mixed-integer one
    pub cont: bool,
    pub n_cstr: usize,
    pub n_fcstr: usize,
    pub tols: Option<Vec<f64>>,
    pub max_iters: usize,
    pub doe: Doe,
    /// user design, encoded as the optimizer takes it
    pub doe_x: Array2<f64>,
    pub strat: usize,
    pub slsqp: bool,
    pub q: usize,
    pub qei: usize,
    pub optmod: usize,
    pub trego: bool,
    pub coego: usize,
    pub cstr_infill: bool,
    pub utb: bool,
    pub regr: usize,
    pub corr: usize,
    pub kpls: Option<usize>,
    /// 0: found automatically (at most 3)
    pub clusters: usize,
    pub smooth: bool,
    pub gp_start: usize,
    pub n_start: usize,
    pub seed: u64,
    pub target: Option<f64>,
    pub fs: Vec<UField>,
    pub cs: Vec<UField>,
    /// hyperparameters: initial values, bounds, likelihood evaluations
    #[serde(default)]
    pub theta: Option<Vec<f64>>,
    #[serde(default)]
    pub tbounds: Option<Vec<(f64, f64)>>,
    #[serde(default)]
    pub gp_eval: Option<usize>,
}

pub struct Opts {
    pub dmax: usize,
    pub mixed: u64,
    pub iters: (usize, usize),
    pub cstr: u64,
    pub fcstr: u64,
    pub qmax: usize,
    pub trego: u64,
    pub coego: u64,
    pub target: u64,
    pub user_doe: u64,
    pub clusters: u64,
}
pub const OPTS: Opts = Opts { clusters: 8, dmax: 3, mixed: 45, iters: (0, 5), cstr: 35, fcstr: 25, qmax: 3, trego: 20, coego: 20, target: 0, user_doe: 40 };

fn gen_ego_xtypes(g: &mut G, dmax: usize, mixed: bool) -> Vec<XType> {
    let d = g.us(1, dmax);
    let mut t: Vec<XType> = (0..d)
        .map(|_| {
            let k = if mixed { g.us(0, 3) } else { 0 };
            match k {
                0 => {
                    let lo = g.sym(0.01, 100.);
                    XType::Float(lo, lo + g.logf(0.01, 100.))
                }
                1 => {
                    let lo = g.int(-20, 20) as i32;
                    XType::Int(lo, lo + g.int(1, 30) as i32)
                }
                2 => {
                    let n = g.us(2, 6);
                    let mut lv: Vec<f64> = vec![];
                    let mut c = g.sym(0.01, 20.);
                    for _ in 0..n {
                        lv.push(c);
                        c += g.logf(0.1, 10.);
                    }
                    if g.chance(30) {
                        let p = g.perm(n);
                        lv = p.iter().map(|i| lv[*i]).collect();
                    }
                    XType::Ord(lv)
                }
                _ => XType::Enum(g.us(2, 4)),
            }
        })
        .collect();
    if mixed && !t.iter().any(|t| !matches!(t, XType::Float(..))) {
        t[0] = XType::Int(-3, 12);
    }
    if udim(&t) == 1 && g.chance(50) {
        t.push(XType::Float(-1., 1.));
    }
    t
}

pub const STRAT: [&str; 4] = ["EI", "LogEI", "WB2", "WB2S"];

pub fn gen_scn(g: &mut G, o: &Opts) -> Scn {
    let mixed = g.chance(o.mixed);
    let mut t = gen_ego_xtypes(g, o.dmax, mixed);
    let user = g.chance(o.user_doe);
    if user && enum_after_enum(&t) {
        // how a given design decodes then is a known finding of C16
        let mut seen = false;
        for t in t.iter_mut() {
            if let XType::Enum(n) = t {
                if seen {
                    *t = XType::Int(0, *n as i32);
                }
                seen = true;
            }
        }
    }
    let u = udim(&t);
    let n_cstr = if g.chance(o.cstr) { g.us(1, 2) } else { 0 };
    let n_fcstr = if g.chance(o.fcstr) { g.us(1, 2) } else { 0 };
    let nt = n_cstr + n_fcstr;
    let tols = if nt > 0 && g.chance(60) {
        // tolerances of the surrogate constraints only, or of all of them
        let k = if n_cstr == 0 || g.chance(50) { nt } else { n_cstr };
        Some((0..k).map(|_| if g.chance(20) { 0. } else { g.logf(1e-6, 0.3) }).collect())
    } else {
        None
    };
    let coego = if g.chance(o.coego) && u > 1 { g.us(1, u) } else { 0 };
    let q = if g.chance(40) { g.us(1, o.qmax) } else { 1 };
    let regr = if !mixed && g.chance(15) { 1 } else { 0 };
    let corr = if g.chance(40) { g.us(1, 3) } else { 0 };
    let kpls = if coego == 0 && u > 2 && g.chance(8) { Some(g.us(1, 2)) } else { None };
    let clusters = if g.chance(o.clusters) { if coego == 0 && g.chance(25) { 0 } else { 2 } } else { 1 };
    let more = if clusters == 1 { 0 } else { 10 };
    let doe = if user {
        if g.chance(50) { Doe::X } else { Doe::Xy }
    } else if g.chance(30) && clusters == 1 {
        Doe::Auto
    } else {
        Doe::N(g.us(4, 9).max(u + 2) + more)
    };
    let n = g.us(4, 8).max(u + 2) + more;
    // user design: distinct points
    let lims = ref_limits(&t);
    let doe_x = if matches!(doe, Doe::X | Doe::Xy) {
        let mut rows: Vec<Vec<f64>> = vec![];
        for _ in 0..n {
            for _ in 0..20 {
                let p = unfold(&t, &gen_folded(g, &t));
                if !rows.contains(&p) {
                    rows.push(p);
                    break;
                }
            }
        }
        Array2::from_shape_fn((rows.len(), lims.len()), |(i, j)| rows[i][j])
    } else {
        Array2::zeros((0, lims.len()))
    };
    let s = g.logf(1e-2, 1e3);
    let mut fs = vec![UField::random(g, &t, s)];
    if g.chance(20) {
        // minimum in a corner, found again and again
        for v in fs[0].v.iter_mut() {
            if let UVar::Num(_, _, a, _, _, q, m) = v {
                *a = 0.;
                *q += 0.3;
                *m = if g.chance(50) { -1. } else { 2. };
            }
        }
    }
    let mk = |g: &mut G| {
        let s = g.logf(0.1, 10.);
        let mut f = UField::random(g, &t, s);
        // feasible region: offset by the value somewhere in the domain
        let p = gen_folded(g, &t);
        f.c = -f.val(&p) - s * if g.chance(20) { g.f(-1., 0.) } else { g.f(0., 1.) };
        f
    };
    for _ in 0..n_cstr {
        fs.push(mk(g));
    }
    let cs: Vec<UField> = (0..n_fcstr).map(|_| mk(g)).collect();
    let target = if g.chance(o.target) {
        let (lo, hi) = fs[0].range(&t);
        Some(lo + g.f(-0.05, 0.3) * (hi - lo))
    } else {
        None
    };
    let sc = Scn {
        cont: !mixed,
        n_cstr,
        n_fcstr,
        tols,
        max_iters: g.us(o.iters.0, o.iters.1),
        doe,
        doe_x,
        strat: g.us(0, 3),
        slsqp: g.chance(50),
        q,
        qei: g.us(0, 3),
        optmod: g.us(1, 3),
        trego: g.chance(o.trego),
        coego,
        cstr_infill: g.chance(30),
        utb: g.chance(40),
        regr,
        corr,
        kpls,
        clusters,
        smooth: g.chance(50),
        gp_start: g.us(1, 3),
        n_start: g.us(3, 6),
        seed: g.seed(),
        target,
        fs,
        cs,
        t,
        theta: None,
        tbounds: None,
        gp_eval: None,
    };
    if !sc.slsqp && n_cstr + n_fcstr > 0 {
        g.may_cycle();
    }
    let mut n = sc.clone();
    n.fs.clear();
    n.cs.clear();
    g.note("scenario", n);
    sc
}

/// settings of a particular run of a scenario
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Ctl {
    pub outdir: Option<String>,
    pub warm: bool,
    pub hot: Option<u64>,
    pub max_iters: Option<usize>,
    pub no_doe: bool,
    /// the objective panics at this call
    pub die_at: Option<usize>,
    /// use this saved configuration instead
    pub saved: Option<String>,
}

/// what came out of a run
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Out {
    pub x: Vec<Vec<f64>>,
    pub y: Vec<Vec<f64>>,
    pub c: Vec<Vec<f64>>,
    pub x_opt: Vec<f64>,
    pub y_opt: Vec<f64>,
    pub best: Option<usize>,
    pub iter: u64,
    pub last_best: u64,
    pub status: String,
    pub infill: f64,
}
impl Out {
    pub fn of(r: &OptimResult<f64>) -> Out {
        let st = &r.state;
        Out {
            x: rows(&r.x_doe),
            y: rows(&r.y_doe),
            c: st.data.as_ref().map(|d| rows(&d.2)).unwrap_or_default(),
            x_opt: r.x_opt.to_vec(),
            y_opt: r.y_opt.to_vec(),
            best: st.best_index,
            iter: st.iter,
            last_best: st.last_best_iter,
            status: format!("{:?}", st.termination_status),
            infill: if st.infill_value.is_finite() { st.infill_value } else { f64::MAX },
        }
    }
    /// first difference, if any
    pub fn diff(&self, o: &Out) -> Option<String> {
        for (i, (a, b)) in self.x.iter().zip(&o.x).enumerate() {
            if a != b {
                return Some(format!("point {i} is {a:?} / {b:?}"));
            }
        }
        for (i, (a, b)) in self.y.iter().zip(&o.y).enumerate() {
            if a != b {
                return Some(format!("outputs {i} are {a:?} / {b:?}"));
            }
        }
        for (i, (a, b)) in self.c.iter().zip(&o.c).enumerate() {
            if a != b {
                return Some(format!("constraint values {i} are {a:?} / {b:?}"));
            }
        }
        if self == o {
            return None;
        }
        let s = |o: &Out| format!("{} points, x_opt {:?} y_opt {:?} best {:?} iter {} last best {} {} infill {:?}", o.x.len(), o.x_opt, o.y_opt, o.best, o.iter, o.last_best, o.status, o.infill);
        Some(format!("{} / {}", s(self), s(o)))
    }
}

/// a run in another process
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    pub scn: Scn,
    pub ctl: Ctl,
    /// files larger than this cannot be written: the process is killed (or gets an error)
    pub fsize: Option<u64>,
    pub ignore_xfsz: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Done {
    pub out: Result<Out, String>,
    pub calls: Vec<(Vec<Vec<f64>>, Vec<Vec<f64>>)>,
}
/// body of the child process: a job on stdin, the outcome on stdout
pub fn child() -> i32 {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let j: Job = serde_json::from_str(&s).expect("job");
    if let Some(l) = j.fsize {
        unsafe {
            if j.ignore_xfsz {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            }
            let r = libc::rlimit { rlim_cur: l, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_FSIZE, &r);
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let (r, log) = j.scn.run(&j.ctl);
    let d = Done { out: r.map(|r| Out::of(&r)), calls: log.calls.iter().map(|(x, y)| (rows(x), rows(y))).collect() };
    unsafe {
        let r = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_FSIZE, &r);
    }
    // other lines may be printed by the libraries
    print!("\n#RESULT {}\n", serde_json::to_string(&d).unwrap());
    0
}
/// None when the process did not finish
pub fn spawn(j: &Job, env: &[(&str, &str)]) -> Option<Done> {
    use std::io::Write;
    use std::process::*;
    let mut c = Command::new("/proc/self/exe") /* this very program, even if rebuilt meanwhile */;
    c.arg("child").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    for (k, v) in env {
        c.env(k, v);
    }
    let mut p = match c.spawn() {
        Ok(p) => p,
        Err(e) => {
            eprintln!("cannot start a process: {e}");
            std::process::exit(2);
        }
    };
    p.stdin.take().unwrap().write_all(serde_json::to_string(j).unwrap().as_bytes()).ok();
    // as other cases which do not end
    let late = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let ended = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (l2, e2, pid) = (late.clone(), ended.clone(), p.id() as i32);
    std::thread::spawn(move || {
        let t = std::time::Instant::now();
        while t.elapsed().as_secs() < 80 {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if e2.load(std::sync::atomic::Ordering::SeqCst) {
                return;
            }
        }
        l2.store(true, std::sync::atomic::Ordering::SeqCst);
        unsafe { libc::kill(pid, libc::SIGKILL) };
    });
    let o = p.wait_with_output().expect("child output");
    ended.store(true, std::sync::atomic::Ordering::SeqCst);
    while late.load(std::sync::atomic::Ordering::SeqCst) {
        std::thread::sleep(std::time::Duration::from_secs(3600));
    }
    if !o.status.success() {
        return None;
    }
    let t = String::from_utf8_lossy(&o.stdout);
    let l = t.lines().find_map(|l| l.strip_prefix("#RESULT ")).expect("child result");
    Some(serde_json::from_str(l).expect("child result"))
}

/// in a pool of its own, as an optimization may not end
fn pooled<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    if rayon::current_thread_index().is_some() {
        return no_panic(f);
    }
    rayon::ThreadPoolBuilder::new().num_threads(3).build().unwrap().install(|| no_panic(f))
}

impl Scn {
    pub fn objs(&self, x: &ArrayView2<f64>) -> Array2<f64> {
        Array2::from_shape_fn((x.nrows(), self.fs.len()), |(i, j)| self.fs[j].val(&x.row(i).to_vec()))
    }
    /// tolerances in force: those given, completed by the default one
    pub fn tolerances(&self) -> Vec<f64> {
        let mut t = self.tols.clone().unwrap_or_default();
        t.resize(self.n_cstr + self.n_fcstr, DEFAULT_CSTR_TOL);
        t
    }
    /// points of the user design in the user's space
    pub fn doe_folded(&self) -> Vec<Vec<f64>> {
        self.doe_x.rows().into_iter().map(|r| ref_cast(&self.t, &r.to_vec()).unwrap()).collect()
    }
    /// the design given by the user
    pub fn doe_arr(&self) -> Option<Array2<f64>> {
        match self.doe {
            Doe::Auto | Doe::N(_) => None,
            Doe::X => Some(self.doe_x.clone()),
            Doe::Xy => {
                let f = self.doe_folded();
                let nx = self.doe_x.ncols();
                Some(Array2::from_shape_fn((self.doe_x.nrows(), nx + self.fs.len()), |(i, j)| {
                    if j < nx { self.doe_x[[i, j]] } else { self.fs[j - nx].val(&f[i]) }
                }))
            }
        }
    }
    pub fn user_doe(&self) -> bool {
        matches!(self.doe, Doe::X | Doe::Xy)
    }
    pub fn n_init(&self) -> usize {
        match self.doe {
            Doe::Auto => (udim(&self.t) + 1).max(5),
            Doe::N(n) => n,
            _ => self.doe_x.nrows(),
        }
    }
    pub fn config(&self, c: EgorConfig, ctl: &Ctl) -> EgorConfig {
        let mut c = c
            .n_cstr(self.n_cstr)
            .max_iters(ctl.max_iters.unwrap_or(self.max_iters))
            .n_start(self.n_start)
            .infill_strategy([InfillStrategy::EI, InfillStrategy::LogEI, InfillStrategy::WB2, InfillStrategy::WB2S][self.strat].clone())
            .infill_optimizer(if self.slsqp { InfillOptimizer::Slsqp } else { InfillOptimizer::Cobyla })
            .q_points(self.q)
            .qei_strategy(
                [QEiStrategy::KrigingBeliever, QEiStrategy::KrigingBelieverLowerBound, QEiStrategy::KrigingBelieverUpperBound, QEiStrategy::ConstantLiarMinimum][self.qei].clone(),
            )
            .q_optmod(self.optmod)
            .trego(self.trego)
            .coego(if self.coego > 0 { CoegoStatus::Enabled(self.coego) } else { CoegoStatus::Disabled })
            .cstr_infill(self.cstr_infill)
            .cstr_strategy(if self.utb { ConstraintStrategy::UpperTrustBound } else { ConstraintStrategy::MeanConstraint })
            .seed(self.seed)
            .configure_gp(|gp| {
                let mut gp = gp;
                if self.theta.is_some() || self.tbounds.is_some() {
                    let d = ThetaTuning::<f64>::default();
                    gp = gp.theta_tuning(ThetaTuning::Full {
                        init: self.theta.clone().map(Array1::from).unwrap_or(d.init().to_owned()),
                        bounds: self.tbounds.clone().map(Array1::from).unwrap_or(Array1::from_elem(1, ThetaTuning::<f64>::DEFAULT_BOUNDS)),
                    });
                }
                if let Some(n) = self.gp_eval {
                    gp = gp.max_eval(n);
                }
                gp.regression_spec([RegressionSpec::CONSTANT, RegressionSpec::LINEAR][self.regr])
                    .correlation_spec(
                        [CorrelationSpec::SQUAREDEXPONENTIAL, CorrelationSpec::ABSOLUTEEXPONENTIAL, CorrelationSpec::MATERN32, CorrelationSpec::MATERN52][self.corr],
                    )
                    .kpls_dim(self.kpls)
                    .n_clusters(if self.clusters == 0 { NbClusters::automax(3) } else { NbClusters::fixed(self.clusters) })
                    .recombination(if self.smooth { Recombination::Smooth(Some(1.)) } else { Recombination::Hard })
                    .n_start(self.gp_start)
            });
        if let Some(t) = &self.tols {
            c = c.cstr_tol(Array1::from(t.clone()));
        }
        if let Some(t) = self.target {
            c = c.target(t);
        }
        if !ctl.no_doe {
            if let Doe::N(n) = self.doe {
                c = c.n_doe(n);
            }
            if let Some(d) = self.doe_arr() {
                c = c.doe(&d);
            }
        }
        if let Some(o) = &ctl.outdir {
            c = c.outdir(o.clone());
        }
        c = c.warm_start(ctl.warm);
        c.hot_start(ctl.hot.into())
    }
    /// a run which cannot be completed: documented limits of the surrogates, otherwise a failure
    pub fn refused<T>(&self, e: &str) -> Result<T, Stop> {
        if self.regr == 1 && e.contains("F is too ill conditioned") {
            return discard("trend not identifiable");
        }
        if self.clusters != 1 && e.contains("ClusteringError(\"Not enough points") {
            return discard("too few points in a cluster");
        }
        if self.kpls.is_some() && e.contains("components which can be extracted from training data") {
            return discard("KPLS dimension too large for the data");
        }
        fail("run", e.to_string())
    }
    pub fn limits(&self) -> Array2<f64> {
        let lims = ref_limits(&self.t);
        Array2::from_shape_fn((lims.len(), 2), |(i, j)| if j == 0 { lims[i].0 } else { lims[i].1 })
    }
    /// ask for points given the outputs at points x (user's space)
    pub fn suggest(&self, x: &Array2<f64>, y: &Array2<f64>) -> Result<Array2<f64>, String> {
        let r = pooled(|| -> Result<Array2<f64>, String> {
            let fac = EgorServiceFactory::<Cstr>::optimize().configure(|c| self.config(c, &Ctl::default()));
            Ok(if self.cont {
                fac.min_within(&self.limits()).map_err(|e| format!("configuration: {e}"))?.suggest(x, y)
            } else {
                fac.min_within_mixint_space(&self.t).map_err(|e| format!("configuration: {e}"))?.suggest(x, y)
            })
        });
        match r {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {e}")),
        }
    }
    /// run the optimizer; Err on a refused configuration, an error or a panic
    pub fn run(&self, ctl: &Ctl) -> (Result<OptimResult<f64>, String>, Log) {
        let log = Arc::new(Mutex::new(Log::default()));
        let (l2, me, die) = (log.clone(), self.clone(), ctl.die_at);
        let obj = move |x: &ArrayView2<f64>| -> Array2<f64> {
            let y = me.objs(x);
            {
                let mut l = l2.lock().unwrap();
                if die == Some(l.calls.len()) {
                    drop(l);
                    panic!("vpbt: planned death");
                }
                l.calls.push((x.to_owned(), y.clone()));
            }
            y
        };
        let cs: Vec<_> = self
            .cs
            .iter()
            .map(|f| {
                let (f, t, l2) = (f.clone(), self.t.clone(), log.clone());
                move |x: &[f64], gr: Option<&mut [f64]>, _: &mut InfillObjData<f64>| -> f64 {
                    let mut bad = None;
                    let mut out = 0f64;
                    if x.len() != t.len() {
                        bad = Some(format!("point of {} components for {} variables: {x:?}", x.len(), t.len()));
                    } else {
                        let mut c = x.to_vec();
                        for (v, t) in c.iter_mut().zip(&t) {
                            if let XType::Float(lo, hi) = t {
                                if !v.is_finite() {
                                    bad = Some(format!("{x:?}"));
                                }
                                out = out.max((lo - *v) / (hi - lo)).max((*v - hi) / (hi - lo));
                                *v = v.clamp(*lo, *hi);
                            }
                        }
                        if bad.is_none() {
                            bad = invalid(&t, &c);
                        }
                    }
                    if let Some(g) = &gr {
                        if g.len() != t.len() && bad.is_none() {
                            bad = Some(format!("gradient of {} components for {} variables", g.len(), t.len()));
                        }
                    }
                    {
                        let mut l = l2.lock().unwrap();
                        l.ccalls += 1;
                        l.cgrads += gr.is_some() as usize;
                        l.cout = l.cout.max(out);
                        if l.cbad.is_none() {
                            l.cbad = bad;
                        }
                    }
                    if let Some(g) = gr {
                        for (a, b) in g.iter_mut().zip(f.grad(x)) {
                            *a = b;
                        }
                    }
                    f.val(x)
                }
            })
            .collect();
        let r = pooled(|| -> Result<OptimResult<f64>, String> {
            let saved = match &ctl.saved {
                Some(f) => Some(serde_json::from_str::<EgorConfig>(f).map_err(|e| format!("saved configuration: {e}"))?),
                None => None,
            };
            let fac = EgorFactory::optimize(obj).subject_to(cs).configure(|c| match saved {
                Some(c) => c.no_outdir().hot_start(None.into()),
                None => self.config(c, ctl),
            });
            if self.cont {
                fac.min_within(&self.limits()).map_err(|e| format!("configuration: {e}"))?.run().map_err(|e| format!("run: {e}"))
            } else {
                fac.min_within_mixint_space(&self.t).map_err(|e| format!("configuration: {e}"))?.run().map_err(|e| format!("run: {e}"))
            }
        });
        let r = match r {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {e}")),
        };
        let l = std::mem::take(&mut *log.lock().unwrap_or_else(|e| e.into_inner()));
        (r, l)
    }
}

pub fn rows(a: &Array2<f64>) -> Vec<Vec<f64>> {
    a.rows().into_iter().map(|r| r.to_vec()).collect()
}
