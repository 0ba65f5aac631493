//! C29: what the optimizer chooses, and the surrogates it chooses with
use crate::c16::*;
use crate::c18::ref_logh;
use crate::c20::*;
use crate::egorun::*;
use crate::ensure;
use crate::fw::*;
use egobox_ego::*;
use egobox_moe::{*, ThetaTuning};
use linfa::prelude::*;
use ndarray::{Array1, Array2, Axis, concatenate, s};
use std::result::Result;

type Sur = Box<dyn MixtureGpSurrogate>;

/// the surrogate of an output of the optimizer when hyperparameters are known
pub fn surrogate(s: &Scn, theta: &[f64], x: &Array2<f64>, y: &Array1<f64>) -> Result<GpMixture, String> {
    let p = GpMixture::params()
        .n_clusters(NbClusters::fixed(1))
        .recombination(if s.smooth { Recombination::Smooth(Some(1.)) } else { Recombination::Hard })
        .regression_spec([RegressionSpec::CONSTANT, RegressionSpec::LINEAR][s.regr])
        .correlation_spec([CorrelationSpec::SQUAREDEXPONENTIAL, CorrelationSpec::ABSOLUTEEXPONENTIAL, CorrelationSpec::MATERN32, CorrelationSpec::MATERN52][s.corr])
        .kpls_dim(s.kpls)
        .theta_tunings(&[ThetaTuning::Fixed(Array1::from(theta.to_vec()))]);
    match no_panic(|| p.fit(&Dataset::new(x.to_owned(), y.to_owned()))) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => Err(e.to_string()),
        Err(e) => Err(e),
    }
}

/// mean and standard deviation at points
fn moments(m: &dyn MixtureGpSurrogate, q: &Array2<f64>) -> Option<Vec<(f64, f64)>> {
    let (v, w) = m.predict_valvar(&q.view()).ok()?;
    Some(v.iter().zip(w.iter()).map(|(v, w)| (*v, w.max(0.).sqrt())).collect())
}

fn log_ei(mean: f64, sd: f64, fmin: f64) -> f64 {
    if sd < 1e-150 {
        return f64::NEG_INFINITY;
    }
    let (l, _) = ref_logh((fmin - mean) / sd);
    l + sd.ln()
}

pub struct View<'a> {
    pub s: &'a Scn,
    pub fmin: f64,
    pub obj: Vec<(f64, f64)>,
    pub cst: Vec<Vec<(f64, f64)>>,
    pub fcst: Vec<Vec<f64>>,
    pub tol: Vec<f64>,
}
impl View<'_> {
    /// (values of the criterion, feasibility as the infill search sees it with slack)
    pub fn scores(&self) -> Vec<f64> {
        let n = self.obj.len();
        let lei: Vec<f64> = self.obj.iter().map(|(m, d)| log_ei(*m, *d, self.fmin)).collect();
        let sc = if self.s.strat == 3 {
            let k = (0..n).max_by(|a, b| lei[*a].total_cmp(&lei[*b])).unwrap();
            if lei[k] > -600. { 100. * self.obj[k].0.abs() / lei[k].exp() } else { 1. }
        } else {
            1.
        };
        (0..n)
            .map(|i| {
                let lpof: f64 = if self.s.cstr_infill {
                    self.cst
                        .iter()
                        .zip(&self.tol)
                        .map(|(c, t)| {
                            let (m, d) = c[i];
                            if d < 1e-12 { if m <= *t { 0. } else { -36. } } else { crate::c18::ref_cdf((t - m) / d).max(2.2e-16).ln() }
                        })
                        .sum()
                } else {
                    0.
                };
                match self.s.strat {
                    0 | 1 => lei[i] + lpof,
                    _ => (sc * lei[i].exp() - self.obj[i].0) * lpof.exp(),
                }
            })
            .collect()
    }
    pub fn violation(&self, i: usize) -> f64 {
        let mut v = 0f64;
        if !self.s.cstr_infill {
            for c in &self.cst {
                let w = c.iter().map(|c| c.0.abs()).fold(1e-300, f64::max);
                let val = if self.s.utb { c[i].0 + 3. * c[i].1 } else { c[i].0 };
                v = v.max(val / w);
            }
        }
        for c in &self.fcst {
            let w = c.iter().map(|c| c.abs()).fold(1e-300, f64::max);
            v = v.max(c[i] / w);
        }
        v
    }
}

const NQ: usize = 300;

/// (share of feasible random points better than the chosen one, violation at the chosen point, share of feasible points)
fn judge(s: &Scn, theta: &[f64], xt: &Array2<f64>, yt: &Array2<f64>, fmin: f64, x: &[f64], g: &mut G) -> Result<Option<(f64, f64, f64)>, String> {
    let lims = s.limits();
    let d = lims.nrows();
    let mut q = g.mat(NQ, d, 0., 1.);
    for j in 0..d {
        q.column_mut(j).mapv_inplace(|u| lims[[j, 0]] + u * (lims[[j, 1]] - lims[[j, 0]]));
    }
    let q = concatenate![Axis(0), Array2::from_shape_vec((1, d), x.to_vec()).unwrap(), q];
    let mut ms = vec![];
    for k in 0..1 + s.n_cstr {
        let m = surrogate(s, theta, xt, &yt.column(k).to_owned())?;
        match moments(&m, &q) {
            Some(m) => ms.push(m),
            None => return Err("prediction".into()),
        }
    }
    let obj = ms.remove(0);
    let fcst = s.cs.iter().map(|c| q.rows().into_iter().map(|r| c.val(&r.to_vec())).collect()).collect();
    let v = View { s, fmin, obj, cst: ms, fcst, tol: s.tolerances() };
    let sc = v.scores();
    let feas: Vec<usize> = (1..=NQ).filter(|i| v.violation(*i) <= 0.).collect();
    if feas.is_empty() {
        return Ok(None);
    }
    let slack = 1e-9 * sc.iter().map(|v| v.abs()).filter(|v| v.is_finite()).fold(0., f64::max);
    let better = feas.iter().filter(|i| sc[**i] > sc[0] + slack).count();
    Ok(Some((better as f64 / feas.len() as f64, v.violation(0), feas.len() as f64 / NQ as f64)))
}

pub fn index_of_best(rows: &[Vec<f64>], tol: &[f64]) -> usize {
    let mut b = 0;
    for k in 1..rows.len() {
        let (vk, vc) = (violation(&rows[k][1..], tol), violation(&rows[b][1..], tol));
        if if vk > 0. && vc > 0. { vk < vc } else if vk == 0. && vc == 0. { rows[k][0] < rows[b][0] } else { vk == 0. } {
            b = k;
        }
    }
    b
}

/// what the six problems of a case have in common
#[derive(Clone, Debug)]
struct Kind {
    cstr: u64,
    fcstr: u64,
    q: usize,
    coego: bool,
    pof: bool,
    utb: bool,
    strat: usize,
    slsqp: bool,
    qei: usize,
    corr: usize,
    regr: usize,
    suggest: bool,
}

fn problem(g: &mut G, k: &Kind) -> (Scn, Vec<f64>) {
    let mut s = gen_scn(g, &Opts { mixed: 0, iters: (1, 1), trego: 0, coego: 0, cstr: k.cstr, fcstr: k.fcstr, qmax: 1, user_doe: 100, clusters: 0, dmax: 3, ..OPTS });
    let d = s.t.len();
    s.doe = Doe::Xy;
    s.kpls = None;
    s.n_start = g.us(8, 12);
    s.q = k.q;
    s.cstr_infill = k.pof;
    s.utb = k.utb;
    s.strat = k.strat;
    s.slsqp = k.slsqp;
    s.qei = k.qei;
    s.corr = k.corr;
    s.regr = k.regr;
    s.coego = if k.coego && d > 1 { g.us(1, d) } else { 0 };
    // correlation lengths of about a third of the domain, in normalized inputs
    let theta: Vec<f64> = if g.chance(50) { vec![g.logf(0.2, 3.); d] } else { (0..d).map(|_| g.logf(0.2, 3.)).collect() };
    let same = theta.iter().all(|t| *t == theta[0]);
    s.theta = Some(if same && g.chance(50) { theta[..1].to_vec() } else { theta.clone() });
    let w = 1e-4;
    let b: Vec<(f64, f64)> = theta.iter().map(|t| (t * (1. - w), t * (1. + w))).collect();
    s.tbounds = Some(if same && g.chance(50) { b[..1].to_vec() } else { b });
    (s, theta)
}

fn choice(g: &mut G) -> R {
    let c = g.us(0, 9);
    let k = Kind {
        cstr: if c < 5 { 100 } else { 0 },
        fcstr: if c == 5 || c == 6 || c == 0 { 100 } else { 0 },
        q: if g.chance(50) { g.us(2, 3) } else { 1 },
        coego: g.chance(15),
        pof: c == 3 || c == 4,
        utb: g.chance(50),
        strat: g.us(0, 3),
        slsqp: g.chance(60),
        qei: g.us(0, 3),
        corr: g.us(0, 3),
        regr: if g.chance(20) { 1 } else { 0 },
        suggest: g.chance(50),
    };
    g.note("kind", &k);
    // choices: number, poor ones; by rank in the batch (first, others)
    let mut n = [0usize; 2];
    let mut poor = [0usize; 2];
    let (mut nc, mut viol) = (0, 0);
    let mut show: Vec<String> = vec![];
    for ip in 0..8 {
        let (s, theta) = problem(g, &k);
        let a = s.doe_arr().unwrap();
        let d = s.t.len();
        let (x, y) = (a.slice(s![.., ..d]).to_owned(), a.slice(s![.., d..]).to_owned());
        let rows0 = rows(&y);
        let tol = s.tolerances();
        let (xs, b) = if s.coego == 0 && s.n_fcstr == 0 && k.suggest {
            let r = match s.suggest(&x, &y) {
                Ok(r) => r,
                Err(e) => return s.refused(&e),
            };
            (rows(&r), index_of_best(&rows0, &tol))
        } else {
            let (r, _) = s.run(&Ctl::default());
            let r = match r {
                Ok(r) => r,
                Err(e) => return s.refused(&e),
            };
            let rw: Vec<Vec<f64>> = (0..x.nrows())
                .map(|i| {
                    let mut v = rows0[i].clone();
                    v.extend(s.cs.iter().map(|c| c.val(&x.row(i).to_vec())));
                    v
                })
                .collect();
            (rows(&r.x_doe)[x.nrows()..].to_vec(), index_of_best(&rw, &tol))
        };
        // points too close to others are not added: then the batch is not known
        if xs.len() < s.q {
            g.label("incomplete batch");
            continue;
        }
        let fmin = y[[b, 0]];
        let (mut xt, mut yt) = (x.clone(), y.clone());
        for (i, p) in xs.iter().enumerate() {
            let j = match judge(&s, &theta, &xt, &yt, fmin, p, g) {
                Ok(j) => j,
                Err(_) => break,
            };
            let Some((r, v, share)) = j else {
                g.label("nothing feasible predicted");
                break;
            };
            let z = (i > 0) as usize;
            n[z] += 1;
            if r > if s.coego > 0 { 0.35 } else { 0.2 } {
                poor[z] += 1;
                show.push(format!("problem {ip} point {i} {p:?}: {:.0}% of the domain is better", 100. * r));
            }
            if share > 0.05 && (s.n_fcstr > 0 || s.n_cstr > 0 && !s.cstr_infill) {
                nc += 1;
                if v > 0.01 {
                    viol += 1;
                    show.push(format!("problem {ip} point {i} {p:?}: constraint violated by {v} (scaled), feasible on {:.0}% of the domain", 100. * share));
                }
            }
            // virtual outputs of this point
            let q = Array2::from_shape_vec((1, d), p.clone()).unwrap();
            let mut v = vec![];
            for o in 0..1 + s.n_cstr {
                let Ok(m) = surrogate(&s, &theta, &xt, &yt.column(o).to_owned()) else { break };
                let Some(m) = moments(&m, &q) else { break };
                v.push(if o == 0 { m[0].0 + [0., -3., 3., 0.][s.qei] * m[0].1 } else { m[0].0 });
            }
            if v.len() < 1 + s.n_cstr {
                break;
            }
            if s.qei == 3 {
                let l = (0..y.nrows()).min_by(|a, b| y[[*a, 0]].total_cmp(&y[[*b, 0]])).unwrap();
                v = y.row(l).to_vec();
            }
            xt = concatenate![Axis(0), xt, q];
            yt = concatenate![Axis(0), yt, Array2::from_shape_vec((1, v.len()), v).unwrap()];
        }
    }
    let opt = format!("{}{}", if k.slsqp { "slsqp" } else { "cobyla" }, if k.coego { " coego" } else { "" });
    for z in 0..2 {
        g.label(format!("{opt} poor{z} {} of {}", poor[z], n[z]));
    }
    g.label(format!("{opt} viol {viol} of {nc}"));
    for z in 0..2 {
        ensure!(
            poor[z] < 5 || 2 * poor[z] < n[z],
            if z == 0 { "poor-choice" } else { "poor-batch" },
            "{} of {} {} points are poor choices: {}",
            poor[z],
            n[z],
            if z == 0 { "first" } else { "further" },
            show.join("; ")
        );
    }
    // COBYLA often stops at points which violate constraints
    if k.slsqp {
        ensure!(viol < 5 || 2 * viol < nc, "infeasible-choice", "{viol} of {nc} points are predicted infeasible: {}", show.join("; "));
    }
    if n[0] + n[1] < 4 {
        return discard("too few choices");
    }
    g.nontrivial();
    Ok(())
}

const KNAMES: [&str; 4] = ["SquaredExponential", "AbsoluteExponential", "Matern32", "Matern52"];
const RNAMES: [&str; 2] = ["Constant", "Linear"];

fn load(path: &str) -> Result<Vec<Sur>, String> {
    let b = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
    bincode::serde::decode_from_slice(&b, bincode::config::standard()).map(|r| r.0).map_err(|e| format!("{path}: {e}"))
}

/// surrogates and run recorded by the optimizer
fn recorded(g: &mut G) -> R {
    let mut s = gen_scn(g, &Opts { mixed: 25, iters: (1, 4), trego: 0, coego: 20, cstr: 45, fcstr: 15, qmax: 2, clusters: 15, user_doe: 40, dmax: 4, ..OPTS });
    if enum_after_enum(&s.t) {
        return discard("enumeration after another one");
    }
    let d = ref_limits(&s.t).len();
    let h = s.kpls.unwrap_or(d);
    // hyperparameters asked for
    let how = g.us(0, 3);
    let def = ThetaTuning::<f64>::DEFAULT_BOUNDS;
    let mut bnds = vec![def; h];
    if how > 0 {
        let lo: Vec<f64> = (0..h).map(|_| g.logf(1e-3, 1.)).collect();
        let b: Vec<(f64, f64)> = lo.iter().map(|l| (*l, l * g.logf(2., 100.))).collect();
        if how == 1 {
            bnds = vec![b[0]; h];
            s.tbounds = Some(b[..1].to_vec());
        } else {
            bnds = b.clone();
            s.tbounds = Some(b);
        }
        let th: Vec<f64> = bnds.iter().map(|(l, u)| (l * u).sqrt()).collect();
        s.theta = Some(if how == 1 { th[..1].to_vec() } else { th });
    }
    if g.chance(30) {
        s.gp_eval = Some(g.us(20, 40));
    }
    let dir = crate::c11::Scratch::new("x");
    let ds = dir.dir();
    let job = Job { scn: s.clone(), ctl: Ctl { outdir: Some(ds.clone()), ..Ctl::default() }, fsize: None, ignore_xfsz: false };
    let Some(done) = spawn(&job, &[("EGOR_USE_GP_RECORDER", "1"), ("EGOR_USE_RUN_RECORDER", "1"), ("EGOBOX_LOG", "off")]) else {
        return fail("child", "the run did not finish".into());
    };
    let out = match &done.out {
        Ok(o) => o,
        Err(e) => return s.refused(e),
    };
    let n0 = s.n_init();
    let told = s.doe == Doe::Xy;
    let sizes: Vec<usize> = done.calls.iter().skip(!told as usize).map(|c| c.0.len()).collect();
    if n0 + sizes.iter().sum::<usize>() != out.x.len() {
        return discard("duplicate");
    }
    let conv = out.status.contains("SolverConverged");
    g.label(if conv { "converged" } else { "limit" });
    g.nontrivial();

    // the recorded run
    let path = format!("{ds}/egor_run.json");
    let v: serde_json::Value = match std::fs::read_to_string(&path).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => return fail("run-file", e),
    };
    let pm = &v["problem_metadata"];
    let lims = ref_limits(&s.t);
    let fl = |v: &serde_json::Value| -> Vec<f64> { v.as_array().map(|a| a.iter().map(|v| v.as_f64().unwrap_or(f64::NAN)).collect()).unwrap_or_default() };
    ensure!(pm["dimensionality"].as_u64() == Some(d as u64), "run-dim", "{} instead of {d}", pm["dimensionality"]);
    ensure!(
        fl(&pm["lower_bounds"]) == lims.iter().map(|l| l.0).collect::<Vec<_>>() && fl(&pm["upper_bounds"]) == lims.iter().map(|l| l.1).collect::<Vec<_>>(),
        "run-bounds",
        "{pm} instead of {lims:?}"
    );
    let ap = &v["algorithm_parameters"];
    let kernel = ["Squared Exponential", "Absolute Exponential", "Matern 3/2", "Matern 5/2"][s.corr];
    let want = serde_json::json!({
        "acquisition_function": STRAT[s.strat],
        "kernel": kernel,
        "initial_samples": n0, "total_samples": out.x.len(), "batch_size": s.q, "seed": s.seed as i32,
        "BO_iterations": sizes.len(),
    });
    for (k, w) in want.as_object().unwrap() {
        if k == "BO_iterations" && conv {
            continue;
        }
        ensure!(&ap[k] == w, "run-parameters", "{k} is {} instead of {w}", ap[k]);
    }
    // rows of the history
    let same = |e: &serde_json::Value, i: usize| -> bool {
        let x = fl(&e["locations"]);
        let f = match ref_cast(&s.t, &x) {
            Some(f) => f,
            // ambiguous: a tie
            None => return x.len() == d && e["evaluations"].as_f64() == Some(out.y[i][0]),
        };
        f == out.x[i] && e["evaluations"].as_f64() == Some(out.y[i][0])
    };
    let init = v["initial_samples"]["sampled_locations"].as_array().cloned().unwrap_or_default();
    ensure!(init.len() == n0, "run-initial", "{} initial points recorded for {n0}", init.len());
    for (i, e) in init.iter().enumerate() {
        ensure!(same(e, i) && e["iterations"].as_u64() == Some(i as u64 + 1), "run-initial", "initial point {i} is {:?} -> {:?}, recorded {e}", out.x[i], out.y[i]);
    }
    let its = v["search_iterations"].as_array().cloned().unwrap_or_default();
    // the last iteration of a converged run adds nothing
    let empty = its.last().is_some_and(|l| l["batch_size"].as_u64() == Some(0) && l["sampled_locations"].as_array().is_some_and(|a| a.is_empty()));
    let its = if conv && empty { its[..its.len() - 1].to_vec() } else { its };
    ensure!(its.len() == sizes.len(), "run-iterations", "{} iterations recorded for {}", its.len(), sizes.len());
    let mut at = n0;
    for (i, (e, n)) in its.iter().zip(&sizes).enumerate() {
        let l = e["sampled_locations"].as_array().cloned().unwrap_or_default();
        ensure!(
            e["iterations"].as_u64() == Some(i as u64 + 1) && e["batch_size"].as_u64() == Some(*n as u64) && l.len() == *n,
            "run-iteration",
            "iteration {i} adds {n} points, recorded {e}"
        );
        for (k, p) in l.iter().enumerate() {
            ensure!(same(p, at + k), "run-iteration", "iteration {i} point {k} is {:?} -> {:?}, recorded {p}", out.x[at + k], out.y[at + k]);
        }
        at += n;
    }

    // the recorded surrogates
    let mut first: Option<Vec<Vec<Vec<f64>>>> = None;
    for (w, file) in ["egor_initial_gp.bin", "egor_gp.bin"].iter().enumerate() {
        let path = format!("{ds}/{file}");
        if w == 1 && sizes.len() < 2 {
            if !conv {
                ensure!(!std::path::Path::new(&path).exists(), "gp-file", "{file} written by a run of one iteration");
            }
            continue;
        }
        let m = match load(&path) {
            Ok(m) => m,
            Err(e) => return fail("gp-load", e),
        };
        ensure!(m.len() == 1 + s.n_cstr, "gp-number", "{} surrogates recorded for {} outputs", m.len(), 1 + s.n_cstr);
        let mut thetas = vec![];
        for (o, m) in m.iter().enumerate() {
            ensure!(m.dims() == (d, 1), "gp-dims", "surrogate of output {o}: dims {:?} in a space of {d}", m.dims());
            let k = m.n_clusters();
            ensure!(if s.clusters == 0 { k <= 3 } else { k == s.clusters }, "gp-clusters", "{k} clusters for {} asked", s.clusters);
            if k > 1 && s.clusters > 0 {
                let hard = matches!(m.recombination(), Recombination::Hard);
                ensure!(hard != s.smooth, "gp-recombination", "{} while smooth is {}", m.recombination(), s.smooth);
            }
            let mut th = vec![];
            for e in m.experts() {
                let n = e.to_string();
                ensure!(n.contains(KNAMES[s.corr]) && n.contains(RNAMES[s.regr]), "gp-models", "{n} for {} {}", RNAMES[s.regr], KNAMES[s.corr]);
                let t = e.theta().to_vec();
                ensure!(t.len() == h, "gp-theta", "{} hyperparameters for {h}", t.len());
                for (t, b) in t.iter().zip(&bnds) {
                    ensure!(*t >= b.0 * (1. - 1e-9) && *t <= b.1 * (1. + 1e-9), "gp-bounds", "hyperparameters {:?} of output {o} out of bounds {bnds:?}", e.theta());
                }
                th.push(t);
            }
            thetas.push(th);
        }
        // trained on what was known: compare with surrogates of the same hyperparameters
        let n = if w == 0 { n0 } else { out.x.len() - sizes.last().unwrap() };
        if s.clusters == 1 && s.q == 1 && !conv && s.kpls.is_none() {
            let xr = Array2::from_shape_fn((n, d), |(i, j)| unfold(&s.t, &out.x[i])[j]);
            for (o, m) in m.iter().enumerate() {
                let y = Array1::from_iter((0..n).map(|i| out.y[i][o]));
                let (lo, hi) = y.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |a, v| (a.0.min(*v), a.1.max(*v)));
                let Ok(r) = surrogate(&s, &thetas[o][0], &xr, &y) else { continue };
                let q = {
                    let rows: Vec<Vec<f64>> = (0..6).map(|_| unfold(&s.t, &gen_folded(g, &s.t))).collect();
                    Array2::from_shape_fn((6, d), |(i, j)| rows[i][j])
                };
                let (Ok((a, va)), Ok((b, vb))) = (m.predict_valvar(&q.view()), r.predict_valvar(&q.view())) else { return fail("gp-predict", "prediction failed".into()) };
                let sc = hi - lo + 1e-12 * hi.abs().max(lo.abs());
                for i in 0..6 {
                    ensure!(
                        (a[i] - b[i]).abs() <= 1e-6 * sc && (va[i] - vb[i]).abs() <= 1e-6 * sc * sc,
                        "gp-data",
                        "{file}: surrogate of output {o} predicts {:?} var {:?} at {:?}; trained on the {n} first points with its hyperparameters {:?} it predicts {:?} var {:?}",
                        a[i],
                        va[i],
                        q.row(i),
                        thetas[o],
                        b[i],
                        vb[i]
                    );
                }
                // tuned: no worse than the initial guess
                if w == 0 && s.coego == 0 {
                    let guess = s.theta.clone().unwrap_or(ThetaTuning::<f64>::default().init().to_vec());
                    let guess: Vec<f64> = if guess.len() == 1 { vec![guess[0]; h] } else { guess };
                    if let Ok(gs) = surrogate(&s, &guess, &xr, &y) {
                        let (l, lg) = (m.experts()[0].likelihood(), gs.experts()[0].likelihood());
                        ensure!(!(l < lg - 1e-6 * (1. + lg.abs())), "gp-tuning", "likelihood of output {o} is {l} at {:?}, {lg} at the guess {guess:?}", thetas[o]);
                    }
                }
            }
            g.label("retrained");
        }
        if w == 0 {
            first = Some(thetas);
        } else if s.q == 1 && s.coego == 0 && s.clusters == 1 && !conv && !(sizes.len() - 1).is_multiple_of(s.optmod) {
            // hyperparameters are only optimized every optmod iterations
            ensure!(Some(&thetas) == first.as_ref(), "gp-optmod", "hyperparameters {thetas:?} instead of {first:?} although they are tuned every {} iterations only ({} run)", s.optmod, sizes.len());
            g.label("reused");
        }
    }
    Ok(())
}

pub fn prop29() -> Prop {
    Prop {
        id: "C29",
        level: "exploration",
        rule: "choice: eight optimization problems sharing criterion, optimizer, constraint kind, kernel and batch strategy, hyperparameters known in advance (bounds of relative width 1e-4); each chosen point is compared, on surrogates rebuilt by the check, with 300 random points of the domain; counted when four choices at least could be judged. recorded: an optimization in another process with both recorders on; its files are compared with the evaluations of the objective, with the configuration, and with surrogates rebuilt from the history; counted when the run was completed",
        assumptions: &[
            "the infill search is a heuristic: a choice is poor when more than 20% of the feasible points are better (35% with CoEGO, which only looks for partial optima), and a violation when half of the choices at least (5 or more) of a case are poor",
            "feasibility of choices is only judged with SLSQP: COBYLA stops at infeasible points in about a sixth of constrained cases",
            "hyperparameters reused between two optimizations are those of the first training",
        ],
        subs: vec![
            Sub { name: "choice", quick: 400, thorough: 8000, jobs: 4, f: choice },
            Sub { name: "recorded", quick: 300, thorough: 6000, jobs: 6, f: recorded },
        ],
    }
}
