//! C23-C26: reproducibility, hot start, files, ask and tell
use crate::c11::Scratch;
use crate::c16::*;
use crate::egorun::*;
use crate::ensure;
use crate::fw::*;
use egobox_doe::{Lhs, LhsKind, Random, SamplingMethod};
use egobox_ego::*;
use egobox_gp::ThetaTuning;
use egobox_moe::{GpMixture, MixtureGpSurrogate, NbClusters, Recombination};
use linfa::traits::Fit;
use ndarray::{Array1, Array2, Axis, concatenate};
use ndarray_npy::read_npy;
use ndarray_rand::rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use std::result::Result;

fn pool<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap().install(f)
}

fn out(s: &Scn, ctl: &Ctl) -> (Result<Out, String>, Log) {
    let (r, l) = s.run(ctl);
    (r.map(|r| Out::of(&r)), l)
}

/// both fail alike or both give the same
fn same(g: &mut G, s: &Scn, a: &Result<Out, String>, b: &Result<Out, String>, sig: &str, what: &str) -> R {
    match (a, b) {
        (Ok(a), Ok(b)) => match a.diff(b) {
            None => Ok(()),
            Some(m) => fail(sig, format!("{what}: {m}")),
        },
        (Err(e), Err(_)) => {
            g.label("both refused");
            s.refused(e)
        }
        (a, b) => fail(sig, format!("{what}: one run completes, the other does not: {:?} / {:?}", a.as_ref().err(), b.as_ref().err())),
    }
}

// ------------------------------------------------------------------------------------ C23

fn repeat(g: &mut G) -> R {
    let s = gen_scn(g, &Opts { iters: (1, 4), clusters: 25, ..OPTS });
    if s.clusters != 1 {
        g.label(if s.clusters == 0 { "auto clusters" } else { "clusters" });
    }
    let n1 = g.us(1, 8);
    let n2 = g.us(1, 8);
    let (a, la) = pool(n1, || out(&s, &Ctl::default()));
    let (b, lb) = pool(n2, || out(&s, &Ctl::default()));
    g.evals += la.rows() as u64 + lb.rows() as u64;
    g.label(format!("threads {n1}"));
    g.label(format!("threads {n2}"));
    if n1 != n2 {
        g.nontrivial();
    }
    same(g, &s, &a, &b, "run", &format!("{n1} and {n2} threads"))?;
    ensure!(la.calls == lb.calls, "calls", "objective calls differ");
    // another seed draws other designs
    if matches!(s.doe, Doe::Auto | Doe::N(_)) && s.t.iter().any(|t| matches!(t, XType::Float(..))) {
        let mut s2 = s.clone();
        s2.seed = s.seed.wrapping_add(1 + g.us(0, 1000) as u64);
        s2.max_iters = 0;
        if let (Ok(a), (Ok(b), _)) = (&a, out(&s2, &Ctl::default())) {
            ensure!(a.x[..s.n_init()] != b.x[..], "seed-ignored", "same initial design with seeds {} and {}", s.seed, s2.seed);
        }
    }
    Ok(())
}

fn process(g: &mut G) -> R {
    let s = gen_scn(g, &Opts { iters: (1, 3), ..OPTS });
    let n1 = g.us(1, 8).to_string();
    let n2 = g.us(1, 8).to_string();
    let portfolio = g.chance(40);
    let proba = g.chance(20);
    let mut env = vec![];
    if portfolio {
        env.push(("EGOR_USE_GP_VAR_PORTFOLIO", "1"));
    }
    if proba {
        env.push(("EGOR_USE_MAX_PROBA_OF_FEASIBILITY", "1"));
    }
    let job = Job { scn: s.clone(), ctl: Ctl::default(), fsize: None, ignore_xfsz: false };
    let mut e1 = env.clone();
    e1.push(("RAYON_NUM_THREADS", &n1));
    let mut e2 = env.clone();
    e2.push(("RAYON_NUM_THREADS", &n2));
    let (a, b) = match (spawn(&job, &e1), spawn(&job, &e2)) {
        (Some(a), Some(b)) => (a, b),
        (a, b) => return fail("process", format!("child processes finished: {} {}", a.is_some(), b.is_some())),
    };
    g.evals += (a.calls.len() + b.calls.len()) as u64;
    g.nontrivial();
    g.label(if portfolio { "portfolio" } else { "default" });
    same(g, &s, &a.out, &b.out, "process", &format!("two processes with {n1} and {n2} threads, portfolio {portfolio}"))?;
    ensure!(a.calls == b.calls, "process", "objective calls differ");
    if !portfolio && !proba {
        let (c, _) = out(&s, &Ctl::default());
        same(g, &s, &a.out, &c, "process", "child process and this one")?;
    }
    Ok(())
}

fn suggest_rep(g: &mut G) -> R {
    let s = gen_scn(g, &Opts { iters: (0, 0), fcstr: 0, user_doe: 100, ..OPTS });
    let x = s.doe_folded();
    let x = Array2::from_shape_fn((x.len(), s.t.len()), |(i, j)| x[i][j]);
    let y = s.objs(&x.view());
    let (n1, n2) = (g.us(1, 8), g.us(1, 8));
    let a = pool(n1, || s.suggest(&x, &y));
    let b = pool(n2, || s.suggest(&x, &y));
    if n1 != n2 {
        g.nontrivial();
    }
    match (a, b) {
        (Ok(a), Ok(b)) => ensure!(a == b, "suggest", "{n1} threads: {a:?}, {n2} threads: {b:?}"),
        (Err(e), Err(_)) => return s.refused(&e),
        (a, b) => return fail("suggest", format!("{a:?} / {b:?}")),
    }
    Ok(())
}

fn train_rep(g: &mut G) -> R {
    let n = g.us(10, 60);
    let d = g.us(1, 3);
    let mut x = Array2::from_shape_fn((n, d), |_| g.f(-2., 2.));
    let w: Vec<f64> = (0..d).map(|_| g.f(0.5, 3.)).collect();
    let jump = g.f(0., 4.);
    if g.chance(20) {
        x.mapv_inplace(|v| (v * 8.).round() / 8.);
    }
    let y: Array1<f64> = x.outer_iter().map(|r| r.iter().zip(&w).map(|(x, w)| (w * x).sin()).sum::<f64>() + if r[0] > 0. { jump } else { 0. }).collect();
    let k = g.us(0, 4);
    let nb = if k == 0 { NbClusters::auto() } else { NbClusters::fixed(k) };
    let (rs, cs) = (g.us(0, 2), g.us(0, 4));
    let rec = if g.chance(50) { Recombination::Hard } else { Recombination::Smooth(if g.chance(50) { None } else { Some(1.) }) };
    let seed = g.seed();
    let ns = g.us(1, 4);
    use egobox_moe::{CorrelationSpec as C, RegressionSpec as Rg};
    let rs = [Rg::CONSTANT, Rg::LINEAR, Rg::CONSTANT | Rg::LINEAR][rs];
    let cs = [C::SQUAREDEXPONENTIAL, C::MATERN52, C::MATERN32, C::ABSOLUTEEXPONENTIAL, C::ALL][cs];
    let q = Array2::from_shape_fn((5, d), |_| g.f(-2., 2.));
    g.note("training", (n, d, k, &seed, ns));
    let fit = || -> Result<(Array1<f64>, Array1<f64>, Vec<Vec<f64>>), String> {
        let ds = linfa::Dataset::new(x.clone(), y.clone());
        let r = no_panic(|| {
            let m = GpMixture::params()
                .n_clusters(nb.clone())
                .regression_spec(rs)
                .correlation_spec(cs)
                .recombination(rec)
                .n_start(ns)
                .with_rng(Xoshiro256Plus::seed_from_u64(seed))
                .fit(&ds)
                .map_err(|e| format!("{e}"))?;
            let p = m.predict(&q.view()).map_err(|e| format!("{e}"))?;
            let v = m.predict_var(&q.view()).map_err(|e| format!("{e}"))?;
            Ok((p, v, m.experts().iter().map(|e| e.theta().to_vec()).collect()))
        });
        match r {
            Ok(r) => r,
            Err(e) => Err(format!("panic {e}")),
        }
    };
    let (n1, n2) = (g.us(1, 8), g.us(1, 8));
    let a = pool(n1, fit);
    let b = pool(n2, fit);
    if n1 != n2 {
        g.nontrivial();
    }
    g.label(if k == 0 { "auto clusters" } else { "fixed clusters" });
    match (a, b) {
        (Ok(a), Ok(b)) => ensure!(a == b, "train", "{n1} threads {a:?}, {n2} threads {b:?}"),
        (Err(a), Err(_)) => return discard(if a.starts_with("panic") { "training panicked" } else { "training refused" }),
        (a, b) => return fail("train", format!("{a:?} / {b:?}")),
    }
    let _ = ThetaTuning::<f64>::default();
    Ok(())
}

fn design_rep(g: &mut G) -> R {
    let d = g.us(1, 5);
    let n = g.us(1, 30);
    let lims = Array2::from_shape_fn((d, 2), |(_, j)| j as f64 * 3. - 1.);
    let seed = g.seed();
    let k = g.us(0, 5);
    let gen_with = |seed: u64| -> Array2<f64> {
        let r = Xoshiro256Plus::seed_from_u64(seed);
        match k {
            5 => Random::new(&lims).with_rng(r).sample(n),
            k => Lhs::new(&lims)
                .kind([LhsKind::Classic, LhsKind::Centered, LhsKind::Maximin, LhsKind::CenteredMaximin, LhsKind::Optimized][k])
                .with_rng(r)
                .sample(n),
        }
    };
    let (n1, n2) = (g.us(1, 8), g.us(1, 8));
    let a = pool(n1, || gen_with(seed));
    let b = pool(n2, || gen_with(seed));
    if n1 != n2 && n > 1 {
        g.nontrivial();
    }
    ensure!(a == b, "design", "{n1} threads {a:?}, {n2} threads {b:?}");
    if n * d > 1 && !matches!(k, 1 | 3) {
        let c = gen_with(seed.wrapping_add(1));
        ensure!(a != c, "design-seed", "same design with seeds {seed} and the next one");
    }
    Ok(())
}

pub fn prop23() -> Prop {
    Prop {
        id: "C23",
        level: "exploration",
        rule: "the compared executions have different numbers of threads or are different processes",
        assumptions: &["schedules are those induced by pools of 1 to 8 threads on this machine", "objective functions are deterministic"],
        subs: vec![
            Sub { name: "run", quick: 350, thorough: 8000, jobs: 4, f: repeat },
            Sub { name: "process", quick: 120, thorough: 3000, jobs: 4, f: process },
            Sub { name: "suggest", quick: 300, thorough: 6000, jobs: 4, f: suggest_rep },
            Sub { name: "train", quick: 200, thorough: 4000, jobs: 4, f: train_rep },
            Sub { name: "design", quick: 600, thorough: 20000, jobs: 4, f: design_rep },
        ],
    }
}

// ------------------------------------------------------------------------------------ C24

/// number of objective calls before the first iteration
fn init_calls(s: &Scn) -> usize {
    (s.doe != Doe::Xy) as usize
}

fn hot(dir: &Scratch) -> Ctl {
    Ctl { outdir: Some(dir.dir()), hot: Some(0), ..Ctl::default() }
}

fn extend(g: &mut G) -> R {
    let s = gen_scn(g, &Opts { iters: (1, 3), ..OPTS });
    let exts: Vec<u64> = (0..g.us(1, 2)).map(|_| g.us(1, 3) as u64).collect();
    g.note("extensions", &exts);
    let total = s.max_iters + exts.iter().sum::<u64>() as usize;
    let (full, lf) = out(&s, &Ctl { max_iters: Some(total), ..Ctl::default() });
    let full = match full {
        Ok(f) => f,
        Err(e) => return s.refused(&e),
    };
    let dir = Scratch::new("d");
    let (first, mut calls) = {
        let (r, l) = out(&s, &hot(&dir));
        match r {
            Ok(r) => (r, l.calls),
            Err(e) => return s.refused(&e),
        }
    };
    g.evals += lf.rows() as u64;
    g.nontrivial();
    let n = first.x.len();
    ensure!(full.x.len() >= n && full.x[..n] == first.x[..] && full.y[..n] == first.y[..], "prefix", "with checkpoints: {:?}, without: {:?}", first.x, full.x);
    // started again: nothing left to do
    if g.chance(30) {
        let (r, l) = out(&s, &hot(&dir));
        ensure!(l.calls.is_empty(), "finished", "a finished run evaluates again {:?}", l.xs());
        match r {
            Ok(r) => {
                if let Some(m) = first.diff(&r) {
                    return fail("finished", m);
                }
            }
            Err(e) => return fail("finished", e),
        }
    }
    let mut last = first;
    for (k, e) in exts.iter().enumerate() {
        let (r, l) = out(&s, &Ctl { hot: Some(*e), ..hot(&dir) });
        calls.extend(l.calls);
        let r = match r {
            Ok(r) => r,
            Err(m) => return fail("extend", format!("extension {k} by {e}: {m}")),
        };
        if !last.status.contains("SolverConverged") && !r.status.contains("SolverConverged") {
            ensure!(r.iter == last.iter + e, "extension", "extended by {e} iterations: from {} to {}", last.iter, r.iter);
        } else {
            g.label("converged");
        }
        last = r;
    }
    if let Some(m) = full.diff(&last) {
        // a run stopped by its limit keeps it in its status only
        return fail("extend", format!("uninterrupted / extended: {m}"));
    }
    ensure!(calls == lf.calls, "calls", "objective calls differ from an uninterrupted run: {} / {}", calls.len(), lf.calls.len());
    Ok(())
}

fn killed(g: &mut G) -> R {
    let s = gen_scn(g, &Opts { iters: (1, 5), target: 15, ..OPTS });
    let (full, lf) = out(&s, &Ctl::default());
    let full = match full {
        Ok(f) => f,
        Err(e) => return s.refused(&e),
    };
    g.evals += lf.rows() as u64;
    let ncalls = lf.calls.len();
    if ncalls == 0 {
        return discard("nothing to evaluate");
    }
    let dir = Scratch::new("d");
    let i0 = init_calls(&s);
    // dies once or twice while evaluating, then completes
    let mut done = 0; // iterations in the checkpoint
    let deaths = g.us(1, 2);
    for k in 0..deaths {
        // calls already made by the completed iterations
        let from = if done == 0 { 0 } else { i0 + done };
        if from >= ncalls {
            break;
        }
        let at = g.us(from, ncalls - 1);
        g.note(&format!("death {k} at call"), at);
        let (r, l) = out(&s, &Ctl { die_at: Some(at - from), ..hot(&dir) });
        match r {
            Err(e) if e.contains("planned death") => {}
            r => return fail("death", format!("run survived: {r:?}")),
        }
        ensure!(l.calls[..] == lf.calls[from..at], "resumed", "resumed after {done} iterations, evaluations differ from those of an uninterrupted run");
        done = done.max(at.saturating_sub(i0));
        if at > i0 {
            g.nontrivial();
        }
    }
    let from = if done == 0 { 0 } else { i0 + done };
    let (r, l) = out(&s, &hot(&dir));
    ensure!(l.calls[..] == lf.calls[from..], "resumed", "resumed after {done} iterations: evaluates {:?}, expected {:?}", l.xs(), &lf.calls[from..]);
    match r {
        Ok(r) => match full.diff(&r) {
            None => Ok(()),
            Some(m) => fail("killed", format!("uninterrupted / resumed after {done} iterations: {m}")),
        },
        Err(e) => fail("killed", format!("cannot be resumed after {done} iterations: {e}")),
    }
}

fn write(g: &mut G) -> R {
    let s = gen_scn(g, &Opts { iters: (2, 4), ..OPTS });
    let d0 = Scratch::new("d");
    let (full, lf) = out(&s, &hot(&d0));
    let full = match full {
        Ok(f) => f,
        Err(e) => return s.refused(&e),
    };
    let size = |d: &Scratch, f: &str| std::fs::metadata(std::path::Path::new(&d.dir()).join(f)).map(|m| m.len()).unwrap_or(0);
    let top = size(&d0, CHECKPOINT_FILE);
    g.evals += lf.rows() as u64;
    // the process ends when a file gets longer: mostly in the middle of a checkpoint
    let lim = if g.chance(70) { top - g.us(1, (top / 10) as usize) as u64 } else { g.us(0, top as usize) as u64 };
    let ignore_xfsz = g.chance(40);
    g.note("file size limit", (lim, top));
    let dir = Scratch::new("d");
    let j = Job { scn: s.clone(), ctl: hot(&dir), fsize: Some(lim), ignore_xfsz };
    let c = spawn(&j, &[("RAYON_NUM_THREADS", "2")]);
    let had = size(&dir, CHECKPOINT_FILE) > 0;
    match &c {
        None => g.label("killed"),
        Some(d) if d.out.is_err() => g.label("write error"),
        _ => g.label("completed"),
    }
    if had && !matches!(&c, Some(d) if d.out.is_ok()) {
        g.nontrivial();
        g.label("interrupted after a checkpoint");
    }
    let (r, l) = out(&s, &hot(&dir));
    match r {
        Ok(r) => {
            if let Some(m) = full.diff(&r) {
                return fail("write", format!("uninterrupted / resumed: {m}"));
            }
        }
        Err(e) => return fail("write", format!("cannot be resumed: {e}")),
    }
    // what a checkpoint recorded is not evaluated again
    if had {
        ensure!(l.calls.len() < lf.calls.len() && lf.calls.ends_with(&l.calls), "repeated", "{} calls of {} made again", l.calls.len(), lf.calls.len());
    }
    Ok(())
}

pub fn prop24() -> Prop {
    Prop {
        id: "C24",
        level: "exploration",
        rule: "the run was interrupted after at least one checkpoint (killed, write), or extended (extend)",
        assumptions: &[
            "crash points: inside an objective evaluation, or at any byte of a file being written",
            "serde_json reads floats exactly (feature float_roundtrip, enabled by the harness): without it a reloaded value may differ in its last digit",
        ],
        subs: vec![
            Sub { name: "extend", quick: 250, thorough: 5000, jobs: 4, f: extend },
            Sub { name: "killed", quick: 300, thorough: 6000, jobs: 4, f: killed },
            Sub { name: "write", quick: 150, thorough: 3000, jobs: 4, f: write },
        ],
    }
}

// ------------------------------------------------------------------------------------ C25

fn npy(dir: &Scratch, f: &str) -> Result<Array2<f64>, Stop> {
    match read_npy(std::path::Path::new(&dir.dir()).join(f)) {
        Ok(a) => Ok(a),
        Err(e) => fail("file", format!("{f}: {e}")),
    }
}

fn files(g: &mut G) -> R {
    let s = gen_scn(g, &Opts { iters: (0, 4), ..OPTS });
    let dir = Scratch::new("d");
    let hot = if g.chance(20) { Some(0) } else { None };
    let ctl = Ctl { outdir: Some(dir.dir()), hot, ..Ctl::default() };
    let (r, log) = s.run(&ctl);
    g.evals += log.rows() as u64;
    let r = match r {
        Ok(r) => r,
        Err(e) => return s.refused(&e),
    };
    let (xd, yd, cd) = r.state.data.clone().unwrap();
    let n0 = s.n_init();
    let iters = r.state.iter as usize;
    if iters > 0 {
        g.nontrivial();
    }
    g.label(if s.cont { "continuous" } else { "mixed" });
    // designs, in the layout of the optimizer: what they decode to is what was evaluated
    let u = xd.ncols();
    ensure!(u == ref_limits(&s.t).len(), "layout", "{u} columns");
    let mut xf = vec![];
    let mut known = false;
    for (i, x) in xd.outer_iter().enumerate() {
        let want = r.x_doe.row(i).to_vec();
        let dec = match ref_cast(&s.t, &x.to_vec()) {
            Some(d) => d,
            // two levels with the same weight
            None => want.clone(),
        };
        // an enum placed after another one is decoded otherwise: known finding of C16
        if enum_after_enum(&s.t) && dec != want {
            known = true;
        } else {
            ensure!(dec == want, "decode", "row {i} {x:?} decodes to {dec:?}, history has {want:?}");
        }
        xf.push(want);
    }
    if known {
        g.label("enum after enum");
    }
    let init = npy(&dir, "egor_initial_doe.npy")?;
    let want = concatenate![Axis(1), xd, yd];
    ensure!(init.nrows() == n0 && init == want.slice(ndarray::s![..n0, ..]), "initial", "saved initial design {init:?}, history {want:?}");
    // evaluated points are those of the files
    let ev = log.xs();
    let told = if s.doe == Doe::Xy { n0 } else { 0 };
    if !s.trego {
        ensure!(ev[..] == xf[told..], "evaluated", "evaluated {ev:?} history {xf:?}");
    }
    for (i, x) in xf.iter().enumerate() {
        let f: Vec<f64> = s.fs.iter().map(|f| f.val(x)).collect();
        ensure!(yd.row(i).to_vec() == f, "outputs", "row {i}: outputs {:?}, objective {f:?}", yd.row(i));
    }
    let doe = std::path::Path::new(&dir.dir()).join("egor_doe.npy");
    if iters > 0 {
        let doe = npy(&dir, "egor_doe.npy")?;
        let want = concatenate![Axis(1), xd, yd, cd];
        ensure!(doe == want, "design", "saved design {doe:?}, history {want:?}");
        let hist = npy(&dir, "egor_history.npy")?;
        let ny = yd.ncols();
        ensure!(hist.dim() == (iters, ny + u), "history", "{:?} for {iters} iterations", hist.dim());
        // row i: best so far after iteration i
        let mut last: Option<usize> = None;
        for (i, h) in hist.outer_iter().enumerate() {
            let (y, x) = (h.slice(ndarray::s![..ny]), h.slice(ndarray::s![ny..]));
            let k = (0..xd.nrows()).find(|k| xd.row(*k) == x && yd.row(*k) == y);
            let k = match k {
                Some(k) => k,
                None => return fail("history", format!("row {i} {h:?} is not a point of the history")),
            };
            ensure!(k < n0 + (i + 1) * s.q, "history", "row {i} is point {k}, not yet evaluated");
            let row = |k: usize| -> Vec<f64> { yd.row(k).iter().chain(cd.row(k).iter()).cloned().collect() };
            let tol = s.tolerances();
            if let Some(l) = last {
                let (vl, vk) = (crate::c20::violation(&row(l)[1..], &tol), crate::c20::violation(&row(k)[1..], &tol));
                let worse = vk > vl * (1. + 1e-12) || vl == 0. && vk == 0. && yd[[k, 0]] > yd[[l, 0]];
                ensure!(!worse, "history", "best after iteration {i} (point {k}) is worse than the one before (point {l})");
            }
            last = Some(k);
        }
        ensure!(last.is_none() || last.map(|l| (xd.row(l), yd.row(l))) == r.state.best_index.map(|l| (xd.row(l), yd.row(l))), "history", "last best is point {last:?} / {:?}", r.state.best_index);
    } else {
        ensure!(!doe.exists(), "design", "a final design without iterations");
    }
    // saved configuration
    let cfg = std::fs::read_to_string(std::path::Path::new(&dir.dir()).join("egor_config.json")).unwrap_or_default();
    let (a, l2) = s.run(&Ctl { saved: Some(cfg), ..Ctl::default() });
    match a {
        Ok(a) => {
            if let Some(m) = Out::of(&r).diff(&Out::of(&a)) {
                return fail("config", format!("original / saved configuration: {m}"));
            }
            ensure!(l2.calls == log.calls, "config", "objective calls differ with the saved configuration");
        }
        Err(e) => return fail("config", e),
    }
    Ok(())
}

fn warm(g: &mut G) -> R {
    let s = gen_scn(g, &Opts { iters: (0, 3), ..OPTS });
    let dir = Scratch::new("d");
    let ctl = Ctl { outdir: Some(dir.dir()), ..Ctl::default() };
    let (r, log) = s.run(&ctl);
    let r = match r {
        Ok(r) => r,
        Err(e) => return s.refused(&e),
    };
    g.evals += log.rows() as u64;
    let mut n = r.x_doe.nrows();
    let mut x0 = rows(&r.x_doe);
    let mut y0 = rows(&r.y_doe);
    // once or twice; other settings may change
    for k in 0..g.us(1, 2) {
        let mut s2 = s.clone();
        s2.max_iters = g.us(0, 3);
        if g.chance(50) {
            s2.seed = g.seed();
        }
        if g.chance(30) {
            s2.strat = g.us(0, 3);
        }
        let (r2, l2) = s2.run(&Ctl { warm: true, no_doe: g.chance(30), ..ctl.clone() });
        let r2 = match r2 {
            Ok(r) => r,
            Err(e) => return s2.refused(&e),
        };
        g.nontrivial();
        let (x2, y2) = (rows(&r2.x_doe), rows(&r2.y_doe));
        ensure!(x2.len() >= n && x2[..n] == x0[..] && y2[..n] == y0[..], "head", "warm start {k}: recorded {x0:?} {y0:?}, history {x2:?} {y2:?}");
        ensure!(l2.calls.len() <= s2.max_iters, "again", "warm start {k}: {} objective calls for {} iterations", l2.calls.len(), s2.max_iters);
        let ev = l2.xs();
        if !s.trego {
            ensure!(ev[..] == x2[n..], "evaluated", "warm start {k}: evaluates {ev:?}, adds {:?}", &x2[n..]);
        }
        if let Some((a, _)) = npy(&dir, "egor_initial_doe.npy").map(|a| (a.clone(), a.nrows())).ok() {
            ensure!(a.nrows() == n, "initial", "warm start {k}: initial design of {} points saved instead of {n}", a.nrows());
        }
        n = x2.len();
        x0 = x2;
        y0 = y2;
        if s2.max_iters == 0 {
            // the next one starts from the initial design of this one
            g.label("no iteration");
        }
    }
    Ok(())
}

pub fn prop25() -> Prop {
    Prop {
        id: "C25",
        level: "exploration",
        rule: "at least one iteration (files), a completed warm start (warm)",
        assumptions: &["designs are saved in the relaxed layout of the optimizer (one column per enum level)"],
        subs: vec![
            Sub { name: "files", quick: 400, thorough: 8000, jobs: 4, f: files },
            Sub { name: "warm", quick: 300, thorough: 6000, jobs: 4, f: warm },
        ],
    }
}

// ------------------------------------------------------------------------------------ C26

fn arr(x: &[Vec<f64>], d: usize) -> Array2<f64> {
    Array2::from_shape_fn((x.len(), d), |(i, j)| x[i][j])
}

fn ask(g: &mut G) -> R {
    let s = gen_scn(g, &Opts { iters: (1, 1), fcstr: 0, user_doe: 100, qmax: 4, trego: 10, ..OPTS });
    let mut s = s;
    s.doe = Doe::Xy;
    let x = arr(&s.doe_folded(), s.t.len());
    let y = s.objs(&x.view());
    let (x0, y0) = (x.clone(), y.clone());
    let a = match s.suggest(&x, &y) {
        Ok(a) => a,
        Err(e) => return s.refused(&e),
    };
    g.evals += 2;
    ensure!(x == x0 && y == y0, "modified", "data given were modified");
    ensure!(a.dim() == (s.q, s.t.len()), "shape", "{:?} for {} points in dimension {}", a.dim(), s.q, s.t.len());
    for r in rows(&a) {
        if let Some(m) = invalid(&s.t, &r) {
            return fail("invalid", m);
        }
    }
    // other questions in between do not matter
    let n = x.nrows();
    let m = g.us(n.saturating_sub(2).max(2), n);
    if s.clusters == 1 {
        s.suggest(&x.slice(ndarray::s![..m, ..]).to_owned(), &y.slice(ndarray::s![..m, ..]).to_owned()).ok();
    }
    let b = s.suggest(&x, &y);
    ensure!(b.as_ref().ok() == Some(&a), "stateful", "{a:?} then {b:?}");
    // what the optimizer itself evaluates next
    if s.coego > 0 {
        g.label("coego");
        return Ok(());
    }
    let (r, log) = s.run(&Ctl::default());
    if let Err(e) = r {
        return s.refused(&e);
    }
    g.nontrivial();
    g.label(if s.cont { "continuous" } else { "mixed" });
    let sug = rows(&a);
    let told = rows(&x);
    let near = |p: &Vec<f64>, t: &Vec<f64>| t.iter().zip(p).map(|(a, b)| (a - b).abs()).sum::<f64>() < 100. * f64::EPSILON;
    let again = sug.iter().enumerate().any(|(i, p)| told.iter().any(|t| near(p, t)) || sug[..i].iter().any(|t| near(p, t)));
    if again || log.calls.len() != 1 || log.rows() < sug.len() {
        // points too close to others are drawn again by the optimizer
        g.label("rejected");
        if !s.cont {
            return discard("points rejected");
        }
        let mut told = rows(&x);
        let mut kept = vec![];
        for p in &sug {
            if told.iter().all(|t| t.iter().zip(p).map(|(a, b)| (a - b).abs()).sum::<f64>() >= 100. * f64::EPSILON) {
                told.push(p.clone());
                kept.push(p.clone());
            }
        }
        if kept.is_empty() {
            return discard("points rejected");
        }
        ensure!(log.xs() == kept, "optimizer", "suggested {sug:?}, the optimizer evaluates {:?}", log.xs());
        return Ok(());
    }
    let ev = log.xs();
    ensure!(ev == sug, "optimizer", "suggested {sug:?}, the optimizer evaluates {ev:?}");
    Ok(())
}

fn rounds(g: &mut G) -> R {
    let s = gen_scn(g, &Opts { iters: (1, 1), fcstr: 0, user_doe: 100, ..OPTS });
    let mut x = arr(&s.doe_folded(), s.t.len());
    let n = g.us(2, 4);
    for k in 0..n {
        let y = s.objs(&x.view());
        let a = match s.suggest(&x, &y) {
            Ok(a) => a,
            Err(e) => return s.refused(&e),
        };
        g.evals += 1;
        ensure!(a.dim() == (s.q, s.t.len()), "shape", "round {k}: {:?} for {} points in dimension {}", a.dim(), s.q, s.t.len());
        for r in rows(&a) {
            if let Some(m) = invalid(&s.t, &r) {
                return fail("invalid", format!("round {k}: {m}"));
            }
        }
        if k > 0 {
            g.nontrivial();
        }
        x = concatenate![Axis(0), x, a];
    }
    Ok(())
}

pub fn prop26() -> Prop {
    Prop {
        id: "C26",
        level: "exploration",
        rule: "the suggestion is compared with the optimizer's own next point (ask), at least two rounds (rounds)",
        assumptions: &["cooperative activity is not used by the service", "function constraints are not known to the service"],
        subs: vec![
            Sub { name: "ask", quick: 500, thorough: 10000, jobs: 4, f: ask },
            Sub { name: "rounds", quick: 300, thorough: 6000, jobs: 4, f: rounds },
        ],
    }
}
