//! C20, C21, C22, C27: the optimizer as a whole, on instrumented problems
use crate::c16::*;
use crate::egorun::*;
use crate::ensure;
use crate::fw::*;
use egobox_ego::*;
use ndarray::{Array1, Array2};
use std::result::Result;

/// sum of the violations above tolerance
pub fn violation(c: &[f64], tol: &[f64]) -> f64 {
    c.iter().zip(tol).map(|(c, t)| if c > t { (c - t).abs() } else { 0. }).sum()
}

/// is `best` a best row of the table (rows: objective, constraints)?
pub fn is_best(rows: &[Vec<f64>], tol: &[f64], best: usize) -> Result<(), String> {
    if best >= rows.len() {
        return Err(format!("best index {best} for {} rows", rows.len()));
    }
    let v: Vec<f64> = rows.iter().map(|r| violation(&r[1..], tol)).collect();
    if v.iter().any(|v| *v == 0.) {
        if v[best] > 0. {
            return Err(format!("point {best} violates constraints by {:?} while some points do not", v[best]));
        }
        let m = rows.iter().zip(&v).filter(|(_, v)| **v == 0.).map(|(r, _)| r[0]).fold(f64::INFINITY, f64::min);
        if rows[best][0] > m {
            return Err(format!("objective {:?} of point {best} is not the least of feasible points {m:?}", rows[best][0]));
        }
    } else {
        let m = v.iter().cloned().fold(f64::INFINITY, f64::min);
        if v[best] > m * (1. + 1e-12) {
            return Err(format!("violation {:?} of point {best} is not the least {m:?}", v[best]));
        }
    }
    Ok(())
}

fn find(g: &mut G) -> R {
    let n = g.us(1, 12);
    let (nc, nf) = (g.us(0, 3), g.us(0, 2));
    let scale = g.logf(1e-6, 1e6);
    // values on a coarse grid so that ties happen
    let tie = g.chance(50);
    let special = g.chance(15);
    let shift = g.pick(&[0., 0., 0.5, 1.5, -1.]);
    let val = |g: &mut G, shift: f64| {
        if special && g.chance(15) {
            return g.pick(&[f64::INFINITY, f64::MAX, -0.0]);
        }
        scale * (shift + if tie { g.int(-2, 2) as f64 / 2. } else { g.f(-1., 1.) })
    };
    let tol: Vec<f64> = (0..nc + nf).map(|_| if g.chance(40) { 0. } else { scale * if tie { 0.5 } else { g.unit() } }).collect();
    let y = Array2::from_shape_fn((n, 1 + nc), |(_, j)| val(g, if j == 0 { 0. } else { shift }));
    let c = Array2::from_shape_fn((n, nf), |_| val(g, shift));
    let t: Vec<Vec<f64>> = (0..n).map(|i| y.row(i).iter().chain(c.row(i).iter()).cloned().collect()).collect();
    g.note("rows", &t);
    g.note("tolerances", &tol);
    // outside: a sum of violations which overflows everywhere has no order; equal infinite objectives keep any
    if t.iter().all(|r| violation(&r[1..], &tol).is_infinite()) {
        return discard("every violation overflows");
    }
    let feas = t.iter().filter(|r| violation(&r[1..], &tol) == 0.).count();
    let allinf = feas > 0 && t.iter().filter(|r| violation(&r[1..], &tol) == 0.).all(|r| r[0].is_infinite());
    if allinf {
        return discard("every feasible objective is infinite");
    }
    if n > 1 && nc + nf > 0 {
        g.nontrivial();
    }
    g.label(if feas == 0 { "no feasible point" } else if feas == n { "all feasible" } else { "some feasible" });
    let b = match no_panic(|| find_best_result_index(&y, &c, &Array1::from(tol.clone()))) {
        Ok(b) => b,
        Err(e) => return fail("find-panic", e),
    };
    if let Err(m) = is_best(&t, &tol, b) {
        return fail("find", m);
    }
    // a permutation of the points returns an equivalent point
    let p = g.perm(n);
    let y2 = Array2::from_shape_fn(y.dim(), |(i, j)| y[[p[i], j]]);
    let c2 = Array2::from_shape_fn(c.dim(), |(i, j)| c[[p[i], j]]);
    let b2 = p[find_best_result_index(&y2, &c2, &Array1::from(tol.clone()))];
    if let Err(m) = is_best(&t, &tol, b2) {
        return fail("find", m);
    }
    Ok(())
}

pub struct Ran {
    pub s: Scn,
    pub r: OptimResult<f64>,
    pub log: Log,
    pub x: Vec<Vec<f64>>,
    pub y: Vec<Vec<f64>>,
    pub c: Vec<Vec<f64>>,
    pub rows: Vec<Vec<f64>>,
    pub tol: Vec<f64>,
}

pub fn go(g: &mut G, o: &Opts) -> Result<Ran, Stop> {
    let s = gen_scn(g, o);
    let (r, log) = s.run(&Ctl::default());
    g.evals += log.rows() as u64;
    match r {
        Ok(r) => collect(s, r, log),
        Err(e) => s.refused(&e),
    }
}

pub fn collect(s: Scn, r: OptimResult<f64>, log: Log) -> Result<Ran, Stop> {
    let c = match &r.state.data {
        Some((_, _, c)) => rows(c),
        None => return fail("no-data", "the returned state has no data".into()),
    };
    let (x, y) = (rows(&r.x_doe), rows(&r.y_doe));
    ensure!(x.len() == y.len() && c.len() == x.len(), "shape", "{} points, {} outputs, {} constraint rows", x.len(), y.len(), c.len());
    ensure!(x.iter().all(|x| x.len() == s.t.len()), "shape", "points of {} components for {} variables", r.x_doe.ncols(), s.t.len());
    ensure!(y.iter().all(|y| y.len() == 1 + s.n_cstr), "shape", "{} outputs", r.y_doe.ncols());
    ensure!(c.iter().all(|c| c.len() == s.n_fcstr), "shape", "constraint rows {:?}", c[0]);
    let rw = y.iter().zip(&c).map(|(y, c)| y.iter().chain(c).cloned().collect()).collect();
    let tol = s.tolerances();
    Ok(Ran { s, r, log, x, y, c, rows: rw, tol })
}

fn settings(g: &mut G, s: &Scn) {
    g.label(if s.cont { "continuous" } else { "mixed" });
    g.label(STRAT[s.strat]);
    g.label(if s.slsqp { "SLSQP" } else { "COBYLA" });
    for (c, l) in [
        (s.trego, "trego"),
        (s.coego > 0, "coego"),
        (s.q > 1, "q>1"),
        (s.n_cstr > 0, "surrogate constraints"),
        (s.n_fcstr > 0, "function constraints"),
        (s.cstr_infill && s.n_cstr > 0, "constrained infill"),
        (s.utb && s.n_cstr > 0, "upper trust bound"),
        (s.kpls.is_some(), "kpls"),
        (s.clusters != 1, "clusters"),
        (s.user_doe(), "user design"),
    ] {
        if c {
            g.label(l);
        }
    }
}

fn best(g: &mut G) -> R {
    let a = go(g, &Opts { iters: (0, 4), ..OPTS })?;
    best_of(g, a)
}

/// no point is feasible, tolerances are of the order of the constraints
fn infeasible(g: &mut G) -> R {
    let mut s = gen_scn(g, &Opts { iters: (2, 6), cstr: 100, fcstr: 30, qmax: 2, ..OPTS });
    if s.n_cstr == 1 && s.n_fcstr == 0 {
        return discard("one constraint");
    }
    let mut tols = vec![];
    for f in s.fs.iter_mut().skip(1).chain(s.cs.iter_mut()) {
        let (lo, hi) = f.range(&s.t);
        let w = hi - lo;
        let tol = w * g.f(0., 3.);
        f.c += tol - lo + w * g.f(0.01, 0.3);
        tols.push(tol);
    }
    s.tols = Some(tols);
    let (r, log) = s.run(&Ctl::default());
    g.evals += log.rows() as u64;
    match r {
        Ok(r) => best_of(g, collect(s, r, log)?),
        Err(e) => s.refused(&e),
    }
}

fn best_of(g: &mut G, a: Ran) -> R {
    settings(g, &a.s);
    let n0 = a.s.n_init();
    let b = match a.r.state.best_index {
        Some(b) => b,
        None => return fail("best-index", "no best index".into()),
    };
    ensure!(a.r.state.cstr_tol.to_vec() == a.tol, "tolerances", "{:?} instead of {:?}", a.r.state.cstr_tol, a.tol);
    if let Err(m) = is_best(&a.rows, &a.tol, b) {
        return fail("best", m);
    }
    if b >= n0 {
        g.nontrivial();
        g.label("improved");
    }
    ensure!(
        a.r.x_opt.to_vec() == a.x[b] && a.r.y_opt.to_vec() == a.y[b],
        "result",
        "x_opt {:?} y_opt {:?}, point {b} of history is {:?} {:?}",
        a.r.x_opt,
        a.r.y_opt,
        a.x[b],
        a.y[b]
    );
    if let Some(m) = invalid(&a.s.t, &a.r.x_opt.to_vec()) {
        return fail("space", m);
    }
    for (f, y) in a.s.fs.iter().zip(&a.r.y_opt) {
        let v = f.val(&a.r.x_opt.to_vec());
        ensure!(v == *y, "outputs", "y_opt {:?}, objective at x_opt {v:?}", a.r.y_opt);
    }
    // never worse than the initial design
    let v0: Vec<f64> = a.rows[..n0].iter().map(|r| violation(&r[1..], &a.tol)).collect();
    let v = violation(&a.rows[b][1..], &a.tol);
    if v0.iter().any(|v| *v == 0.) {
        let m = a.rows[..n0].iter().zip(&v0).filter(|(_, v)| **v == 0.).map(|(r, _)| r[0]).fold(f64::INFINITY, f64::min);
        ensure!(v == 0. && a.rows[b][0] <= m, "worse-than-initial", "violation {v} objective {} initial {m}", a.rows[b][0]);
    } else {
        let m = v0.iter().cloned().fold(f64::INFINITY, f64::min);
        ensure!(v <= m * (1. + 1e-12), "worse-than-initial", "violation {v} initial {m}");
    }
    Ok(())
}

fn near(a: &[f64], b: &[f64]) -> bool {
    a.iter().zip(b).all(|(a, b)| (a - b).abs() <= 1e-12 * (1. + a.abs().max(b.abs())))
}

fn history(g: &mut G) -> R {
    let a = go(g, &Opts { iters: (0, 6), ..OPTS })?;
    settings(g, &a.s);
    let s = &a.s;
    let n0 = s.n_init();
    let ev = a.log.xs();
    let ey = a.log.ys();
    for (i, x) in ev.iter().enumerate() {
        if let Some(m) = invalid(&s.t, x) {
            return fail("invalid", format!("evaluated point {i} {x:?}: {m}"));
        }
    }
    if a.x.len() > n0 {
        g.nontrivial();
    }
    // budget
    let told = if s.doe == Doe::Xy { n0 } else { 0 };
    let init = n0 - told;
    let mut calls = a.log.calls.iter().map(|c| c.0.nrows());
    if init > 0 {
        let first = calls.next();
        ensure!(first == Some(init), "initial", "initial design of {first:?} points instead of {init}");
    }
    let calls: Vec<usize> = calls.collect();
    ensure!(calls.len() <= s.max_iters, "budget", "{} batches after the initial design, {} iterations", calls.len(), s.max_iters);
    ensure!(calls.iter().all(|c| *c >= 1 && *c <= s.q), "budget", "batches {calls:?} with q_points = {}", s.q);
    // history
    let head: Vec<Vec<f64>> = if s.user_doe() { s.doe_folded() } else { vec![] };
    for (i, x) in head.iter().enumerate() {
        ensure!(a.x.len() > i && &a.x[i] == x, "design", "point {i} of the user's design {x:?}, history {:?}", a.x.get(i));
    }
    let mut k = told;
    let mut dropped = 0;
    for (i, (x, y)) in ev.iter().zip(&ey).enumerate() {
        if k < a.x.len() && &a.x[k] == x && &a.y[k] == y {
            k += 1;
            continue;
        }
        // a trust region step may evaluate a point already there, which is not recorded twice
        if s.trego && i >= init && a.x[..k].iter().any(|p| near(p, x)) {
            dropped += 1;
            continue;
        }
        return fail("history", format!("evaluated point {i} {x:?} {y:?}, history row {k} {:?} {:?}", a.x.get(k), a.y.get(k)));
    }
    if dropped > 0 {
        g.label("trust-region duplicate");
    }
    ensure!(k == a.x.len(), "history", "{} rows recorded, {k} evaluated", a.x.len());
    for i in 0..told {
        let f: Vec<f64> = s.fs.iter().map(|f| f.val(&a.x[i])).collect();
        ensure!(a.y[i] == f, "told", "outputs given {f:?} became {:?}", a.y[i]);
    }
    ensure!(a.r.state.added == a.x.len() && a.r.state.doe_size == n0, "counts", "added {} doe_size {} for {} rows, {n0} initial", a.r.state.added, a.r.state.doe_size, a.x.len());
    Ok(())
}

fn constraints(g: &mut G) -> R {
    let a = go(g, &Opts { iters: (0, 4), cstr: 50, fcstr: 85, ..OPTS })?;
    settings(g, &a.s);
    let s = &a.s;
    if let Some(m) = &a.log.cbad {
        return fail("argument", format!("function constraint called at {m}"));
    }
    ensure!(a.log.cout <= 1e-9, "outside", "function constraint called outside of the domain by {} of its width", a.log.cout);
    if s.n_cstr + s.n_fcstr == 0 {
        return discard("no constraint");
    }
    ensure!(a.r.state.cstr_tol.to_vec() == a.tol, "tolerances", "{:?} instead of {:?}", a.r.state.cstr_tol, a.tol);
    g.nontrivial();
    if s.n_fcstr > 0 && s.max_iters > 0 {
        ensure!(a.log.ccalls > a.x.len() * s.n_fcstr, "unused", "constraints are not used to look for points: {} calls", a.log.ccalls);
    }
    let n0 = s.n_init();
    let mut scaled = None;
    let m: Vec<f64> = s.cs.iter().map(|f| f.range(&s.t)).map(|(a, b)| a.abs().max(b.abs())).collect();
    let mut raw_rows = a.rows.clone();
    // an enumeration after another one may always be given the same level (C16, C17: fold-enum-after-enum)
    let several = s.t.iter().filter(|t| matches!(t, XType::Enum(_))).count() > 1;
    for (i, c) in a.c.iter().enumerate() {
        for (k, v) in c.iter().enumerate() {
            let raw = s.cs[k].val(&a.x[i]);
            raw_rows[i][1 + s.n_cstr + k] = raw;
            if (raw - v).abs() <= 1e-9 * (1. + raw.abs()) {
                continue;
            }
            ensure!(i >= n0, "initial-constraint", "constraint {k} is {raw:?} at initial point {i} {:?}, recorded {v:?}", a.x[i]);
            let r = raw / v;
            g.label(format!("scale {:.1}", r / m[k]));
            ensure!(
                (r > 0.2 * m[k] || several) && r <= m[k] * 1.001,
                "added-constraint",
                "constraint {k} is {raw:?} at added point {i} {:?}, recorded {v:?} (largest magnitude over the domain {:?})",
                a.x[i],
                m[k]
            );
            scaled = Some(format!("constraint {k} is {raw:?} at added point {i} {:?}, recorded {v:?}", a.x[i]));
        }
    }
    let b = a.r.state.best_index.unwrap_or(usize::MAX);
    if let Err(m) = is_best(&a.rows, &a.tol, b) {
        return fail("best", m);
    }
    // in the user's units: an initial design point within tolerance is never ignored
    let v: Vec<f64> = raw_rows.iter().map(|r| violation(&r[1..], &a.tol)).collect();
    if scaled.is_none() && v.iter().any(|v| *v == 0.) {
        ensure!(v[b] <= 1e-9, "infeasible", "result violates constraints by {}", v[b]);
    }
    if let Some(m) = scaled {
        return fail("added-constraint-scaled", m);
    }
    Ok(())
}

fn stop(g: &mut G) -> R {
    let a = go(g, &Opts { iters: (0, 7), target: 60, cstr: 25, ..OPTS })?;
    settings(g, &a.s);
    let s = &a.s;
    let n0 = s.n_init();
    // size of the history after each iteration
    let mut sizes = vec![n0];
    let told = s.doe == Doe::Xy;
    {
        // trust region steps may drop a duplicate: then only the totals are known
        let tot: usize = n0 + a.log.calls.iter().skip(!told as usize).map(|c| c.0.nrows()).sum::<usize>();
        if tot != a.x.len() {
            return discard("trust-region duplicate");
        }
    }
    for c in a.log.calls.iter().skip(!told as usize) {
        sizes.push(sizes.last().unwrap() + c.0.nrows());
    }
    let done = sizes.len() - 1;
    let st = &a.r.state;
    let reason = match &st.termination_status {
        argmin::core::TerminationStatus::Terminated(r) => r.clone(),
        o => return fail("status", format!("{o:?}")),
    };
    use argmin::core::TerminationReason::*;
    // best objective so far after each iteration
    let mut hit = None;
    let mut cur = 0;
    let mut changed = 0;
    let mut tie = false;
    let mut curs = vec![];
    for (i, n) in sizes.iter().enumerate() {
        let from = if i == 0 { 1 } else { sizes[i - 1] };
        let prev = cur;
        for k in from..*n {
            let (vk, vc) = (violation(&a.rows[k][1..], &a.tol), violation(&a.rows[cur][1..], &a.tol));
            let better = if vk > 0. && vc > 0. { vk < vc } else if vk == 0. && vc == 0. { a.rows[k][0] < a.rows[cur][0] } else { vk == 0. };
            tie |= (vk - vc).abs() <= 1e-12 * vc && vk > 0. || vk == 0. && vc == 0. && a.rows[k][0] == a.rows[cur][0];
            if better {
                cur = k;
            }
        }
        if i > 0 && prev != cur {
            changed = i;
        }
        curs.push(cur);
        if let Some(t) = s.target {
            if a.rows[cur][0] <= t && hit.is_none() {
                hit = Some((i, violation(&a.rows[cur][1..], &a.tol) == 0.));
            }
        }
    }
    if s.max_iters > 0 {
        g.nontrivial();
    }
    g.label(format!("{reason:?}"));
    if s.target.is_some() && hit.is_none() {
        g.label("target not reached");
    }
    let iter = st.iter as usize;
    ensure!(iter <= s.max_iters, "iterations", "{iter} iterations for a limit of {}", s.max_iters);
    match reason {
        MaxItersReached => ensure!(done == s.max_iters && iter == done, "limit", "stopped by the limit {} after {done} iterations ({iter} reported)", s.max_iters),
        TargetCostReached => ensure!(hit.is_some() && iter == done, "target", "stopped by target {:?} after {done} iterations ({iter} reported), best {:?}", s.target, a.rows[cur]),
        // the last iteration evaluates nothing
        SolverConverged => ensure!(iter == done + 1, "converged", "{done} iterations with new points, {iter} reported"),
        o => return fail("status", format!("{o:?}")),
    }
    if let Some((i, feas)) = hit {
        g.label(format!("hit {}", if i == 0 { "initially" } else { "later" }));
        if feas {
            ensure!(done == i, "overrun", "target {:?} reached after {i} iterations, {done} were run", s.target);
        }
    }
    // bookkeeping
    if tie {
        return discard("tie");
    }
    ensure!(st.best_index == Some(cur), "best-index", "{:?} instead of {cur}", st.best_index);
    if s.trego && reason != SolverConverged {
        // global steps every fifth iteration and after a successful global step, local steps of one point otherwise;
        // a step is successful when it improves the best value by more than the square of the radius, which grows
        // after successful steps and shrinks after failed local ones
        let (mut sigma, mut prev, mut global) = (0.1, curs[0], false);
        for it in 0..done {
            let best = curs[it];
            let success = a.rows[best][0] < a.rows[prev][0] - sigma * sigma;
            if it > 0 && success {
                sigma *= 10. / 9.;
            } else if it > 0 && !global {
                sigma *= 0.9;
            }
            global = global && success || it % 5 == 0;
            let size = sizes[it + 1] - sizes[it];
            ensure!(global || size == 1, "trego-batch", "{size} points by the local step of iteration {it}");
            g.label(if global { "global step" } else { "local step" });
            prev = best;
        }
        ensure!((st.sigma - sigma).abs() <= 1e-9 * sigma, "trego-radius", "radius {} instead of {sigma} after {done} iterations", st.sigma);
        ensure!(st.prev_step_ego == global, "trego-step", "last step recorded as global: {} instead of {global}", st.prev_step_ego);
    }
    ensure!(st.last_best_iter as usize == changed, "last-best-iter", "{} while the best point came at iteration {changed} ({reason:?})", st.last_best_iter);
    let bp = st.best_param.as_ref().map(|v| v.to_vec());
    let data = st.data.as_ref().unwrap();
    ensure!(bp == Some(data.0.row(cur).to_vec()), "best-param", "{bp:?} instead of {:?}", data.0.row(cur));
    ensure!(st.best_cost.as_ref().map(|v| v.to_vec()) == Some(a.y[cur].clone()), "best-cost", "{:?} instead of {:?}", st.best_cost, a.y[cur]);
    ensure!(st.max_iters as usize == s.max_iters, "max-iters", "{} instead of {}", st.max_iters, s.max_iters);
    ensure!(s.target.map_or(st.target_cost <= f64::MIN, |t| t == st.target_cost), "target-cost", "{:?} instead of {:?}", st.target_cost, s.target);
    Ok(())
}

/// The process-wide settings (environment variables), each in a process of its own.
fn switches(g: &mut G) -> R {
    let s = gen_scn(g, &Opts { iters: (1, 4), fcstr: 0, ..OPTS });
    let (portfolio, proba, picker) = match g.us(1, 7) {
        b => (b & 1 != 0, b & 2 != 0, b & 4 != 0),
    };
    let n = g.us(1, 4).to_string();
    let mut env = vec![("RAYON_NUM_THREADS", n.as_str()), ("EGOBOX_LOG", "off")];
    for (on, k) in [(portfolio, "EGOR_USE_GP_VAR_PORTFOLIO"), (proba, "EGOR_USE_MAX_PROBA_OF_FEASIBILITY"), (picker, "EGOR_DO_NOT_USE_MIDDLEPICKER_MULTISTARTER")] {
        if on {
            env.push((k, "1"));
            g.label(k);
        }
    }
    let job = Job { scn: s.clone(), ctl: Ctl::default(), fsize: None, ignore_xfsz: false };
    let Some(done) = spawn(&job, &env) else {
        return fail("process", format!("the process did not finish with {env:?}"));
    };
    let o = match done.out {
        Ok(o) => o,
        Err(e) => return s.refused(&e),
    };
    settings(g, &s);
    g.evals += done.calls.len() as u64;
    let n0 = s.n_init();
    if o.x.len() > n0 {
        g.nontrivial();
    }
    let told = if s.doe == Doe::Xy { n0 } else { 0 };
    let mut sizes: Vec<usize> = done.calls.iter().map(|c| c.0.len()).collect();
    if n0 > told {
        ensure!(!sizes.is_empty() && sizes[0] == n0 - told, "initial", "calls of {sizes:?} points, initial design of {}", n0 - told);
        sizes.remove(0);
    }
    let q = if portfolio && s.q == 1 { 13 } else { s.q };
    ensure!(sizes.len() <= s.max_iters, "budget", "{} batches after the initial design, {} iterations", sizes.len(), s.max_iters);
    ensure!(sizes.iter().all(|c| *c >= 1 && *c <= q), "budget", "batches {sizes:?}, at most {q} points expected");
    if sizes.iter().any(|c| *c > s.q) {
        g.label("several points from the portfolio");
    }
    let (mut k, mut i) = (told, 0);
    for (x, y) in done.calls.iter().flat_map(|c| c.0.iter().zip(&c.1)) {
        if let Some(m) = invalid(&s.t, x) {
            return fail("invalid", format!("evaluated point {i} {x:?}: {m}"));
        }
        i += 1;
        if k < o.x.len() && &o.x[k] == x && &o.y[k] == y {
            k += 1;
            continue;
        }
        if s.trego && i > n0 - told && o.x[..k].iter().any(|p| near(p, x)) {
            continue;
        }
        return fail("history", format!("evaluated point {} {x:?} {y:?}, history row {k} {:?} {:?}", i - 1, o.x.get(k), o.y.get(k)));
    }
    ensure!(k == o.x.len(), "history", "{} rows recorded, {k} evaluated", o.x.len());
    // the best point
    let rows: Vec<Vec<f64>> = o.y.iter().map(|r| r[..1 + s.n_cstr].to_vec()).collect();
    let tol = s.tolerances();
    let Some(b) = o.best else {
        return fail("best", "no best index".into());
    };
    if let Err(m) = is_best(&rows, &tol, b) {
        return fail("best", m);
    }
    ensure!(o.x_opt == o.x[b] && o.y_opt == o.y[b], "best", "{:?} {:?} returned instead of {:?} {:?}", o.x_opt, o.y_opt, o.x[b], o.y[b]);
    Ok(())
}

pub fn prop20() -> Prop {
    Prop {
        id: "C20",
        level: "exploration",
        rule: "several points with constraints (find), or the best point was found after the initial design (run)",
        assumptions: &["ties may be resolved either way", "constraint values are those recorded in the state"],
        subs: vec![
            Sub { name: "find", quick: 60000, thorough: 2000000, jobs: 8, f: find },
            Sub { name: "run", quick: 1200, thorough: 12000, jobs: 4, f: best },
            Sub { name: "infeasible", quick: 1000, thorough: 12000, jobs: 4, f: infeasible },
        ],
    }
}
pub fn prop21() -> Prop {
    Prop {
        id: "C21",
        level: "exploration",
        rule: "at least one point was added to the initial design",
        assumptions: &["a trust-region step may evaluate again a point already there (within 1e-12), which is then not recorded twice"],
        subs: vec![
            Sub { name: "run", quick: 1200, thorough: 20000, jobs: 4, f: history },
            Sub { name: "switches", quick: 160, thorough: 4000, jobs: 6, f: switches },
        ],
    }
}
pub fn prop22() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        rule: "at least one constraint and one iteration",
        assumptions: &["surrogate constraints are outputs of the objective"],
        subs: vec![Sub { name: "run", quick: 1200, thorough: 16000, jobs: 4, f: constraints }],
    }
}
pub fn prop27() -> Prop {
    Prop {
        id: "C27",
        level: "exploration",
        rule: "an iteration limit above zero",
        assumptions: &["whether a target reached only by infeasible points stops the run is not specified"],
        subs: vec![Sub { name: "run", quick: 1200, thorough: 16000, jobs: 4, f: stop }],
    }
}
