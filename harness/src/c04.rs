//! C04..C08, C10: Gaussian process prediction, interpolation, gradients, invariances, tuning, sampling
use crate::ensure;
use crate::fw::*;
use crate::gpref::*;
use crate::la::*;
use egobox_gp::correlation_models::*;
use egobox_gp::mean_models::*;
use egobox_gp::{GaussianProcess, ThetaTuning};
use linfa::prelude::Fit;
use linfa::{Dataset, ParamGuard};
use ndarray::{Array1, Array2, Axis};

const NUGGET: f64 = 100. * f64::EPSILON;

/// Fit, or discard when the library refuses the data (ill-conditioned)
fn fit_or_discard(c: &GpCase) -> Result<Box<dyn GpLike>, Stop> {
    match fit(&c.cfg, &c.x, &c.y) {
        Ok(gp) => Ok(gp),
        Err(e) => {
            // may only be refused when it is ill conditioned
            if let ThetaTuning::Fixed(t) = &c.cfg.tuning {
                if reference(c, t, 1e9).is_ok() {
                    return fail("refused", format!("well conditioned training set refused: {e}"));
                }
            }
            discard("fit error")
        }
    }
}

fn reference(c: &GpCase, theta: &Array1<f64>, kmax: f64) -> Result<RefGp, Stop> {
    let Some(w) = ref_weights(c) else {
        return discard("degenerate PLS");
    };
    let Some(r) = RefGp::new(c.cfg.m, c.cfg.k, &c.x, &c.y, theta.as_slice().unwrap(), w, c.cfg.nugget.unwrap_or(NUGGET)) else {
        return discard("singular reference");
    };
    if r.kappa > kmax || r.kappa_f > kmax {
        return discard("ill conditioned");
    }
    Ok(r)
}

fn compare_ref(g: &mut G, c: &GpCase, gp: &dyn GpLike, q: &Array2<f64>, kmax: f64) -> R {
    let theta = gp.theta();
    ensure!(theta.len() == c.h, "theta_len", "theta has {} components, expected {}", theta.len(), c.h);
    let r = reference(c, &theta, kmax)?;
    let ym = gp.predict(q).map_err(|e| Stop::Fail(Fail { sig: "err".into(), msg: e.to_string() }))?;
    let yv = gp.predict_var(q).map_err(|e| Stop::Fail(Fail { sig: "err".into(), msg: e.to_string() }))?;
    ensure!(ym.len() == q.nrows() && yv.len() == q.nrows(), "len", "prediction lengths");
    let rel = 1e-13 * (r.kappa + r.kappa_f) + 1e-10;
    let s2 = r.sigma2();
    ensure!((gp.variance() - s2).abs() <= 20. * rel * s2, "sigma2", "process variance {} expected {s2}", gp.variance());
    let lt = 20. * rel * (c.x.nrows() as f64) + 1e-9 * r.lkh.abs();
    ensure!((gp.likelihood() - r.lkh).abs() <= lt, "likelihood", "likelihood {} expected {}", gp.likelihood(), r.lkh);
    for i in 0..q.nrows() {
        let xq = q.row(i).to_owned();
        let (m, e) = r.mean(&xq);
        ensure!((ym[i] - m).abs() <= e, "mean", "mean at {xq} is {} expected {m} (+-{e:e})", ym[i]);
        let (v, e) = r.var(&xq);
        ensure!((yv[i] - v.max(0.)).abs() <= e, "var", "variance at {xq} is {} expected {v} (+-{e:e}), process variance {s2}", yv[i]);
        if e < 1e-3 * s2 && v > 1e-3 * s2 {
            g.nontrivial();
        }
    }
    Ok(())
}

fn kriging_fixed(g: &mut G) -> R {
    let mut c = gen_case(g, CaseOpt { dmax: 5, fixed: true, kpls: true });
    if g.chance(15) {
        c.cfg.nugget = Some(g.logf(1e-10, 1e-2));
        g.label("nugget");
    }
    let gp = fit_or_discard(&c)?;
    ensure!(gp.dims() == (c.d, 1), "dims", "dims {:?} expected {:?}", gp.dims(), (c.d, 1));
    let nq = g.us(1, 6);
    let far = if g.chance(20) { 10. } else { 0.3 };
    let q = gen_query(g, &c.x, nq, far);
    compare_ref(g, &c, gp.as_ref(), &q, 1e9)
}

fn kriging_tuned(g: &mut G) -> R {
    let mut c = gen_case(g, CaseOpt { dmax: 3, fixed: false, kpls: true });
    c.cfg.n_start = Some(g.pick(&[0usize, 2, 4]));
    c.cfg.max_eval = Some(50);
    let gp = fit_or_discard(&c)?;
    let nq = g.us(1, 4);
    let q = gen_query(g, &c.x, nq, 0.3);
    compare_ref(g, &c, gp.as_ref(), &q, 1e10)
}

/// a constant input column carries no information: same predictions as without it
fn constant_column(g: &mut G) -> R {
    let k = g.pick(&KERNELS);
    let d = g.us(1, 3);
    let n = g.us(5, 12);
    let x = gen_x(g, n, d, true);
    let y = gen_y(g, &x);
    let cst = g.f(-50., 50.);
    let pos = g.us(0, d);
    let mut th = gen_theta(g, k, d, n);
    let m = M::Const;
    let cfg = |t: Vec<f64>| GpCfg { m, k, tuning: ThetaTuning::Fixed(Array1::from_vec(t)), kpls: None, n_start: None, max_eval: None, nugget: None };
    g.note("cfg", cfg(th.clone()));
    let insert = |a: &Array2<f64>, v: f64| {
        let mut b = Array2::from_elem((a.nrows(), d + 1), v);
        for j in 0..d {
            let jj = if j < pos { j } else { j + 1 };
            b.column_mut(jj).assign(&a.column(j));
        }
        b
    };
    let gp1 = fit(&cfg(th.clone()), &x, &y).map_err(|e| Stop::Discard(e.to_string()))?;
    th.insert(pos, g.f(0.1, 2.));
    let x2 = insert(&x, cst);
    let gp2 = match fit(&cfg(th), &x2, &y) {
        Ok(v) => v,
        Err(e) => return fail("err", format!("fit with a constant column fails: {e}")),
    };
    let q = gen_query(g, &x, 4, 0.2);
    let (p1, p2) = (gp1.predict(&q).unwrap(), gp2.predict(&insert(&q, cst)).unwrap());
    let (v1, v2) = (gp1.predict_var(&q).unwrap(), gp2.predict_var(&insert(&q, cst)).unwrap());
    let s = gp1.variance().sqrt() + maxabs1(&y);
    ensure!(maxabs1(&(&p1 - &p2)) <= 1e-6 * s, "mean", "constant column changes predictions {p1} {p2}");
    ensure!(maxabs1(&(&v1 - &v2)) <= 1e-6 * gp1.variance(), "var", "constant column changes variances {v1} {v2}");
    ensure!(p2.iter().chain(v2.iter()).all(|v| v.is_finite()), "finite", "non finite prediction");
    g.nontrivial();
    Ok(())
}

/// data the model cannot support: error, or (if accepted) finite numbers
fn unsupported(g: &mut G) -> R {
    let m = g.pick(&MEANS);
    let k = g.pick(&KERNELS);
    let d = g.us(1, 3);
    let which = g.us(0, 3);
    let n = if which == 3 { g.us(1, 3) } else if which == 1 { g.us(1, 8) } else { g.us(3, 8) };
    let mut x = gen_x(g, n, d, true);
    let mut y = gen_y(g, &x);
    let mut consistent = true;
    match which {
        0 => {
            // duplicated row, observed once or twice
            let r = x.row(0).to_owned();
            x.row_mut(n - 1).assign(&r);
            consistent = g.chance(50);
            if consistent {
                y[n - 1] = y[0];
            }
            g.label("duplicate");
        }
        1 => {
            // more trend functions than points (linear, quadratic in few points)
            g.label("few points");
        }
        3 => g.label("tiny"),
        _ => {
            // kpls dimension above the input dimension is refused
            let cfg = GpCfg { m, k, tuning: ThetaTuning::default(), kpls: Some(d + g.us(1, 3)), n_start: Some(0), max_eval: None, nugget: None };
            g.note("cfg", &cfg);
            ensure!(fit(&cfg, &x, &y).is_err(), "kpls", "kpls_dim {:?} accepted for {d} inputs", cfg.kpls);
            let cfg0 = GpCfg { kpls: Some(0), ..cfg };
            ensure!(fit(&cfg0, &x, &y).is_err(), "kpls", "kpls_dim 0 accepted");
            g.nontrivial();
            return Ok(());
        }
    }
    let th = gen_theta(g, k, d, n);
    let cfg = GpCfg { m, k, tuning: ThetaTuning::Fixed(Array1::from_vec(th)), kpls: None, n_start: None, max_eval: None, nugget: None };
    g.note("cfg", &cfg);
    if which == 1 && n_basis(m, d) <= n {
        return discard("enough points");
    }
    match no_panic(|| fit(&cfg, &x, &y)) {
        Ok(Err(_)) => g.label("refused"),
        Ok(Ok(gp)) => {
            g.label("accepted");
            let p = gp.predict(&x).unwrap();
            let v = gp.predict_var(&x).unwrap();
            ensure!(p.iter().chain(v.iter()).all(|v| v.is_finite()), "finite", "non finite prediction from an accepted training set");
            if which == 0 && consistent {
                // the model still reproduces the unduplicated rows
                for i in 1..n - 1 {
                    let s = gp.variance().sqrt() + y.iter().map(|v| (v - y[0]).abs()).fold(0., f64::max);
                    ensure!((p[i] - y[i]).abs() <= 1e-2 * s, "interp", "duplicated row spoils training point {i}: {} vs {}", p[i], y[i]);
                }
            }
        }
        Err(m) => {
            return fail("panic", m);
        }
    }
    g.nontrivial();
    Ok(())
}

/// data where the trend is nearly collinear, or where PLS finds fewer components than asked: error or finite numbers
fn degenerate(g: &mut G) -> R {
    let k = g.pick(&KERNELS);
    let d = g.us(2, 4);
    let lattice = g.chance(50);
    let (x, y, m, kpls) = if lattice {
        // discrete levels, constant columns, one-hot masks, factorials
        let n = g.us(4, 16);
        let mut x = Array2::zeros((n, d));
        for j in 0..d {
            let lv = g.us(1, 3);
            let base = g.f(-20., 20.);
            let full = g.chance(50);
            for i in 0..n {
                x[[i, j]] = base + if full { ((i >> j) % lv) as f64 } else { g.us(0, lv - 1) as f64 };
            }
        }
        if g.chance(30) {
            // complementary masks
            for i in 0..n {
                x[[i, 0]] = g.us(0, 1) as f64;
                x[[i, 1]] = 1. - x[[i, 0]];
            }
        }
        let y = if g.chance(20) {
            Array1::from_elem(n, g.f(-3., 3.))
        } else if g.chance(20) {
            let c = g.vecf(d, -2., 2.);
            x.dot(&c)
        } else {
            g.vecf(n, -2., 2.)
        };
        (x, y, M::Const, Some(g.us(1, d)))
    } else {
        let m = g.pick(&[M::Lin, M::Quad]);
        let n = n_basis(m, d) + g.us(2, 8);
        let mut x = gen_x(g, n, d, true);
        let eps = g.logf(1e-10, 1e-2);
        let w = col_widths(&x);
        for i in 0..n {
            x[[i, 1]] = x[[i, 0]] + eps * w[0] * g.f(-1., 1.);
        }
        let y = gen_y(g, &x);
        (x, y, m, None)
    };
    g.label(if lattice { "pls" } else { "collinear" });
    let h = kpls.unwrap_or(d);
    let th = gen_theta(g, k, h, x.nrows());
    let cfg = GpCfg { m, k, tuning: ThetaTuning::Fixed(Array1::from_vec(th)), kpls, n_start: None, max_eval: None, nugget: None };
    g.note("cfg", &cfg);
    g.note("x", x.rows().into_iter().map(|r| r.to_vec()).collect::<Vec<_>>());
    g.note("y", y.to_vec());
    g.nontrivial();
    let gp = match no_panic(|| fit(&cfg, &x, &y)) {
        Ok(Ok(gp)) => gp,
        Ok(Err(_)) => {
            g.label("refused");
            return Ok(());
        }
        Err(e) => return fail("panic", e),
    };
    g.label("accepted");
    let q = gen_query(g, &x, 3, 0.2);
    for q in [&x, &q] {
        let a = match no_panic(|| (gp.predict(q).unwrap(), gp.predict_var(q).unwrap(), gp.grad(q), gp.vargrad(q))) {
            Ok(a) => a,
            Err(e) => return fail("panic", e),
        };
        let ok = a.0.iter().chain(a.1.iter()).chain(a.2.iter()).chain(a.3.iter()).all(|v| v.is_finite());
        ensure!(ok, "finite", "non finite prediction or gradient from an accepted training set: {a:?}");
    }
    Ok(())
}

pub fn prop04() -> Prop {
    Prop {
        id: "C04",
        level: "exploration",
        rule: "random training set (1..5 inputs, scaled and shifted columns and outputs), trend, kernel, KPLS dimension, theta fixed or tuned, nugget; mean, variance, process variance and likelihood compared with an independent dense implementation of universal kriging at random points, within a bound computed from the condition number. Non-trivial: a point whose variance is above 1e-3 of the process variance and known to 1e-3 of it.",
        assumptions: &["training sets with a correlation matrix condition number above 1e9..1e10 are discarded (rounding dominates)", "KPLS directions compared with an independent PLS1"],
        subs: vec![
            Sub { name: "kriging_fixed", quick: 30000, thorough: 1000000, jobs: 0, f: kriging_fixed },
            Sub { name: "kriging_tuned", quick: 2500, thorough: 80000, jobs: 0, f: kriging_tuned },
            Sub { name: "constant_column", quick: 5000, thorough: 200000, jobs: 0, f: constant_column },
            Sub { name: "unsupported", quick: 5000, thorough: 200000, jobs: 0, f: unsupported },
            Sub { name: "degenerate", quick: 6000, thorough: 200000, jobs: 0, f: degenerate },
        ],
    }
}

fn interpolation(g: &mut G) -> R {
    let c = gen_case(g, CaseOpt { dmax: 5, fixed: true, kpls: false });
    let gp = fit_or_discard(&c)?;
    let r = reference(&c, &gp.theta(), 1e10)?;
    let p = gp.predict(&c.x).unwrap();
    let v = gp.predict_var(&c.x).unwrap();
    let s2 = r.sigma2();
    let gm = maxabs(&r.gamma);
    for i in 0..c.x.nrows() {
        let tol = r.ys * (1e-9 + gm * NUGGET * 4. + 1e-14 * (r.kappa + r.kappa_f) * (1. + gm * 1e-3)) + 1e-13 * r.ym.abs();
        ensure!((p[i] - c.y[i]).abs() <= tol, "interp", "prediction {} at training point {i}, observed {} (tolerance {tol:e})", p[i], c.y[i]);
        let vt = s2 * (1e-9 + 1e-13 * (r.kappa + r.kappa_f));
        ensure!(v[i] >= 0. && v[i] <= vt, "var0", "variance {} at training point {i}, process variance {s2}", v[i]);
    }
    if r.kappa < 1e8 {
        g.nontrivial();
    }
    Ok(())
}

fn sane_variance(g: &mut G) -> R {
    let mut c = gen_case(g, CaseOpt { dmax: 6, fixed: true, kpls: true });
    if g.chance(40) {
        // rounding makes the mean squared error negative at training points
        c.cfg.nugget = Some(g.pick(&[0., 1e-18, 1e-16]));
        g.label("no nugget");
    }
    let gp = fit_or_discard(&c)?;
    let w = col_widths(&c.x);
    let mut q = gen_query(g, &c.x, 6, 0.5);
    for t in 2..5 {
        let i = g.us(0, c.x.nrows() - 1);
        q.row_mut(t).assign(&c.x.row(i));
    }
    // near a training point, and very far away
    for j in 0..c.d {
        q[[0, j]] = c.x[[0, j]] + w[j] * g.sym(1e-12, 1e-4);
        q[[1, j]] = c.x[[1, j]] + w[j] * g.sym(1e1, 1e6);
    }
    let p = gp.predict(&q).unwrap();
    let v = gp.predict_var(&q).unwrap();
    ensure!(p.iter().all(|v| v.is_finite()), "finite", "non finite mean {p} at {q}");
    ensure!(v.iter().all(|v| v.is_finite() && *v >= 0.), "neg", "variance {v} at {q}");
    let (p2, v2) = gp.predict_valvar(&q).unwrap();
    ensure!(p2.iter().all(|v| v.is_finite()), "finite", "non finite mean {p2} (with variance) at {q}");
    ensure!(v2.iter().all(|v| v.is_finite() && *v >= 0.), "neg", "variance {v2} (with mean) at {q}");
    let (jg, jv) = gp.valvargrad(&q);
    ensure!(jg.iter().chain(jv.iter()).all(|v| v.is_finite()), "gfinite", "non finite gradient {jg} {jv} at {q}");
    if c.cfg.m == M::Const && c.cfg.kpls.is_none() {
        // constant trend: variance never exceeds the prior variance plus the trend's own uncertainty
        let far = v[1];
        for x in v.iter() {
            ensure!(*x <= far * (1. + 1e-6) + 1e-9 * gp.variance(), "prior", "variance {x} above its far-away limit {far}");
        }
        ensure!(far >= gp.variance() * (1. - 1e-9), "prior", "far variance {far} below the process variance {}", gp.variance());
        g.label("prior checked");
    }
    g.nontrivial();
    Ok(())
}

/// all entry points agree, whatever the batch
fn entry_points(g: &mut G) -> R {
    let c = gen_case(g, CaseOpt { dmax: 4, fixed: true, kpls: true });
    let gp = fit_or_discard(&c)?;
    let r = reference(&c, &gp.theta(), 1e9)?;
    let nq = g.us(2, 7);
    let mut q = gen_query(g, &c.x, nq, 0.3);
    if g.chance(50) {
        let i = g.us(0, c.x.nrows() - 1);
        q.row_mut(0).assign(&c.x.row(i));
    }
    let perm = g.perm(nq);
    let p = gp.predict(&q).unwrap();
    let v = gp.predict_var(&q).unwrap();
    let (p2, v2) = gp.predict_valvar(&q).unwrap();
    let gm = gp.grad(&q);
    let gv = gp.vargrad(&q);
    let (gm2, gv2) = gp.valvargrad(&q);
    let pt = gp.predict_trait(&q);
    let s = r.ys * (1. + maxabs(&r.gamma) * 1e-3) + r.ym.abs() * 1e-3;
    let vs = r.sigma2();
    let tol = 1e-9 + 1e-14 * (r.kappa + r.kappa_f);
    let w = col_widths(&c.x);
    ensure!(gm.dim() == (nq, c.d) && gv.dim() == (nq, c.d), "gshape", "gradient shapes {:?} {:?}", gm.dim(), gv.dim());
    ensure!(maxabs1(&(&p - &p2)) <= tol * s, "valvar", "predict and predict_valvar differ {p} {p2}");
    ensure!(maxabs1(&(&p - &pt)) <= tol * s, "trait", "predict and Predict trait differ {p} {pt}");
    ensure!(maxabs1(&(&v - &v2)) <= tol * vs, "valvar", "predict_var and predict_valvar differ {v} {v2}");
    // permuted batch, and points one by one
    let qp = q.select(Axis(0), &perm);
    let pp = gp.predict(&qp).unwrap();
    let vp = gp.predict_var(&qp).unwrap();
    let (gmp, gvp) = gp.valvargrad(&qp);
    for a in 0..nq {
        let i = perm[a];
        ensure!((pp[a] - p[i]).abs() <= tol * s, "batch", "prediction depends on row order: {} {}", pp[a], p[i]);
        ensure!((vp[a] - v[i]).abs() <= tol * vs, "batch", "variance depends on row order: {} {}", vp[a], v[i]);
        let x1 = rowq(&q, i);
        let p1 = gp.predict(&x1).unwrap();
        let v1 = gp.predict_var(&x1).unwrap();
        ensure!((p1[0] - p[i]).abs() <= tol * s, "single", "prediction of a single point differs: {} {}", p1[0], p[i]);
        ensure!((v1[0] - v[i]).abs() <= tol * vs, "single", "variance of a single point differs: {} {}", v1[0], v[i]);
        let gs = gp.vargrad_single(&q.row(i).to_owned());
        for j in 0..c.d {
            let gt = (tol * 100. + 1e-8) / w[j];
            for (nm, a, b, sc) in [
                ("valvar gradient", gm[[i, j]], gm2[[i, j]], s),
                ("valvar variance gradient", gv[[i, j]], gv2[[i, j]], vs),
                ("permuted gradient", gm[[i, j]], gmp[[a, j]], s),
                ("permuted variance gradient", gv[[i, j]], gvp[[a, j]], vs),
                ("single variance gradient", gv[[i, j]], gs[j], vs),
            ] {
                ensure!((a - b).abs() <= gt * sc + 1e-9 * (a.abs() + b.abs()), "grads", "{nm} differs: {a} {b}");
            }
        }
    }
    g.nontrivial();
    Ok(())
}

pub fn prop05() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        rule: "random training sets of distinct points, kernels, trends, KPLS; predictions at the training points, at points from 1e-12 widths of a training point to 1e6 widths away, and batches compared with their permutation and with single-point calls. Non-trivial: condition number below 1e8 (interpolation); every other case.",
        assumptions: &["tolerances grow with the condition number of the correlation matrix"],
        subs: vec![
            Sub { name: "interpolation", quick: 20000, thorough: 600000, jobs: 0, f: interpolation },
            Sub { name: "sane_variance", quick: 20000, thorough: 600000, jobs: 0, f: sane_variance },
            Sub { name: "entry_points", quick: 15000, thorough: 500000, jobs: 0, f: entry_points },
        ],
    }
}

pub fn away_from_kinks(q: &mut Array2<f64>, x: &Array2<f64>, w: &[f64], frac: f64) -> bool {
    for i in 0..q.nrows() {
        for j in 0..q.ncols() {
            for _ in 0..6 {
                let mut near = false;
                for t in 0..x.nrows() {
                    if (q[[i, j]] - x[[t, j]]).abs() < frac * w[j] {
                        near = true;
                    }
                }
                if !near {
                    break;
                }
                q[[i, j]] += 1.37 * frac * w[j];
            }
            for t in 0..x.nrows() {
                if (q[[i, j]] - x[[t, j]]).abs() < 0.9 * frac * w[j] {
                    return false;
                }
            }
        }
    }
    true
}

fn gradients(g: &mut G) -> R {
    let tuned = g.chance(10);
    let c = if tuned {
        let mut c = gen_case(g, CaseOpt { dmax: 3, fixed: false, kpls: true });
        c.cfg.n_start = Some(2);
        c.cfg.max_eval = Some(40);
        c
    } else {
        gen_case(g, CaseOpt { dmax: 4, fixed: true, kpls: true })
    };
    let gp = fit_or_discard(&c)?;
    let r = reference(&c, &gp.theta(), 1e8)?;
    let w = col_widths(&c.x);
    let nq = g.us(1, 3);
    let mut q = gen_query(g, &c.x, nq, 0.2);
    // finite differences use steps up to 0.04 * (frac/2.2) widths
    let frac = 0.004;
    if c.cfg.k != K::SE && !away_from_kinks(&mut q, &c.x, &w, frac) {
        return discard("near kink");
    }
    let gm = gp.grad(&q);
    let gv = gp.vargrad(&q);
    let ysc = r.ys;
    let vs = r.sigma2();
    let gms = maxabs(&r.gamma);
    for i in 0..nq {
        for j in 0..c.d {
            let sc = if c.cfg.k == K::SE { 0.3 * w[j] } else { 0.09 * w[j] };
            let mut fm = |h: f64| {
                let mut x = rowq(&q, i);
                x[[0, j]] += h;
                gp.predict(&x).unwrap()[0]
            };
            let (d, e) = deriv(&mut fm, sc);
            let tol = 10. * e + 1e-6 * d.abs() + 1e-7 * ysc * (1. + gms * 1e-2) / w[j] + 1e-9 * r.ym.abs() / w[j];
            ensure!((gm[[i, j]] - d).abs() <= tol, "grad", "mean gradient {} wrt {j} at {} but finite difference {d} (tolerance {tol:e})", gm[[i, j]], q.row(i));
            let vv = gp.predict_var(&rowq(&q, i)).unwrap()[0];
            if tol < 0.02 * d.abs() {
                g.label("mean grad sharp");
            }
            let mut fv = |h: f64| {
                let mut x = rowq(&q, i);
                x[[0, j]] += h;
                gp.predict_var(&x).unwrap()[0]
            };
            let (d, e) = deriv(&mut fv, sc);
            let tol = 10. * e + 1e-6 * d.abs() + (1e-7 + 1e-13 * (r.kappa + r.kappa_f)) * (vs + vv) / w[j];
            if vv < 1e-6 * vs {
                continue;
            }
            ensure!((gv[[i, j]] - d).abs() <= tol, "vargrad", "variance gradient {} wrt {j} at {} but finite difference {d} (tolerance {tol:e})", gv[[i, j]], q.row(i));
            if tol < 0.02 * d.abs() {
                g.label("var grad sharp");
                g.nontrivial();
            }
        }
    }
    Ok(())
}

fn kth(g: &mut G) -> R {
    let c = gen_case(g, CaseOpt { dmax: 4, fixed: true, kpls: true });
    let gp = fit_or_discard(&c)?;
    let r = reference(&c, &gp.theta(), 1e8)?;
    let nq = g.us(1, 4);
    let q = gen_query(g, &c.x, nq, 0.2);
    let gm = gp.grad(&q);
    for j in 0..c.d {
        let k = gp.kth(&q, j);
        ensure!(k.len() == nq, "len", "kth derivative length");
        for i in 0..nq {
            let tol = 1e-7 * (gm[[i, j]].abs() + r.ys * (1. + 1e-2 * maxabs(&r.gamma)) / r.xs[j]);
            ensure!((k[i] - gm[[i, j]]).abs() <= tol, "kth", "derivative wrt component {j} is {} but the gradient has {} (kernel {:?}, trend {:?}, kpls {:?})", k[i], gm[[i, j]], c.cfg.k, c.cfg.m, c.cfg.kpls);
            if gm[[i, j]].abs() > 1e-3 * r.ys / r.xs[j] {
                g.nontrivial();
            }
        }
    }
    Ok(())
}

pub fn prop06() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        rule: "random training set, kernel, trend, KPLS, fixed or tuned theta; every component of the gradients of mean and variance (GP, sparse GP, every expert surrogate kind) compared with a ladder of 4th-order finite differences whose consistency gives the tolerance; single-component derivatives compared with the gradient. Non-trivial: tolerance below 2% of the derivative.",
        assumptions: &["points within 0.4% of the width of a training coordinate are avoided for kernels with kinks"],
        subs: vec![
            Sub { name: "gradients", quick: 15000, thorough: 500000, jobs: 0, f: gradients },
            Sub { name: "kth_derivatives", quick: 10000, thorough: 300000, jobs: 0, f: kth },
            Sub { name: "sparse_gradients", quick: 3000, thorough: 100000, jobs: 0, f: crate::c09::gradients },
            Sub { name: "surrogate_gradients", quick: 2000, thorough: 60000, jobs: 0, f: crate::c11::surrogate_gradients },
        ],
    }
}

// -------------------------------------------------------------------------------------------- C07

fn units(g: &mut G) -> R {
    let c = gen_case(g, CaseOpt { dmax: 4, fixed: true, kpls: true });
    let gp = fit_or_discard(&c)?;
    let r = reference(&c, &gp.theta(), 1e8)?;
    // new units
    let m = if g.chance(25) { 1e14 } else { 1e3 };
    let a: Vec<f64> = (0..c.d).map(|_| g.logf(1. / m, m)).collect();
    let o: Vec<f64> = (0..c.d).map(|j| g.f(-3., 3.) * a[j] * r.xs[j]).collect();
    let ya = g.sym(1. / m, m);
    let yo = g.f(-3., 3.) * ya.abs() * r.ys;
    let perm = g.perm(c.x.nrows());
    let map = |x: &Array2<f64>| Array2::from_shape_fn(x.dim(), |(i, j)| o[j] + a[j] * x[[i, j]]);
    let x2 = map(&c.x).select(Axis(0), &perm);
    let y2 = c.y.mapv(|v| yo + ya * v).select(Axis(0), &perm);
    g.note("unit scales", &a);
    let gp2 = match fit(&c.cfg, &x2, &y2) {
        Ok(v) => v,
        Err(e) => return fail("err", format!("training fails after a change of units: {e}")),
    };
    let nq = g.us(1, 4);
    let q = gen_query(g, &c.x, nq, 0.3);
    let q2 = map(&q);
    // error of the normalised coordinates caused by rounding of the shift
    let pert: f64 = (0..c.d)
        .map(|j| f64::EPSILON * (c.x.column(j).iter().map(|v| v.abs()).fold(0., f64::max) / r.xs[j] + 4.))
        .sum();
    let amp = 1. + r.theta.iter().map(|t| t * t).fold(0., f64::max);
    let base = 1e-9 + (pert * amp * 10. + 1e-14) * (r.kappa + r.kappa_f);
    if base > 1e-3 {
        return discard("ill conditioned");
    }
    let gm0 = 1. + maxabs(&r.gamma) * 1e-2;
    let (p, p2) = (gp.predict(&q).unwrap(), gp2.predict(&q2).unwrap());
    let (v, v2) = (gp.predict_var(&q).unwrap(), gp2.predict_var(&q2).unwrap());
    let (gm, gv) = gp.valvargrad(&q);
    let (gm2, gv2) = gp2.valvargrad(&q2);
    for i in 0..nq {
        let e = yo + ya * p[i];
        let far = 1. + ((p[i] - r.ym) / r.ys).abs();
        let t = base * ya.abs() * r.ys * gm0 * far + 1e-12 * (yo.abs() + (ya * p[i]).abs());
        ensure!((p2[i] - e).abs() <= t, "mean", "prediction {} after a change of units, expected {e}", p2[i]);
        let e = ya * ya * v[i];
        let t = base * 10. * ya * ya * (r.sigma2() + v[i]);
        ensure!((v2[i] - e).abs() <= t, "var", "variance {} after a change of units, expected {e}", v2[i]);
        for j in 0..c.d {
            if c.cfg.k != K::SE && c.x.column(j).iter().any(|x| (x - q[[i, j]]).abs() < 1e-6 * r.xs[j]) {
                continue;
            }
            let e = ya * gm[[i, j]] / a[j];
            let t = base * 100. * ya.abs() * (r.ys * gm0 / r.xs[j] + gm[[i, j]].abs()) / a[j];
            ensure!((gm2[[i, j]] - e).abs() <= t, "grad", "gradient {} after a change of units, expected {e}", gm2[[i, j]]);
            let e = ya * ya * gv[[i, j]] / a[j];
            let t = base * 100. * ya * ya * ((r.sigma2() + v[i]) * amp / r.xs[j] + gv[[i, j]].abs()) / a[j];
            ensure!((gv2[[i, j]] - e).abs() <= t, "vargrad", "variance gradient {} after a change of units, expected {e}", gv2[[i, j]]);
        }
        g.nontrivial();
    }
    Ok(())
}

/// powers of two rescale without rounding: tuned models must be the same models
fn units_tuned(g: &mut G) -> R {
    let mut c = gen_case(g, CaseOpt { dmax: 3, fixed: false, kpls: false });
    c.cfg.n_start = Some(g.pick(&[0usize, 3]));
    c.cfg.max_eval = Some(40);
    let gp = fit_or_discard(&c)?;
    let a: Vec<f64> = (0..c.d).map(|_| 2f64.powi(g.int(-8, 8) as i32)).collect();
    let ya = 2f64.powi(g.int(-8, 8) as i32);
    let map = |x: &Array2<f64>| Array2::from_shape_fn(x.dim(), |(i, j)| a[j] * x[[i, j]]);
    let gp2 = match fit(&c.cfg, &map(&c.x), &c.y.mapv(|v| ya * v)) {
        Ok(v) => v,
        Err(e) => return fail("err", format!("training fails after a change of units: {e}")),
    };
    let (t1, t2) = (gp.theta(), gp2.theta());
    ensure!(t1.iter().zip(&t2).all(|(a, b)| (a - b).abs() <= 1e-9 * a), "theta", "tuned theta depends on units: {t1} {t2}");
    let q = gen_query(g, &c.x, 3, 0.3);
    let (p, p2) = (gp.predict(&q).unwrap(), gp2.predict(&map(&q)).unwrap());
    let (v, v2) = (gp.predict_var(&q).unwrap(), gp2.predict_var(&map(&q)).unwrap());
    let s = maxabs1(&c.y) + maxabs1(&p);
    let vs = gp.variance() + maxabs1(&v);
    ensure!(maxabs1(&(&p * ya - &p2)) <= 1e-6 * s * ya, "mean", "{p} {p2}");
    ensure!(maxabs1(&(&v * ya * ya - &v2)) <= 1e-6 * vs * ya * ya, "var", "{v} {v2}");
    ensure!((gp.variance() * ya * ya - gp2.variance()).abs() <= 1e-6 * gp2.variance(), "sigma2", "process variance");
    g.nontrivial();
    Ok(())
}

fn columns(g: &mut G) -> R {
    let c = gen_case(g, CaseOpt { dmax: 5, fixed: true, kpls: false });
    if c.d < 2 {
        return discard("one input");
    }
    let gp = fit_or_discard(&c)?;
    let r = reference(&c, &gp.theta(), 1e8)?;
    let perm = g.perm(c.d);
    let x2 = c.x.select(Axis(1), &perm);
    let th = Array1::from_shape_fn(c.d, |j| gp.theta()[perm[j]]);
    let cfg = GpCfg { tuning: ThetaTuning::Fixed(th), ..c.cfg.clone() };
    let gp2 = match fit(&cfg, &x2, &c.y) {
        Ok(v) => v,
        Err(e) => return fail("err", format!("training fails after reordering columns: {e}")),
    };
    let q = gen_query(g, &c.x, 4, 0.3);
    let q2 = q.select(Axis(1), &perm);
    let base = 1e-9 + 1e-14 * (r.kappa + r.kappa_f);
    let s = r.ys * (1. + maxabs(&r.gamma) * 1e-2);
    let (p, p2) = (gp.predict(&q).unwrap(), gp2.predict(&q2).unwrap());
    let (v, v2) = (gp.predict_var(&q).unwrap(), gp2.predict_var(&q2).unwrap());
    let (gm, gv) = gp.valvargrad(&q);
    let (gm2, gv2) = gp2.valvargrad(&q2);
    for i in 0..4 {
        let far = 1. + ((p[i] - r.ym) / r.ys).abs();
        ensure!((p[i] - p2[i]).abs() <= base * s * far + 1e-12 * r.ym.abs(), "mean", "{} {}", p[i], p2[i]);
        ensure!((v[i] - v2[i]).abs() <= 10. * base * (r.sigma2() + v[i]), "var", "{} {}", v[i], v2[i]);
        for j in 0..c.d {
            let k = perm[j];
            let sc = far / r.xs[k];
            ensure!((gm[[i, k]] - gm2[[i, j]]).abs() <= 100. * base * s * sc * 10., "grad", "{} {}", gm[[i, k]], gm2[[i, j]]);
            ensure!((gv[[i, k]] - gv2[[i, j]]).abs() <= 1e3 * base * (r.sigma2() + v[i]) * sc, "vargrad", "{} {}", gv[[i, k]], gv2[[i, j]]);
        }
    }
    if perm != (0..c.d).collect::<Vec<_>>() {
        g.nontrivial();
    }
    Ok(())
}

pub fn prop07() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "random model trained twice, on data related by a change of units of every input and the output (any positive scale, offset, sign of the output), a permutation of rows, or a permutation of columns; outputs and gradients must be related the same way. Tuned models are rescaled by powers of two (exact in floating point). Non-trivial: every compared case (a non-identity permutation for columns).",
        assumptions: &["tolerances account for the rounding of the change of units amplified by the condition number"],
        subs: vec![
            Sub { name: "units", quick: 20000, thorough: 600000, jobs: 0, f: units },
            Sub { name: "units_tuned", quick: 1500, thorough: 50000, jobs: 0, f: units_tuned },
            Sub { name: "columns", quick: 12500, thorough: 400000, jobs: 0, f: columns },
        ],
    }
}

// -------------------------------------------------------------------------------------------- C08

fn lkh_at(c: &GpCase, theta: Vec<f64>) -> Option<f64> {
    let cfg = GpCfg { tuning: ThetaTuning::Fixed(Array1::from_vec(theta)), ..c.cfg.clone() };
    fit(&cfg, &c.x, &c.y).ok().map(|g| g.likelihood())
}

fn tuning(g: &mut G) -> R {
    let m = g.pick(&MEANS);
    let k = g.pick(&KERNELS);
    let d = g.us(1, 4);
    let nmin = (n_basis(m, d) + 2).max(5);
    let n = g.us(nmin, nmin + 8);
    let x = gen_x(g, n, d, true);
    let y = gen_y(g, &x);
    let kpls = if d > 1 && g.chance(25) { Some(g.us(1, d)) } else { None };
    let h = kpls.unwrap_or(d);
    let bcast_i = g.chance(40);
    let bcast_b = g.chance(40);
    let gen_bounds = |g: &mut G| {
        let lo = g.logf(1e-2, 1.);
        (lo, lo * g.logf(1.5, 300.))
    };
    let bounds: Vec<(f64, f64)> = if bcast_b { vec![gen_bounds(g)] } else { (0..h).map(|_| gen_bounds(g)).collect() };
    let full_bounds: Vec<(f64, f64)> = (0..h).map(|j| bounds[if bcast_b { 0 } else { j }]).collect();
    // an initial guess within all the bounds it has to satisfy
    let init: Vec<f64> = if bcast_i {
        let lo = full_bounds.iter().map(|b| b.0).fold(0., f64::max);
        let hi = full_bounds.iter().map(|b| b.1).fold(f64::INFINITY, f64::min);
        if lo < hi { vec![g.logf(lo, hi)] } else { vec![lo] }
    } else {
        (0..h).map(|j| g.logf(full_bounds[j].0, full_bounds[j].1)).collect()
    };
    let full_init: Vec<f64> = (0..h).map(|j| init[if bcast_i { 0 } else { j }]).collect();
    // nothing asked: full tuning from the default guess within the default bounds
    let by_default = g.chance(10);
    let (bounds, full_bounds, init, full_init) = if by_default {
        let (b, i) = (ThetaTuning::<f64>::DEFAULT_BOUNDS, ThetaTuning::<f64>::DEFAULT_INIT);
        (vec![b], vec![b; h], vec![i], vec![i; h])
    } else {
        (bounds, full_bounds, init, full_init)
    };
    let mode = if by_default { 1 } else { g.us(0, 2) };
    let mut active: Vec<usize> = (0..h).filter(|_| g.chance(50)).collect();
    if active.is_empty() {
        active.push(g.us(0, h - 1));
    }
    let tuning = match mode {
        0 => ThetaTuning::Fixed(Array1::from_vec(init.clone())),
        1 if by_default => ThetaTuning::default(),
        1 => ThetaTuning::Full { init: Array1::from_vec(init.clone()), bounds: Array1::from_vec(bounds.clone()) },
        _ => ThetaTuning::Partial { init: Array1::from_vec(init.clone()), bounds: Array1::from_vec(bounds.clone()), active: active.clone() },
    };
    g.label(["fixed", "full", "partial"][mode]);
    let n_start = g.pick(&[None, Some(0), Some(1), Some(3)]);
    let max_eval = g.pick(&[None, Some(5), Some(25), Some(60)]);
    let cfg = GpCfg { m, k, tuning, kpls, n_start, max_eval, nugget: None };
    g.note("cfg", &cfg);
    g.note("d,n", (d, n));
    g.note("x", x.rows().into_iter().map(|r| r.to_vec()).collect::<Vec<_>>());
    g.note("y", y.to_vec());
    let c = GpCase { x, y, cfg, d, h };
    let gp = match fit(&c.cfg, &c.x, &c.y) {
        Ok(v) => v,
        Err(e) => {
            // only acceptable when the data cannot be supported there
            if lkh_at(&c, full_init.clone()).is_some() {
                return fail("refused", format!("tuning {:?} refused although its initial guess is trainable: {e}", c.cfg.tuning));
            }
            return discard("not trainable");
        }
    };
    let th = gp.theta();
    ensure!(th.len() == h, "len", "theta {th} has {} components, expected {h}", th.len());
    ensure!(gp.kpls() == if h < d { Some(h) } else { None }, "kpls", "kpls_dim {:?} expected {h} of {d}", gp.kpls());
    match mode {
        0 => {
            for j in 0..h {
                ensure!(th[j] == full_init[j], "fixed", "fixed theta {:?} returned as {th}", full_init);
            }
        }
        _ => {
            for j in 0..h {
                let act = mode == 1 || active.contains(&j);
                if act {
                    let (lo, hi) = full_bounds[j];
                    ensure!(th[j] >= lo * (1. - 1e-9) && th[j] <= hi * (1. + 1e-9), "bounds", "theta {th} component {j} outside of [{lo},{hi}]");
                } else {
                    ensure!((th[j] - full_init[j]).abs() <= 1e-12 * full_init[j], "partial", "inactive theta component {j} changed from {} to {}", full_init[j], th[j]);
                }
            }
        }
    }
    // never worse than the initial guess when that guess is admissible
    let ok_init = (0..h).all(|j| full_init[j] >= full_bounds[j].0 && full_init[j] <= full_bounds[j].1);
    if let (true, Some(l0)) = (ok_init, lkh_at(&c, full_init.clone())) {
        ensure!(gp.likelihood() >= l0 - 1e-6 * (1. + l0.abs()), "worse", "tuned likelihood {} below the initial guess' {l0} (theta {th}, init {full_init:?})", gp.likelihood());
        if mode > 0 && gp.likelihood() > l0 + 1e-3 * (1. + l0.abs()) {
            g.nontrivial();
            g.label("improved");
        }
    }
    if mode == 0 {
        g.nontrivial();
    }
    // reported likelihood is that of the reported theta
    if let Some(l) = lkh_at(&c, th.to_vec()) {
        ensure!((l - gp.likelihood()).abs() <= 1e-8 * (1. + l.abs()), "report", "reported likelihood {} but theta has {l}", gp.likelihood());
    }
    // reproducible
    let gp2 = fit(&c.cfg, &c.x, &c.y).map_err(|e| Stop::Fail(Fail { sig: "repro".into(), msg: e.to_string() }))?;
    ensure!(gp2.theta() == th && gp2.likelihood() == gp.likelihood(), "repro", "training twice gives theta {th} then {}", gp2.theta());
    Ok(())
}

/// The tuner finds (nearly) the best likelihood of a 1-d scan when started from several points. Each start may stop at a
/// local optimum, hence one miss proves nothing: two among four problems of a kind do (one miss among thousands is usual)
fn tuning_quality(g: &mut G) -> R {
    let k = g.pick(&KERNELS);
    let (lo, hi) = (0.05, 20.);
    let mut miss: Vec<String> = vec![];
    let mut done = 0;
    for _ in 0..4 {
        let n = g.us(6, 12);
        let x = gen_x(g, n, 1, true);
        let y = gen_y(g, &x);
        let cfg = GpCfg {
            m: M::Const,
            k,
            tuning: ThetaTuning::Full { init: Array1::from_elem(1, g.logf(lo, hi)), bounds: Array1::from_elem(1, (lo, hi)) },
            kpls: None,
            n_start: Some(10),
            max_eval: None,
            nugget: None,
        };
        g.note("cfg", &cfg);
        let c = GpCase { x, y, cfg, d: 1, h: 1 };
        let Ok(gp) = fit(&c.cfg, &c.x, &c.y) else { continue };
        let mut best = f64::NEG_INFINITY;
        let mut arg = 0.;
        for i in 0..=60 {
            let t = lo * (hi / lo as f64).powf(i as f64 / 60.);
            let Some(w) = ref_weights(&c) else { return discard("pls") };
            if let Some(r) = RefGp::new(M::Const, k, &c.x, &c.y, &[t], w, NUGGET) {
                if r.kappa < 1e12 && r.lkh > best {
                    best = r.lkh;
                    arg = t;
                }
            }
        }
        done += 1;
        if !(gp.likelihood() >= best - 0.02 * (best.abs() + 1.) - 0.3) {
            miss.push(format!("tuned likelihood {} (theta {}) but theta {arg} reaches {best}", gp.likelihood(), gp.theta()));
        }
    }
    if done == 0 {
        return discard("not trainable");
    }
    g.label(format!("{} missed", miss.len()));
    ensure!(miss.len() < 2, "optimum", "{} of {done} trainings: {}", miss.len(), miss.join("; "));
    g.nontrivial();
    Ok(())
}

/// settings of the wrong length are refused
fn wrong_len(g: &mut G) -> R {
    let d = g.us(2, 5);
    let n = d + 6;
    let x = gen_x(g, n, d, false);
    let y = gen_y(g, &x);
    let wrong = loop {
        let w = g.us(2, d + 2);
        if w != d {
            break w;
        }
        if g.choices.len() > 4000 {
            return discard("loop");
        }
    };
    let right = Array1::from_elem(d, 0.5);
    let badi = Array1::from_elem(wrong, 0.5);
    let okb = Array1::from_elem(1, (0.1, 5.));
    let badb = Array1::from_elem(wrong, (0.1, 5.));
    let which = g.us(0, 2);
    let tuning = match which {
        0 => ThetaTuning::Full { init: badi, bounds: okb },
        1 => ThetaTuning::Full { init: right, bounds: badb },
        _ => ThetaTuning::Fixed(badi),
    };
    let cfg = GpCfg { m: M::Const, k: K::SE, tuning, kpls: None, n_start: Some(0), max_eval: None, nugget: None };
    g.note("cfg", &cfg);
    g.note("d", d);
    match no_panic(|| fit(&cfg, &x, &y).map(|_| ())) {
        Ok(Ok(())) => fail("accepted", format!("tuning with {wrong} components accepted for {d} inputs")),
        _ => {
            g.nontrivial();
            Ok(())
        }
    }
}

/// single precision training obeys the same rules
fn tuning32(g: &mut G) -> R {
    let k = g.us(0, 1);
    let d = g.us(1, 3);
    let n = g.us(d + 4, d + 9);
    let x = gen_x(g, n, d, false);
    let (yn, _, _) = {
        let y = gen_y(g, &x);
        normalise(&y.insert_axis(Axis(1)))
    };
    let y = yn.column(0).to_owned();
    let x32 = x.mapv(|v| v as f32);
    let y32 = y.mapv(|v| v as f32);
    let (lo, hi) = (0.5f32, 8f32);
    let init = g.f(0.6, 7.) as f32;
    let n_start = g.pick(&[0usize, 2, 4]);
    g.note("d,n,kernel,init,n_start", (d, n, k, init, n_start));
    macro_rules! run {
        ($c:ty) => {{
            let tun = |t| GaussianProcess::<f32, ConstantMean, $c>::params(ConstantMean::default(), <$c>::default()).theta_tuning(t).n_start(n_start).max_eval(60).nugget(1e-3);
            let ds = Dataset::new(x32.clone(), y32.clone());
            let f = |t| tun(t).check().unwrap().fit(&ds);
            let full = ThetaTuning::Full { init: Array1::from_elem(1, init), bounds: Array1::from_elem(1, (lo, hi)) };
            let gp = match f(full.clone()) {
                Ok(v) => v,
                Err(e) => return fail("err", format!("f32 training fails: {e}")),
            };
            let gp0 = match f(ThetaTuning::Fixed(Array1::from_elem(d, init))) {
                Ok(v) => v,
                Err(_) => return discard("init not trainable"),
            };
            let gp2 = f(full).unwrap();
            (gp.theta().clone(), gp.likelihood(), gp0.likelihood(), gp2.theta().clone(), gp.predict(&x32).unwrap(), gp.predict_var(&x32).unwrap())
        }};
    }
    let (th, l, l0, th2, p, v) = if k == 0 { run!(Matern52Corr) } else { run!(SquaredExponentialCorr) };
    ensure!(th.len() == d, "len", "theta {th}");
    ensure!(th.iter().all(|t| *t >= lo * 0.999 && *t <= hi * 1.001), "bounds32", "f32 theta {th} outside [{lo},{hi}]");
    ensure!(l >= l0 - 1e-3 * (1. + l0.abs()), "worse32", "f32 tuned likelihood {l} (theta {th}) below its initial guess' {l0} (theta {init})");
    ensure!(th == th2, "repro", "f32 training twice gives {th} then {th2}");
    ensure!(p.iter().chain(v.iter()).all(|v| v.is_finite()), "finite", "non finite f32 prediction");
    for i in 0..n {
        ensure!((p[i] - y32[i]).abs() < 0.5, "interp32", "f32 prediction {} for {}", p[i], y32[i]);
    }
    if l > l0 + 1e-2 {
        g.nontrivial();
    }
    Ok(())
}

pub fn prop08() -> Prop {
    Prop {
        id: "C08",
        level: "exploration",
        rule: "random data, tuning mode (fixed, full, partial with a random active set), bounds and guesses of length 1 or h, KPLS dimension, restarts 0/1/3/default and evaluation budget; the trained model is compared with the request, with a model fixed at the guess and with a second training. Non-trivial: likelihood strictly improved over the guess, or a fixed setting.",
        assumptions: &["the initial guess is generated inside the bounds", "optimum quality is only claimed for 1-d problems with 10 restarts, within 2% + 0.3 of a 61-point scan"],
        subs: vec![
            Sub { name: "tuning", quick: 4500, thorough: 150000, jobs: 0, f: tuning },
            Sub { name: "tuning_quality", quick: 750, thorough: 30000, jobs: 0, f: tuning_quality },
            Sub { name: "wrong_length", quick: 1500, thorough: 30000, jobs: 0, f: wrong_len },
            Sub { name: "tuning_f32", quick: 1000, thorough: 30000, jobs: 0, f: tuning32 },
        ],
    }
}

// -------------------------------------------------------------------------------------------- C10

fn sampling(g: &mut G) -> R {
    let c = gen_case(g, CaseOpt { dmax: 3, fixed: true, kpls: false });
    let gp = fit_or_discard(&c)?;
    let r = reference(&c, &gp.theta(), 1e7)?;
    let nq = g.us(1, 5);
    let mut q = gen_query(g, &c.x, nq, 0.3);
    let method = g.us(0, 2);
    let with_train = method > 0 && g.chance(40);
    if with_train {
        q.row_mut(0).assign(&c.x.row(0));
        g.label("training point");
    }
    g.label(["chol", "eig", "default"][method]);
    // reference posterior
    let s2 = r.sigma2();
    let mean: Vec<f64> = (0..nq).map(|i| r.mean(&q.row(i).to_owned()).0).collect();
    let cov = Array2::from_shape_fn((nq, nq), |(i, j)| r.cov(&q.row(i).to_owned(), &q.row(j).to_owned()));
    if method == 0 {
        let mn = sym_eig(&(&cov / s2)).into_iter().fold(f64::INFINITY, f64::min);
        if mn < 1e-5 {
            return discard("near singular for Cholesky");
        }
    }
    let nt = 4000;
    let draw = |n: usize| match method {
        0 => gp.sample_chol(&q, n),
        1 => gp.sample_eig(&q, n),
        _ => gp.sample(&q, n),
    };
    let one = draw(1);
    ensure!(one.dim() == (nq, 1), "shape", "one trajectory has shape {:?}", one.dim());
    let s = draw(nt);
    ensure!(s.dim() == (nq, nt), "shape", "trajectories have shape {:?} expected {:?}", s.dim(), (nq, nt));
    ensure!(s.iter().all(|v| v.is_finite()), "finite", "non finite trajectory");
    let floor = s2 * 1e-6;
    for i in 0..nq {
        let m = s.row(i).sum() / nt as f64;
        let sd = (cov[[i, i]].max(0.) / nt as f64).sqrt();
        ensure!((m - mean[i]).abs() <= 8. * sd + 1e-3 * floor.sqrt() + 1e-6 * r.ys, "mean", "trajectory mean {m} at point {i}, posterior mean {} (sd of the estimate {sd})", mean[i]);
    }
    for i in 0..nq {
        for j in 0..=i {
            let e = (0..nt).map(|t| (s[[i, t]] - mean[i]) * (s[[j, t]] - mean[j])).sum::<f64>() / nt as f64;
            let se = ((cov[[i, i]] * cov[[j, j]] + cov[[i, j]] * cov[[i, j]]).max(0.) / nt as f64).sqrt();
            ensure!((e - cov[[i, j]]).abs() <= 9. * se + floor + 1e-4 * s2 * (r.kappa * 1e-13), "cov", "trajectory covariance {e} of points {i},{j}, posterior {} (sd of the estimate {se}, process variance {s2})", cov[[i, j]]);
            if i != j && cov[[i, j]].abs() > 20. * se {
                g.nontrivial();
            }
        }
    }
    if with_train {
        for t in 0..nt {
            ensure!((s[[0, t]] - c.y[0]).abs() <= 1e-3 * s2.sqrt() + 1e-9 * r.ym.abs(), "train", "trajectory value {} at a training point observed {} (sd {})", s[[0, t]], c.y[0], s2.sqrt());
        }
    }
    if nq == 1 {
        g.nontrivial();
    }
    Ok(())
}

pub fn prop10() -> Prop {
    Prop {
        id: "C10",
        level: "exploration",
        rule: "random model, 1..5 sampling points (training points included) and method; first and second moments of 4000 trajectories against the posterior of the reference kriging, within 8-9 standard errors. Non-trivial: a correlated pair detected above 20 standard errors, or a single point.",
        assumptions: &["trajectories use unseeded random numbers: checks are statistical with a false-alarm probability below 1e-12 per comparison", "Cholesky sampling is only claimed when the posterior covariance is well conditioned, as documented"],
        subs: vec![
            Sub { name: "trajectories", quick: 6000, thorough: 120000, jobs: 0, f: sampling },
            Sub { name: "sparse_trajectories", quick: 1000, thorough: 30000, jobs: 0, f: crate::c09::sampling },
        ],
    }
}
