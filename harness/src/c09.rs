//! C09: sparse Gaussian processes against dense FITC / VFE formulas; their gradients and trajectories
use crate::ensure;
use crate::fw::*;
use crate::gpref::*;
use crate::la::*;
use egobox_gp::correlation_models::*;
use egobox_gp::{GpError, Inducings, ParamTuning, SgpParams, SparseGaussianProcess, SparseMethod, ThetaTuning};
use linfa::prelude::Fit;
use linfa::{Dataset, ParamGuard};
use ndarray::{Array1, Array2, Axis};

pub trait SgpLike: Send + Sync {
    fn predict(&self, x: &Array2<f64>) -> Array1<f64>;
    fn predict_var(&self, x: &Array2<f64>) -> Array1<f64>;
    fn grad(&self, x: &Array2<f64>) -> Array2<f64>;
    fn vargrad(&self, x: &Array2<f64>) -> Array2<f64>;
    fn theta(&self) -> Array1<f64>;
    fn variance(&self) -> f64;
    fn noise(&self) -> f64;
    fn likelihood(&self) -> f64;
    fn dims(&self) -> (usize, usize);
    fn kpls(&self) -> Option<usize>;
    fn inducings(&self) -> Array2<f64>;
    fn sample(&self, method: usize, x: &Array2<f64>, n: usize) -> Array2<f64>;
    fn q2(&self, k: usize) -> f64;
    fn data(&self) -> (Array2<f64>, Array1<f64>);
}
impl<Kk: CorrelationModel<f64> + Send> SgpLike for SparseGaussianProcess<f64, Kk> {
    fn predict(&self, x: &Array2<f64>) -> Array1<f64> {
        SparseGaussianProcess::predict(self, x).unwrap()
    }
    fn predict_var(&self, x: &Array2<f64>) -> Array1<f64> {
        SparseGaussianProcess::predict_var(self, x).unwrap()
    }
    fn grad(&self, x: &Array2<f64>) -> Array2<f64> {
        self.predict_gradients(x)
    }
    fn vargrad(&self, x: &Array2<f64>) -> Array2<f64> {
        self.predict_var_gradients(x)
    }
    fn theta(&self) -> Array1<f64> {
        SparseGaussianProcess::theta(self).clone()
    }
    fn variance(&self) -> f64 {
        SparseGaussianProcess::variance(self)
    }
    fn noise(&self) -> f64 {
        self.noise_variance()
    }
    fn likelihood(&self) -> f64 {
        SparseGaussianProcess::likelihood(self)
    }
    fn dims(&self) -> (usize, usize) {
        SparseGaussianProcess::dims(self)
    }
    fn kpls(&self) -> Option<usize> {
        self.kpls_dim()
    }
    fn inducings(&self) -> Array2<f64> {
        SparseGaussianProcess::inducings(self).clone()
    }
    fn sample(&self, method: usize, x: &Array2<f64>, n: usize) -> Array2<f64> {
        match method {
            0 => self.sample_chol(x, n),
            1 => self.sample_eig(x, n),
            _ => SparseGaussianProcess::sample(self, x, n),
        }
    }
    fn q2(&self, k: usize) -> f64 {
        use egobox_gp::metrics::PredictScore;
        if k == 0 { self.looq2_score() } else { self.q2_score(k) }
    }
    fn data(&self) -> (Array2<f64>, Array1<f64>) {
        use egobox_gp::metrics::PredictScore;
        self.training_data().clone()
    }
}

#[derive(Clone, Debug)]
pub struct SCfg {
    pub k: K,
    pub method: SparseMethod,
    pub z: Inducings<f64>,
    pub tuning: Option<ThetaTuning<f64>>,
    pub noise: ParamTuning<f64>,
    pub kpls: Option<usize>,
    pub seed: Option<u64>,
    pub n_start: usize,
    pub nugget: Option<f64>,
    /// settings given one by one by the setters rather than to the constructor
    pub setters: bool,
}

fn fit_t<Kk: CorrelationModel<f64> + Send + 'static>(c: &SCfg, kk: Kk, x: &Array2<f64>, y: &Array1<f64>) -> Result<Box<dyn SgpLike>, GpError> {
    let mut p = if c.setters {
        // setters replace whatever was given before
        let p = SgpParams::<f64, Kk>::new(kk.clone(), Inducings::Randomized(1)).corr(kk).nugget(1e-3);
        let p = match &c.z {
            Inducings::Randomized(n) => p.inducings(Array2::zeros((2, x.ncols()))).n_inducings(*n),
            Inducings::Located(z) => p.n_inducings(3).inducings(z.clone()),
            _ => p,
        };
        p.nugget(NUGGET)
    } else {
        SgpParams::<f64, Kk>::new(kk, c.z.clone())
    };
    p = p
        .sparse_method(c.method)
        .noise_variance(c.noise.clone())
        .kpls_dim(c.kpls)
        .seed(c.seed)
        .n_start(c.n_start);
    match &c.tuning {
        Some(ThetaTuning::Full { init, bounds }) if c.setters => p = p.theta_bounds(bounds.clone()).theta_init(init.clone()),
        Some(ThetaTuning::Fixed(v)) if c.setters => p = p.theta_tuning(ThetaTuning::Fixed(v * 2.)).theta_init(v.clone()),
        Some(t) => p = p.theta_tuning(t.clone()),
        None => {}
    }
    if let Some(t) = c.nugget {
        p = p.nugget(t);
    }
    let ds = Dataset::new(x.clone(), y.clone());
    Ok(Box::new(p.check()?.fit(&ds)?))
}
pub fn fit_sgp(c: &SCfg, x: &Array2<f64>, y: &Array1<f64>) -> Result<Box<dyn SgpLike>, GpError> {
    match c.k {
        K::SE => fit_t(c, SquaredExponentialCorr::default(), x, y),
        K::AE => fit_t(c, AbsoluteExponentialCorr::default(), x, y),
        K::M32 => fit_t(c, Matern32Corr::default(), x, y),
        K::M52 => fit_t(c, Matern52Corr::default(), x, y),
    }
}

fn kmat(k: K, a: &Array2<f64>, b: &Array2<f64>, th: &[f64], w: &Array2<f64>, s2: f64) -> Array2<f64> {
    Array2::from_shape_fn((a.nrows(), b.nrows()), |(i, j)| {
        let d: Vec<f64> = (&a.row(i) - &b.row(j)).to_vec();
        s2 * kval(k, &d, th, w)
    })
}

/// Dense sparse-GP posterior
pub struct RefSgp {
    k: K,
    th: Vec<f64>,
    w: Array2<f64>,
    s2: f64,
    noise: f64,
    z: Array2<f64>,
    x: Array2<f64>,
    kzzi: Array2<f64>,
    kzx: Array2<f64>,
    si: Array2<f64>,
    alpha: Array2<f64>,
    pub lkh: f64,
    pub kappa: f64,
}
impl RefSgp {
    #[allow(clippy::too_many_arguments)]
    pub fn new(k: K, method: SparseMethod, x: &Array2<f64>, y: &Array1<f64>, z: &Array2<f64>, th: &[f64], w: Array2<f64>, s2: f64, noise: f64, nugget: f64) -> Option<RefSgp> {
        let kzz = kmat(k, z, z, th, &w, s2) + Array2::<f64>::eye(z.nrows()) * nugget;
        let kzzi = inv(&kzz)?;
        let kappa = norm1(&kzz) * norm1(&kzzi);
        let kzx = kmat(k, z, x, th, &w, s2);
        let q = kzx.t().dot(&kzzi).dot(&kzx);
        let n = x.nrows();
        let mut s = q.clone();
        let nz = if method == SparseMethod::Vfe { noise.max(nugget) } else { noise };
        for i in 0..n {
            if method == SparseMethod::Fitc {
                s[[i, i]] = s2;
            }
            s[[i, i]] += nz;
        }
        let l = chol(&s)?;
        let si = inv(&s)?;
        let yy = y.clone().insert_axis(Axis(1));
        let alpha = si.dot(&yy);
        let mut lkh = 2. * l.diag().iter().map(|v| v.ln()).sum::<f64>() + yy.t().dot(&alpha)[[0, 0]];
        if method == SparseMethod::Vfe {
            lkh += (0..n).map(|i| s2 - q[[i, i]]).sum::<f64>() / nz;
        }
        let kappa = kappa.max(norm1(&s) * norm1(&si));
        Some(RefSgp { k, th: th.to_vec(), w, s2, noise, z: z.clone(), x: x.clone(), kzzi, kzx, si, alpha, lkh: -0.5 * lkh, kappa })
    }
    /// posterior mean, and covariance of the latent process
    pub fn post(&self, q: &Array2<f64>) -> (Array1<f64>, Array2<f64>) {
        let kqz = kmat(self.k, q, &self.z, &self.th, &self.w, self.s2);
        let kqx = kqz.dot(&self.kzzi).dot(&self.kzx);
        let m = kqx.dot(&self.alpha).remove_axis(Axis(1));
        let c = kmat(self.k, q, q, &self.th, &self.w, self.s2) - kqx.dot(&self.si).dot(&kqx.t());
        (m, c)
    }
    fn n(&self) -> usize {
        self.x.nrows()
    }
}

pub struct SCase {
    pub x: Array2<f64>,
    pub y: Array1<f64>,
    pub c: SCfg,
    pub h: usize,
    pub d: usize,
}
const NUGGET: f64 = 100. * f64::EPSILON;

pub fn gen_sgp(g: &mut G, tuned: bool) -> SCase {
    let k = g.pick(&KERNELS);
    let method = g.pick(&[SparseMethod::Fitc, SparseMethod::Vfe]);
    let d = g.us(1, 3);
    let n = g.us(8, 30);
    // raw (not normalised) inputs of order one
    let mut x = gen_x(g, n, d, false);
    let sc = g.f(1., 6.);
    let of = g.f(-4., 4.);
    x.mapv_inplace(|v| of + sc * v);
    let mut y = gen_y(g, &x);
    let (yn, _, _) = normalise(&y.clone().insert_axis(Axis(1)));
    let ys = g.logf(0.1, 10.);
    let yo = g.f(-1., 1.);
    y = yn.column(0).mapv(|v| (v + yo) * ys);
    let kpls = if d > 1 && g.chance(20) { Some(g.us(1, d - 1)) } else { None };
    let h = kpls.unwrap_or(d);
    let tuning = match (tuned, g.us(0, 2)) {
        (false, b) => {
            let len = if b == 0 { 1 } else { h };
            ThetaTuning::Fixed(Array1::from_shape_fn(len, |_| g.logf(0.3, 6.) / sc.sqrt()))
        }
        (true, b) => {
            let nb = if b == 0 { 1 } else { h };
            let ni = if b == 1 { 1 } else { h };
            let bounds = Array1::from_shape_fn(nb, |_| {
                let lo = g.logf(0.05, 0.5);
                (lo, lo * g.logf(5., 100.))
            });
            let lo = bounds.iter().map(|b| b.0).fold(0., f64::max);
            let hi = bounds.iter().map(|b| b.1).fold(f64::INFINITY, f64::min);
            let (lo, hi) = (lo.min(hi), hi.max(lo));
            ThetaTuning::Full { init: Array1::from_shape_fn(ni, |_| g.logf(lo, hi)), bounds }
        }
    };
    let v = ys * ys;
    let noise = if g.chance(60) {
        ParamTuning::Fixed(v * g.logf(1e-4, 0.3))
    } else {
        let lo = v * g.logf(1e-5, 1e-2);
        let hi = lo * g.logf(2., 100.);
        ParamTuning::Optimized { init: g.logf(lo, hi), bounds: (lo, hi) }
    };
    let z = if g.chance(50) {
        Inducings::Randomized(g.us(1, n.min(12)))
    } else {
        let nz = g.us(1, 8);
        let z = gen_query(g, &x, nz, 0.1);
        Inducings::Located(z)
    };
    let c = SCfg { k, method, z, tuning: Some(tuning), noise, kpls, seed: Some(g.seed()), n_start: if tuned { g.pick(&[0usize, 2]) } else { 0 }, nugget: if g.chance(30) { Some(g.logf(1e-12, 1e-6)) } else { None }, setters: g.chance(40) };
    g.note("cfg", &c);
    g.note("x", x.rows().into_iter().map(|r| r.to_vec()).collect::<Vec<_>>());
    g.note("y", y.to_vec());
    g.label(format!("{method:?}"));
    g.label(format!("{k:?}"));
    SCase { x, y, c, h, d }
}

fn sref(s: &SCase, gp: &dyn SgpLike, kmax: f64) -> Result<RefSgp, Stop> {
    let w = match s.c.kpls {
        None => Array2::eye(s.d),
        Some(h) => match pls_rotations(&s.x, &s.y, h) {
            Some(w) => w,
            None => return discard("pls"),
        },
    };
    let th = gp.theta();
    match RefSgp::new(s.c.k, s.c.method, &s.x, &s.y, &gp.inducings(), th.as_slice().unwrap(), w, gp.variance(), gp.noise(), s.c.nugget.unwrap_or(NUGGET)) {
        Some(r) if r.kappa < kmax => Ok(r),
        _ => discard("ill conditioned"),
    }
}

fn compare(g: &mut G, s: &SCase, gp: &dyn SgpLike) -> R {
    let r = sref(s, gp, 1e9)?;
    let tol = 1e-9 + 1e-14 * r.kappa * r.n() as f64;
    let nq = g.us(1, 5);
    let q = gen_query(g, &s.x, nq, 0.5);
    let (m, c) = r.post(&q);
    let (pm, pv) = (gp.predict(&q), gp.predict_var(&q));
    let (yabs, s2) = (maxabs1(&s.y), gp.variance());
    let am = maxabs(&r.alpha) * s2;
    for i in 0..nq {
        ensure!((pm[i] - m[i]).abs() <= tol * (yabs + am), "mean", "mean {} expected {} ({:?})", pm[i], m[i], s.c.method);
        let v = c[[i, i]].max(1e-15) + r.noise;
        ensure!((pv[i] - v).abs() <= tol * (s2 + r.noise), "var", "variance {} expected {v} ({:?}, variance {s2}, noise {})", pv[i], s.c.method, r.noise);
        // never above prior plus noise, never below the noise
        ensure!(pv[i] >= r.noise * (1. - 1e-12) && pv[i] <= (s2 + r.noise) * (1. + 1e-9), "range", "variance {} with process variance {s2} and noise {}", pv[i], r.noise);
        if c[[i, i]] < 0.9 * s2 {
            g.nontrivial();
        }
    }
    let lt = tol * 100. * (1. + r.lkh.abs()) + 1e-12 * r.kappa;
    ensure!((gp.likelihood() - r.lkh).abs() <= lt, "likelihood", "likelihood {} expected {} ({:?})", gp.likelihood(), r.lkh, s.c.method);
    Ok(())
}

fn fitit(s: &SCase) -> Result<Box<dyn SgpLike>, Stop> {
    match no_panic(|| fit_sgp(&s.c, &s.x, &s.y)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => {
            // may only be refused when the inducing covariance is numerically singular
            let w = match s.c.kpls {
                None => Array2::eye(s.d),
                Some(h) => match pls_rotations(&s.x, &s.y, h) {
                    Some(w) => w,
                    None => return discard("pls"),
                },
            };
            let init = s.c.tuning.as_ref().unwrap().init().clone();
            let th: Vec<f64> = (0..s.h).map(|j| init[if init.len() == 1 { 0 } else { j }]).collect();
            let z = match &s.c.z {
                Inducings::Located(z) => z.clone(),
                _ => s.x.clone(),
            };
            if cond(&kmat(s.c.k, &z, &z, &th, &w, 1.)) > 1e9 {
                return discard("singular");
            }
            fail("err", format!("training fails: {e}"))
        }
        Err(m) => fail("panic", m),
    }
}

fn posterior_fixed(g: &mut G) -> R {
    let s = gen_sgp(g, false);
    let gp = fitit(&s)?;
    settings(&s, gp.as_ref())?;
    compare(g, &s, gp.as_ref())
}

fn settings(s: &SCase, gp: &dyn SgpLike) -> R {
    ensure!(gp.dims() == (s.d, 1), "dims", "dims {:?}, expected {:?}", gp.dims(), (s.d, 1));
    ensure!(gp.kpls() == s.c.kpls, "kpls", "kpls {:?} expected {:?}", gp.kpls(), s.c.kpls);
    let th = gp.theta();
    ensure!(th.len() == s.h, "theta_len", "theta {th} expected {} components", s.h);
    match s.c.tuning.as_ref().unwrap() {
        ThetaTuning::Fixed(v) => {
            for j in 0..s.h {
                let e = v[if v.len() == 1 { 0 } else { j }];
                ensure!((th[j] - e).abs() <= 1e-9 * e, "fixed", "fixed theta {v} returned as {th}");
            }
        }
        ThetaTuning::Full { bounds, .. } => {
            for j in 0..s.h {
                let (lo, hi) = bounds[if bounds.len() == 1 { 0 } else { j }];
                ensure!(th[j] >= lo * (1. - 1e-9) && th[j] <= hi * (1. + 1e-9), "bounds", "theta {th} component {j} outside of [{lo}, {hi}]");
            }
        }
        _ => {}
    }
    match s.c.noise {
        ParamTuning::Fixed(v) => ensure!(gp.noise() == v, "noise", "noise {} requested {v}", gp.noise()),
        ParamTuning::Optimized { bounds: (lo, hi), .. } => ensure!(gp.noise() >= lo * (1. - 1e-9) && gp.noise() <= hi * (1. + 1e-9), "noise", "noise {} outside of [{lo}, {hi}]", gp.noise()),
    }
    ensure!(gp.variance() > 0. && gp.variance().is_finite(), "variance", "process variance {}", gp.variance());
    let z = gp.inducings();
    match &s.c.z {
        Inducings::Located(e) => ensure!(&z == e, "located", "inducing points {z} requested {e}"),
        Inducings::Randomized(k) => {
            ensure!(z.nrows() == (*k).min(s.x.nrows()), "nz", "{} inducing points requested {k}", z.nrows());
            let mut used = vec![];
            for zi in z.rows() {
                let Some(i) = (0..s.x.nrows()).find(|i| s.x.row(*i) == zi && !used.contains(i)) else {
                    return fail("inducing", format!("inducing point {zi} is not a (new) training input"));
                };
                used.push(i);
            }
        }
        _ => {}
    }
    Ok(())
}

fn tuned(g: &mut G) -> R {
    let s = gen_sgp(g, true);
    let gp = fitit(&s)?;
    settings(&s, gp.as_ref())?;
    // same seed, same model
    let gp2 = fitit(&s)?;
    ensure!(gp2.theta() == gp.theta() && gp2.noise() == gp.noise() && gp2.variance() == gp.variance() && gp2.inducings() == gp.inducings(), "repro", "training twice with seed {:?}: {} {}", s.c.seed, gp.theta(), gp2.theta());
    compare(g, &s, gp.as_ref())?;
    // never worse than the initial guess
    if let Some(ThetaTuning::Full { init, bounds }) = &s.c.tuning {
        let full: Vec<f64> = (0..s.h).map(|j| init[if init.len() == 1 { 0 } else { j }]).collect();
        let wide = |b: &(f64, f64)| b.1 >= 10. * b.0;
        let inb = bounds.iter().all(wide)
            && match &s.c.noise {
                ParamTuning::Optimized { bounds, .. } => wide(bounds),
                _ => true,
            }
            && (0..s.h).all(|j| {
            let (lo, hi) = bounds[if bounds.len() == 1 { 0 } else { j }];
            full[j] >= lo && full[j] <= hi
        });
        let n0 = match s.c.noise {
            ParamTuning::Fixed(v) => v,
            ParamTuning::Optimized { init, .. } => init,
        };
        let (yn, _, sd) = normalise(&s.y.clone().insert_axis(Axis(1)));
        let _ = yn;
        let w = match s.c.kpls {
            None => Array2::eye(s.d),
            Some(h) => pls_rotations(&s.x, &s.y, h).unwrap(),
        };
        if inb {
            if let Some(r0) = RefSgp::new(s.c.k, s.c.method, &s.x, &s.y, &gp.inducings(), &full, w, sd[0] * sd[0], n0, s.c.nugget.unwrap_or(NUGGET)) {
                if r0.kappa < 1e9 {
                    ensure!(gp.likelihood() >= r0.lkh - 1e-6 * (1. + r0.lkh.abs()), "worse", "tuned likelihood {} below the initial guess' {}", gp.likelihood(), r0.lkh);
                    g.label("not worse");
                }
            }
        }
    }
    Ok(())
}

/// all the training points as inducing points: the exact process
fn full_inducing(g: &mut G) -> R {
    let mut s = gen_sgp(g, false);
    s.c.z = if g.chance(50) { Inducings::Located(s.x.clone()) } else { Inducings::Randomized(s.x.nrows() + g.us(0, 5)) };
    s.c.nugget = None;
    let gp = fitit(&s)?;
    settings(&s, gp.as_ref())?;
    let w = match s.c.kpls {
        None => Array2::eye(s.d),
        Some(h) => match pls_rotations(&s.x, &s.y, h) {
            Some(w) => w,
            None => return discard("pls"),
        },
    };
    let th = gp.theta();
    let th = th.as_slice().unwrap();
    let (s2, noise) = (gp.variance(), gp.noise());
    let kxx = kmat(s.c.k, &s.x, &s.x, th, &w, s2);
    let kappa0 = cond(&kxx);
    let kn = &kxx + &(Array2::<f64>::eye(s.x.nrows()) * noise);
    if kappa0 > 1e9 {
        return discard("ill conditioned");
    }
    let Some(ki) = inv(&kn) else { return discard("ill conditioned") };
    let q = gen_query(g, &s.x, 4, 0.3);
    let kq = kmat(s.c.k, &q, &s.x, th, &w, s2);
    let m = kq.dot(&ki).dot(&s.y);
    let c = kmat(s.c.k, &q, &q, th, &w, s2) - kq.dot(&ki).dot(&kq.t());
    let (pm, pv) = (gp.predict(&q), gp.predict_var(&q));
    let tol = 1e-7 + 1e-12 * kappa0 + NUGGET * kappa0 / s2.min(1.);
    for i in 0..4 {
        ensure!((pm[i] - m[i]).abs() <= tol * (1. + noise.recip() * s2 * 1e-2) * maxabs1(&s.y), "mean", "mean {} but the exact process has {}", pm[i], m[i]);
        ensure!((pv[i] - c[[i, i]] - noise).abs() <= tol * (s2 + noise), "var", "variance {} but the exact process has {}", pv[i], c[[i, i]] + noise);
    }
    g.nontrivial();
    Ok(())
}

pub fn gradients(g: &mut G) -> R {
    let tn = g.chance(20);
    let s = gen_sgp(g, tn);
    let gp = fitit(&s)?;
    let r = sref(&s, gp.as_ref(), 1e6)?;
    let w = col_widths(&s.x);
    let z = gp.inducings();
    let q = gen_query(g, &s.x, 2, 0.2);
    if s.c.k != K::SE {
        for i in 0..2 {
            for j in 0..s.d {
                if z.column(j).iter().any(|v| (v - q[[i, j]]).abs() < 0.01 * w[j]) {
                    return discard("near kink");
                }
            }
        }
    }
    let gm = gp.grad(&q);
    let gv = gp.vargrad(&q);
    ensure!(gm.dim() == (2, s.d) && gv.dim() == (2, s.d), "shape", "gradient shapes {:?} {:?}", gm.dim(), gv.dim());
    let (ya, s2) = (maxabs1(&s.y) + gp.variance() * maxabs(&r.alpha), gp.variance());
    for i in 0..2 {
        for j in 0..s.d {
            let sc = if s.c.k == K::SE { 0.3 * w[j] } else { 0.2 * w[j] };
            // the library differentiates numerically (central differences with a step of about 1e-8)
            let lib = 1e-7 * r.kappa + 1e-5;
            for (which, v) in [(0, gm[[i, j]]), (1, gv[[i, j]])] {
                let mut f = |h: f64| {
                    let mut x = rowq(&q, i);
                    x[[0, j]] += h;
                    if which == 0 { gp.predict(&x)[0] } else { gp.predict_var(&x)[0] }
                };
                if which == 1 && f(0.) < gp.noise() + 1e-6 * s2 {
                    continue;
                }
                let (d, e) = deriv(&mut f, sc);
                let tol = 10. * e + 1e-4 * d.abs() + lib * if which == 0 { ya } else { s2 };
                ensure!((v - d).abs() <= tol, if which == 0 { "grad" } else { "vargrad" }, "sparse gradient {v} wrt {j} but finite difference {d} (tolerance {tol:e})");
                if tol < 0.02 * d.abs() {
                    g.nontrivial();
                }
            }
        }
    }
    Ok(())
}

pub fn sampling(g: &mut G) -> R {
    let s = gen_sgp(g, false);
    let gp = fitit(&s)?;
    let r = sref(&s, gp.as_ref(), 1e7)?;
    let nq = g.us(1, 4);
    let q = gen_query(g, &s.x, nq, 0.3);
    let method = g.us(0, 2);
    let (mean, cov) = r.post(&q);
    let s2 = gp.variance();
    if method == 0 && sym_eig(&(&cov / s2)).into_iter().fold(f64::INFINITY, f64::min) < 1e-5 {
        return discard("near singular for Cholesky");
    }
    let nt = 4000;
    let tr = gp.sample(method, &q, nt);
    ensure!(tr.dim() == (nq, nt), "shape", "trajectories have shape {:?} expected {:?}", tr.dim(), (nq, nt));
    ensure!(tr.iter().all(|v| v.is_finite()), "finite", "non finite trajectory");
    let floor = s2 * 1e-5;
    for i in 0..nq {
        let m = tr.row(i).sum() / nt as f64;
        let sd = (cov[[i, i]].max(0.) / nt as f64).sqrt();
        ensure!((m - mean[i]).abs() <= 8. * sd + 1e-3 * floor.sqrt() + 1e-6 * maxabs1(&s.y), "mean", "trajectory mean {m}, posterior mean {}", mean[i]);
        for j in 0..=i {
            let e = (0..nt).map(|t| (tr[[i, t]] - mean[i]) * (tr[[j, t]] - mean[j])).sum::<f64>() / nt as f64;
            let se = ((cov[[i, i]] * cov[[j, j]] + cov[[i, j]] * cov[[i, j]]).max(0.) / nt as f64).sqrt();
            ensure!((e - cov[[i, j]]).abs() <= 9. * se + floor, "cov", "trajectory covariance {e}, posterior {} (process variance {s2})", cov[[i, j]]);
        }
        if cov[[i, i]] < 0.8 * s2 {
            g.nontrivial();
        }
    }
    Ok(())
}

pub fn prop09() -> Prop {
    Prop {
        id: "C09",
        level: "exploration",
        rule: "random noisy data, kernel, method (FITC, VFE), inducing points located or drawn, noise and theta fixed or tuned with 1- or h-length settings, KPLS, nugget; mean, variance, likelihood against dense O(n^3) formulas, against the exact process when every training point is inducing, plus the requested settings and seeded reproducibility. Non-trivial: a query whose latent variance is reduced by the data by at least 10%.",
        assumptions: &["configurations with condition numbers above 1e9 are discarded", "the nugget added to the inducing covariance is part of the definition"],
        subs: vec![
            Sub { name: "posterior_fixed", quick: 10000, thorough: 400000, jobs: 0, f: posterior_fixed },
            Sub { name: "tuned", quick: 4000, thorough: 120000, jobs: 0, f: tuned },
            Sub { name: "full_inducing", quick: 4000, thorough: 120000, jobs: 0, f: full_inducing },
        ],
    }
}
