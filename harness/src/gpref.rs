//! Reference Gaussian process (textbook formulas), and a uniform view on the library's GP types
use crate::fw::G;
use crate::la::*;
use egobox_gp::correlation_models::*;
use egobox_gp::mean_models::*;
use egobox_gp::{GaussianProcess, GpError, GpParams, ThetaTuning};
use linfa::Dataset;
use linfa::prelude::Fit;
use linfa::ParamGuard;
use ndarray::{Array1, Array2, Axis, s};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum M {
    Const,
    Lin,
    Quad,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    SE,
    AE,
    M32,
    M52,
}
pub const MEANS: [M; 3] = [M::Const, M::Lin, M::Quad];
pub const KERNELS: [K; 4] = [K::SE, K::AE, K::M32, K::M52];

/// correlation of two points at componentwise differences d
pub fn kval(k: K, d: &[f64], theta: &[f64], w: &Array2<f64>) -> f64 {
    let (s3, s5) = (3f64.sqrt(), 5f64.sqrt());
    let mut r = 1.;
    for j in 0..d.len() {
        for l in 0..theta.len() {
            let t = theta[l] * w[[j, l]].abs() * d[j].abs();
            r *= match k {
                K::SE => (-0.5 * t * t).exp(),
                K::AE => (-t).exp(),
                K::M32 => (1. + s3 * t) * (-s3 * t).exp(),
                K::M52 => (1. + s5 * t + 5. / 3. * t * t) * (-s5 * t).exp(),
            };
        }
    }
    r
}
pub fn basis(m: M, x: &[f64]) -> Vec<f64> {
    let mut b = vec![1.];
    if m != M::Const {
        b.extend_from_slice(x);
    }
    if m == M::Quad {
        for i in 0..x.len() {
            for j in i..x.len() {
                b.push(x[i] * x[j]);
            }
        }
    }
    b
}
pub fn n_basis(m: M, d: usize) -> usize {
    match m {
        M::Const => 1,
        M::Lin => d + 1,
        M::Quad => 1 + d + d * (d + 1) / 2,
    }
}

pub fn normalise(x: &Array2<f64>) -> (Array2<f64>, Array1<f64>, Array1<f64>) {
    let n = x.nrows() as f64;
    let m = x.sum_axis(Axis(0)) / n;
    let mut sd = Array1::zeros(x.ncols());
    for j in 0..x.ncols() {
        let v: f64 = x.column(j).iter().map(|v| (v - m[j]) * (v - m[j])).sum::<f64>() / (n - 1.);
        sd[j] = if v == 0. { 1. } else { v.sqrt() };
    }
    ((x - &m) / &sd, m, sd)
}

/// PLS1 rotations of standardised data
pub fn pls_rotations(x: &Array2<f64>, y: &Array1<f64>, h: usize) -> Option<Array2<f64>> {
    let (mut xx, _, _) = normalise(x);
    let (yy, _, _) = normalise(&y.clone().insert_axis(Axis(1)));
    let mut yy = yy.column(0).to_owned();
    let d = x.ncols();
    let mut w = Array2::zeros((d, h));
    let mut p = Array2::zeros((d, h));
    for c in 0..h {
        let mut wc = xx.t().dot(&yy);
        let n = wc.dot(&wc).sqrt();
        if n < 1e-9 {
            return None;
        }
        wc /= n;
        let t = xx.dot(&wc);
        let tt = t.dot(&t);
        if tt < 1e-9 {
            return None;
        }
        let pc = xx.t().dot(&t) / tt;
        let q = yy.dot(&t) / tt;
        for i in 0..xx.nrows() {
            for j in 0..d {
                xx[[i, j]] -= t[i] * pc[j];
            }
        }
        yy = &yy - &(&t * q);
        w.column_mut(c).assign(&wc);
        p.column_mut(c).assign(&pc);
    }
    let ptw = p.t().dot(&w);
    Some(w.dot(&inv(&ptw)?))
}

pub struct RefGp {
    pub m: M,
    pub k: K,
    pub theta: Vec<f64>,
    pub w: Array2<f64>,
    pub xn: Array2<f64>,
    pub xm: Array1<f64>,
    pub xs: Array1<f64>,
    pub ym: f64,
    pub ys: f64,
    pub beta: Array2<f64>,
    pub gamma: Array2<f64>,
    pub rinv: Array2<f64>,
    pub f: Array2<f64>,
    pub a_inv: Array2<f64>,
    pub sigma2n: f64,
    pub lkh: f64,
    pub kappa: f64,
    pub kappa_f: f64,
}

impl RefGp {
    pub fn new(m: M, k: K, x: &Array2<f64>, y: &Array1<f64>, theta: &[f64], w: Array2<f64>, nugget: f64) -> Option<RefGp> {
        let n = x.nrows();
        let (xn, xm, xs) = normalise(x);
        let (yn, ym, ys) = normalise(&y.clone().insert_axis(Axis(1)));
        let mut r = Array2::eye(n);
        for i in 0..n {
            for j in 0..n {
                if i == j {
                    r[[i, i]] = 1. + nugget;
                } else {
                    let d: Vec<f64> = (&xn.row(i) - &xn.row(j)).to_vec();
                    r[[i, j]] = kval(k, &d, theta, &w);
                }
            }
        }
        let p = n_basis(m, x.ncols());
        let mut f = Array2::zeros((n, p));
        for i in 0..n {
            let b = basis(m, &xn.row(i).to_vec());
            f.row_mut(i).assign(&Array1::from_vec(b));
        }
        let l = chol(&r)?;
        let rinv = inv(&r)?;
        let kappa = norm1(&r) * norm1(&rinv);
        let a = f.t().dot(&rinv).dot(&f);
        let a_inv = inv(&a)?;
        let kappa_f = norm1(&a) * norm1(&a_inv);
        let beta = a_inv.dot(&f.t().dot(&rinv).dot(&yn));
        let res = &yn - &f.dot(&beta);
        let gamma = rinv.dot(&res);
        let sigma2n = res.t().dot(&gamma)[[0, 0]] / n as f64;
        let logdet: f64 = 2. * l.diag().iter().map(|v| v.log10()).sum::<f64>();
        let lkh = -(n as f64) * (sigma2n.log10() + logdet / n as f64);
        Some(RefGp {
            m, k, theta: theta.to_vec(), w, xn, xm, xs, ym: ym[0], ys: ys[0], beta, gamma, rinv, f, a_inv,
            sigma2n, lkh, kappa, kappa_f,
        })
    }
    pub fn rx(&self, xq: &Array1<f64>) -> (Array2<f64>, Array2<f64>) {
        let xq = (xq - &self.xm) / &self.xs;
        let n = self.xn.nrows();
        let mut r = Array2::zeros((n, 1));
        for i in 0..n {
            let d: Vec<f64> = (&xq - &self.xn.row(i)).to_vec();
            r[[i, 0]] = kval(self.k, &d, &self.theta, &self.w);
        }
        let b = basis(self.m, &xq.to_vec());
        let p = b.len();
        (r, Array2::from_shape_vec((p, 1), b).unwrap())
    }
    /// mean and error bound of its computation
    pub fn mean(&self, xq: &Array1<f64>) -> (f64, f64) {
        let (r, b) = self.rx(xq);
        let v = b.t().dot(&self.beta)[[0, 0]] + r.t().dot(&self.gamma)[[0, 0]];
        let mag = (&b * &self.beta).mapv(f64::abs).sum() + (&r * &self.gamma).mapv(f64::abs).sum();
        let gm = maxabs(&self.gamma);
        let err = 1e-13 * (self.kappa + self.kappa_f) * (mag + gm * 1e-3) + 1e-10 * (mag + 1.);
        (v * self.ys + self.ym, err * self.ys + 1e-14 * self.ym.abs())
    }
    pub fn sigma2(&self) -> f64 {
        self.sigma2n * self.ys * self.ys
    }
    /// covariance of two points, unclamped
    pub fn cov(&self, a: &Array1<f64>, b: &Array1<f64>) -> f64 {
        let (ra, fa) = self.rx(a);
        let (rb, fb) = self.rx(b);
        let d: Vec<f64> = ((a - b) / &self.xs).to_vec();
        let k = kval(self.k, &d, &self.theta, &self.w);
        let ua = fa - self.f.t().dot(&self.rinv).dot(&ra);
        let ub = fb - self.f.t().dot(&self.rinv).dot(&rb);
        let t2 = ra.t().dot(&self.rinv).dot(&rb)[[0, 0]];
        let t3 = ua.t().dot(&self.a_inv).dot(&ub)[[0, 0]];
        self.sigma2() * (k - t2 + t3)
    }
    /// variance (unclamped) and error bound
    pub fn var(&self, xq: &Array1<f64>) -> (f64, f64) {
        let (r, b) = self.rx(xq);
        let u = &b - &self.f.t().dot(&self.rinv).dot(&r);
        let t2 = r.t().dot(&self.rinv).dot(&r)[[0, 0]];
        let t3 = u.t().dot(&self.a_inv).dot(&u)[[0, 0]];
        let bb = b.iter().map(|v| v * v).sum::<f64>();
        let s2 = self.sigma2n * self.ys * self.ys;
        let err = 1e-12 * s2 * (self.kappa * (1. + t2) + (self.kappa_f + self.kappa) * (t3 + maxabs(&self.a_inv) * bb)) + 1e-10 * s2 * (1. + t2 + t3);
        (s2 * (1. - t2 + t3), err)
    }
}

// ---------------------------------------------------------------------------------------------
// uniform dynamic view on the library GPs

pub trait GpLike: Send + Sync {
    fn predict(&self, x: &Array2<f64>) -> Result<Array1<f64>, GpError>;
    fn predict_var(&self, x: &Array2<f64>) -> Result<Array1<f64>, GpError>;
    fn predict_valvar(&self, x: &Array2<f64>) -> Result<(Array1<f64>, Array1<f64>), GpError>;
    fn grad(&self, x: &Array2<f64>) -> Array2<f64>;
    fn vargrad(&self, x: &Array2<f64>) -> Array2<f64>;
    fn vargrad_single(&self, x: &Array1<f64>) -> Array1<f64>;
    fn valvargrad(&self, x: &Array2<f64>) -> (Array2<f64>, Array2<f64>);
    fn kth(&self, x: &Array2<f64>, k: usize) -> Array1<f64>;
    fn theta(&self) -> Array1<f64>;
    fn variance(&self) -> f64;
    fn likelihood(&self) -> f64;
    fn dims(&self) -> (usize, usize);
    fn kpls(&self) -> Option<usize>;
    fn sample_chol(&self, x: &Array2<f64>, n: usize) -> Array2<f64>;
    fn sample_eig(&self, x: &Array2<f64>, n: usize) -> Array2<f64>;
    fn sample(&self, x: &Array2<f64>, n: usize) -> Array2<f64>;
    fn show(&self) -> String;
    fn json(&self) -> serde_json::Value;
    fn predict_trait(&self, x: &Array2<f64>) -> Array1<f64>;
    /// Q2 by k folds (leave-one-out: 0), and the training data
    fn q2(&self, k: usize) -> f64;
    fn data(&self) -> (Array2<f64>, Array1<f64>);
}

impl<Mm, Kk> GpLike for GaussianProcess<f64, Mm, Kk>
where
    Mm: RegressionModel<f64> + Send + serde::Serialize,
    Kk: CorrelationModel<f64> + Send + serde::Serialize,
{
    fn predict(&self, x: &Array2<f64>) -> Result<Array1<f64>, GpError> {
        GaussianProcess::predict(self, x)
    }
    fn predict_var(&self, x: &Array2<f64>) -> Result<Array1<f64>, GpError> {
        GaussianProcess::predict_var(self, x)
    }
    fn predict_valvar(&self, x: &Array2<f64>) -> Result<(Array1<f64>, Array1<f64>), GpError> {
        GaussianProcess::predict_valvar(self, x)
    }
    fn grad(&self, x: &Array2<f64>) -> Array2<f64> {
        self.predict_gradients(x)
    }
    fn vargrad(&self, x: &Array2<f64>) -> Array2<f64> {
        self.predict_var_gradients(x)
    }
    fn vargrad_single(&self, x: &Array1<f64>) -> Array1<f64> {
        self.predict_var_gradients_single(x)
    }
    fn valvargrad(&self, x: &Array2<f64>) -> (Array2<f64>, Array2<f64>) {
        self.predict_valvar_gradients(x)
    }
    fn kth(&self, x: &Array2<f64>, k: usize) -> Array1<f64> {
        self.predict_kth_derivatives(x, k)
    }
    fn theta(&self) -> Array1<f64> {
        GaussianProcess::theta(self).clone()
    }
    fn variance(&self) -> f64 {
        GaussianProcess::variance(self)
    }
    fn likelihood(&self) -> f64 {
        GaussianProcess::likelihood(self)
    }
    fn dims(&self) -> (usize, usize) {
        GaussianProcess::dims(self)
    }
    fn kpls(&self) -> Option<usize> {
        self.kpls_dim()
    }
    fn sample_chol(&self, x: &Array2<f64>, n: usize) -> Array2<f64> {
        GaussianProcess::sample_chol(self, x, n)
    }
    fn sample_eig(&self, x: &Array2<f64>, n: usize) -> Array2<f64> {
        GaussianProcess::sample_eig(self, x, n)
    }
    fn sample(&self, x: &Array2<f64>, n: usize) -> Array2<f64> {
        GaussianProcess::sample(self, x, n)
    }
    fn show(&self) -> String {
        format!("{self}")
    }
    fn json(&self) -> serde_json::Value {
        serde_json::to_value(self).unwrap()
    }
    fn predict_trait(&self, x: &Array2<f64>) -> Array1<f64> {
        use linfa::prelude::Predict;
        Predict::predict(self, x)
    }
    fn q2(&self, k: usize) -> f64 {
        use egobox_gp::metrics::PredictScore;
        if k == 0 { self.looq2_score() } else { self.q2_score(k) }
    }
    fn data(&self) -> (Array2<f64>, Array1<f64>) {
        use egobox_gp::metrics::PredictScore;
        self.training_data().clone()
    }
}

#[derive(Clone, Debug)]
pub struct GpCfg {
    pub m: M,
    pub k: K,
    pub tuning: ThetaTuning<f64>,
    pub kpls: Option<usize>,
    pub n_start: Option<usize>,
    pub max_eval: Option<usize>,
    pub nugget: Option<f64>,
}

fn fit_t<Mm, Kk>(c: &GpCfg, mm: Mm, kk: Kk, x: &Array2<f64>, y: &Array1<f64>) -> Result<Box<dyn GpLike>, GpError>
where
    Mm: RegressionModel<f64> + Send + serde::Serialize + 'static,
    Kk: CorrelationModel<f64> + Send + serde::Serialize + 'static,
{
    let mut p: GpParams<f64, Mm, Kk> = if c.tuning.init().iter().map(|v| v.to_bits()).sum::<u64>() % 5 < 3 {
        GaussianProcess::<f64, Mm, Kk>::params(mm, kk).theta_tuning(c.tuning.clone())
    } else {
        // the same by the setters of each part, which replace whatever was given before
        let p = GpParams::<f64, Mm, Kk>::new(mm.clone(), kk.clone()).mean(mm).corr(kk).nugget(1e-3);
        let p = p.nugget(GpParams::<f64, Mm, Kk>::new(Mm::default(), Kk::default()).check()?.nugget());
        match &c.tuning {
            ThetaTuning::Full { init, bounds } => p.theta_bounds(bounds.clone()).theta_init(init.clone()),
            ThetaTuning::Fixed(v) => p.theta_tuning(ThetaTuning::Fixed(v * 2.)).theta_init(v.clone()),
            t => p.theta_tuning(t.clone()),
        }
    }
    .kpls_dim(c.kpls);
    if let Some(n) = c.n_start {
        p = p.n_start(n);
    }
    if let Some(n) = c.max_eval {
        p = p.max_eval(n);
    }
    if let Some(n) = c.nugget {
        p = p.nugget(n);
    }
    let ds = Dataset::new(x.clone(), y.clone());
    Ok(Box::new(p.check()?.fit(&ds)?))
}

pub fn fit(c: &GpCfg, x: &Array2<f64>, y: &Array1<f64>) -> Result<Box<dyn GpLike>, GpError> {
    macro_rules! go {
        ($m:expr) => {
            match c.k {
                K::SE => fit_t(c, $m, SquaredExponentialCorr::default(), x, y),
                K::AE => fit_t(c, $m, AbsoluteExponentialCorr::default(), x, y),
                K::M32 => fit_t(c, $m, Matern32Corr::default(), x, y),
                K::M52 => fit_t(c, $m, Matern52Corr::default(), x, y),
            }
        };
    }
    match c.m {
        M::Const => go!(ConstantMean::default()),
        M::Lin => go!(LinearMean::default()),
        M::Quad => go!(QuadraticMean::default()),
    }
}

// ---------------------------------------------------------------------------------------------
// data generation

/// n points, stratified in each of the d columns, then mapped to a random box per column
pub fn gen_x(g: &mut G, n: usize, d: usize, scaled: bool) -> Array2<f64> {
    use ndarray_rand::rand::Rng;
    use ndarray_rand::rand::seq::SliceRandom;
    let mut rng = g.sub_rng();
    let mut x = Array2::zeros((n, d));
    for j in 0..d {
        let mut p: Vec<usize> = (0..n).collect();
        p.shuffle(&mut rng);
        for i in 0..n {
            x[[i, j]] = (p[i] as f64 + 0.15 + 0.7 * rng.r#gen::<f64>()) / n as f64;
        }
    }
    if scaled {
        for j in 0..d {
            match g.us(0, 3) {
                0 => {}
                1 => {
                    let (o, w) = (g.f(-5., 5.), g.f(0.5, 20.));
                    x.column_mut(j).mapv_inplace(|v| o + w * v);
                }
                2 => {
                    let (o, w) = (g.sym(1., 100.), g.logf(0.1, 1000.));
                    x.column_mut(j).mapv_inplace(|v| o + w * v);
                }
                _ => {
                    let w = g.logf(1e-3, 1.);
                    x.column_mut(j).mapv_inplace(|v| w * v);
                }
            }
        }
    }
    x
}

/// smooth-ish response of the normalised columns
pub fn gen_y(g: &mut G, x: &Array2<f64>) -> Array1<f64> {
    let (xn, _, _) = normalise(x);
    let d = x.ncols();
    let nt = g.us(1, 3);
    let mut y = Array1::<f64>::zeros(x.nrows());
    for t in 0..nt {
        let dir: Vec<f64> = (0..d).map(|_| g.f(-1.5, 1.5)).collect();
        let kind = if t == 0 { g.us(0, 2) } else { g.us(0, 3) };
        let amp = g.f(0.3, 2.);
        let ph = g.f(0., 3.);
        for i in 0..x.nrows() {
            let s: f64 = (0..d).map(|j| dir[j] * xn[[i, j]]).sum();
            y[i] += amp
                * match kind {
                    0 => (s + ph).sin(),
                    1 => (s - ph) * s * 0.5,
                    2 => (1.3 * s + ph).cos() + 0.3 * s,
                    _ => (s - ph).abs(),
                };
        }
    }
    // make the response non constant whatever the choices
    for i in 0..x.nrows() {
        y[i] += 0.37 * (1.7 * xn[[i, 0]] + 0.3).sin() + 0.11 * xn[[i, d - 1]];
    }
    match g.us(0, 3) {
        0 => {}
        1 => {
            let (o, s) = (g.f(-20., 20.), g.f(0.1, 10.));
            y.mapv_inplace(|v| o + s * v);
        }
        2 => {
            let s = g.logf(1e-4, 1e5);
            y.mapv_inplace(|v| s * v);
        }
        _ => {
            let (o, s) = (g.sym(1., 1e3), g.sym(0.1, 100.));
            y.mapv_inplace(|v| o + s * v);
        }
    }
    y
}

/// length-scale parameters giving a well conditioned problem for the kernel
pub fn gen_theta(g: &mut G, k: K, h: usize, n: usize) -> Vec<f64> {
    let lo = match k {
        K::SE => {
            if h == 1 {
                0.12 * n as f64
            } else {
                0.8
            }
        }
        K::M52 | K::M32 => 0.4,
        K::AE => 0.1,
    };
    (0..h).map(|_| g.logf(lo, lo * 12.)).collect()
}

pub struct GpCase {
    pub x: Array2<f64>,
    pub y: Array1<f64>,
    pub cfg: GpCfg,
    pub d: usize,
    pub h: usize,
}

pub struct CaseOpt {
    pub dmax: usize,
    pub fixed: bool,
    pub kpls: bool,
}

pub fn gen_case(g: &mut G, o: CaseOpt) -> GpCase {
    let m = g.pick(&MEANS);
    let k = g.pick(&KERNELS);
    let d = g.us(1, o.dmax);
    let nmin = (n_basis(m, d) + 2).max(4);
    let n = g.us(nmin, nmin + 12);
    let x = gen_x(g, n, d, true);
    let y = gen_y(g, &x);
    let kpls = if o.kpls && d > 1 && g.chance(25) { Some(g.us(1, d)) } else { None };
    let h = kpls.unwrap_or(d);
    let theta = gen_theta(g, k, h, n);
    let tuning = if o.fixed {
        ThetaTuning::Fixed(Array1::from_vec(theta))
    } else {
        let lo = match k { K::SE => 0.3, K::AE => 0.05, _ => 0.2 };
        let hi = lo * g.logf(5., 100.);
        ThetaTuning::Full { init: Array1::from_elem(1, g.logf(lo, hi)), bounds: Array1::from_elem(1, (lo, hi)) }
    };
    let cfg = GpCfg { m, k, tuning, kpls, n_start: None, max_eval: None, nugget: None };
    g.note("cfg", &cfg);
    g.note("d,n", (d, n));
    if n * d <= 60 {
        g.note("x", x.rows().into_iter().map(|r| r.to_vec()).collect::<Vec<_>>());
        g.note("y", y.to_vec());
    }
    g.label(format!("{m:?}"));
    g.label(format!("{k:?}"));
    g.label(format!("d{d}"));
    if kpls.is_some() {
        g.label("kpls");
    }
    GpCase { x, y, cfg, d, h }
}

/// query points: inside the box, outside, near training points
pub fn gen_query(g: &mut G, x: &Array2<f64>, nq: usize, far: f64) -> Array2<f64> {
    let d = x.ncols();
    let mut q = Array2::zeros((nq, d));
    for i in 0..nq {
        for j in 0..d {
            let c = x.column(j);
            let lo = c.iter().cloned().fold(f64::INFINITY, f64::min);
            let hi = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            let w = if hi > lo { hi - lo } else { 1. };
            q[[i, j]] = lo + w * g.f(-far, 1. + far);
        }
    }
    q
}

pub fn col_widths(x: &Array2<f64>) -> Vec<f64> {
    (0..x.ncols())
        .map(|j| {
            let c = x.column(j);
            let lo = c.iter().cloned().fold(f64::INFINITY, f64::min);
            let hi = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            if hi > lo { hi - lo } else { 1. }
        })
        .collect()
}

/// weights matrix of a fitted model: identity or the PLS rotations
pub fn ref_weights(c: &GpCase) -> Option<Array2<f64>> {
    match c.cfg.kpls {
        None => Some(Array2::eye(c.d)),
        Some(h) => pls_rotations(&c.x, &c.y, h),
    }
}

pub fn rowq(x: &Array2<f64>, i: usize) -> Array2<f64> {
    x.slice(s![i..i + 1, ..]).to_owned()
}
