//! C18, C19: infill criteria and constraint terms against their formulas, on synthetic surrogates
//! (arbitrary smooth mean and variance fields with known derivatives)
use crate::ensure;
use crate::fw::*;
use egobox_ego::criteria::*;
use egobox_ego::{EgorConfig, EgorSolver, InfillStrategy, to_xtypes};
use egobox_moe::*;
use ndarray::{Array1, Array2, ArrayView2};
use serde::{Deserialize, Serialize};
use std::result::Result;

// ---------------------------------------------------------------- synthetic surrogate

/// f(x) = c + s * sum_i a_i sin(w_i x_i + p_i)   (and exp of it for the variance)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Field {
    pub c: f64,
    pub s: f64,
    pub a: Vec<f64>,
    pub w: Vec<f64>,
    pub p: Vec<f64>,
}
impl Field {
    pub fn val(&self, x: &[f64]) -> f64 {
        self.c + self.s * (0..x.len()).map(|i| self.a[i] * (self.w[i] * x[i] + self.p[i]).sin()).sum::<f64>()
    }
    pub fn grad(&self, x: &[f64]) -> Vec<f64> {
        (0..x.len()).map(|i| self.s * self.a[i] * self.w[i] * (self.w[i] * x[i] + self.p[i]).cos()).collect()
    }
    pub fn random(g: &mut G, d: usize, c: f64, s: f64) -> Field {
        Field {
            c,
            s,
            a: (0..d).map(|_| g.f(-1., 1.)).collect(),
            w: (0..d).map(|_| g.logf(0.2, 3.)).collect(),
            p: (0..d).map(|_| g.f(-3., 3.)).collect(),
        }
    }
}

/// A surrogate with mean field `m` and variance exp(`lv`) (or exactly zero)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mock {
    pub m: Field,
    pub lv: Field,
    pub zero_var: bool,
}
impl Mock {
    pub fn mean(&self, x: &[f64]) -> f64 {
        self.m.val(x)
    }
    pub fn var(&self, x: &[f64]) -> f64 {
        if self.zero_var { 0. } else { self.lv.val(x).exp() }
    }
    pub fn gmean(&self, x: &[f64]) -> Vec<f64> {
        self.m.grad(x)
    }
    pub fn gvar(&self, x: &[f64]) -> Vec<f64> {
        if self.zero_var {
            return vec![0.; x.len()];
        }
        let v = self.var(x);
        self.lv.grad(x).iter().map(|t| t * v).collect()
    }
    fn rows<F: Fn(&[f64]) -> f64>(x: &ArrayView2<f64>, f: F) -> Array1<f64> {
        x.rows().into_iter().map(|r| f(&r.to_vec())).collect()
    }
    fn mrows<F: Fn(&[f64]) -> Vec<f64>>(x: &ArrayView2<f64>, f: F) -> Array2<f64> {
        let mut o = Array2::zeros(x.dim());
        for (i, r) in x.rows().into_iter().enumerate() {
            o.row_mut(i).assign(&Array1::from(f(&r.to_vec())));
        }
        o
    }
}
impl std::fmt::Display for Mock {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Mock")
    }
}
impl Clustered for Mock {
    fn n_clusters(&self) -> usize {
        1
    }
    fn recombination(&self) -> Recombination<f64> {
        Recombination::Hard
    }
    fn to_clustering(&self) -> Clustering {
        unimplemented!()
    }
}
#[typetag::serde]
impl GpSurrogate for Mock {
    fn dims(&self) -> (usize, usize) {
        (self.m.a.len(), 1)
    }
    fn predict(&self, x: &ArrayView2<f64>) -> Result<Array1<f64>, MoeError> {
        Ok(Self::rows(x, |x| self.mean(x)))
    }
    fn predict_var(&self, x: &ArrayView2<f64>) -> Result<Array1<f64>, MoeError> {
        Ok(Self::rows(x, |x| self.var(x)))
    }
    fn predict_valvar(&self, x: &ArrayView2<f64>) -> Result<(Array1<f64>, Array1<f64>), MoeError> {
        Ok((GpSurrogate::predict(self, x)?, GpSurrogate::predict_var(self, x)?))
    }
    fn save(&self, _: &str, _: GpFileFormat) -> Result<(), MoeError> {
        unimplemented!()
    }
}
#[typetag::serde]
impl GpSurrogateExt for Mock {
    fn predict_gradients(&self, x: &ArrayView2<f64>) -> Result<Array2<f64>, MoeError> {
        Ok(Self::mrows(x, |x| self.gmean(x)))
    }
    fn predict_var_gradients(&self, x: &ArrayView2<f64>) -> Result<Array2<f64>, MoeError> {
        Ok(Self::mrows(x, |x| self.gvar(x)))
    }
    fn predict_valvar_gradients(&self, x: &ArrayView2<f64>) -> Result<(Array2<f64>, Array2<f64>), MoeError> {
        Ok((self.predict_gradients(x)?, self.predict_var_gradients(x)?))
    }
    fn sample(&self, _: &ArrayView2<f64>, _: usize) -> Result<Array2<f64>, MoeError> {
        unimplemented!()
    }
}
#[typetag::serde]
impl GpQualityAssurance for Mock {
    fn training_data(&self) -> &(Array2<f64>, Array1<f64>) {
        unimplemented!()
    }
    fn q2_k(&self, _: usize) -> f64 {
        unimplemented!()
    }
    fn q2(&self) -> f64 {
        unimplemented!()
    }
    fn pva_k(&self, _: usize) -> f64 {
        unimplemented!()
    }
    fn pva(&self) -> f64 {
        unimplemented!()
    }
    fn iae_alpha_k(&self, _: usize) -> f64 {
        unimplemented!()
    }
    fn iae_alpha_k_score_with_plot(&self, _: usize, _: &mut IaeAlphaPlotData) -> f64 {
        unimplemented!()
    }
    fn iae_alpha(&self) -> f64 {
        unimplemented!()
    }
}
#[typetag::serde]
impl MixtureGpSurrogate for Mock {
    fn experts(&self) -> &Vec<Box<dyn FullGpSurrogate>> {
        unimplemented!()
    }
}

// ---------------------------------------------------------------- reference special functions

const SQRT_2PI: f64 = 2.5066282746310002;
pub fn phi(u: f64) -> f64 {
    (-0.5 * u * u).exp() / SQRT_2PI
}
const GLX: [f64; 20] = [-0.993128599185095, -0.9639719272779138, -0.912234428251326, -0.8391169718222188, -0.7463319064601508, -0.636053680726515, -0.5108670019508271, -0.37370608871541955, -0.22778585114164507, -0.07652652113349734, 0.07652652113349734, 0.22778585114164507, 0.37370608871541955, 0.5108670019508271, 0.636053680726515, 0.7463319064601508, 0.8391169718222188, 0.912234428251326, 0.9639719272779138, 0.993128599185095];
const GLW: [f64; 20] = [0.017614007139150893, 0.040601429800386446, 0.06267204833410879, 0.08327674157670471, 0.1019301198172407, 0.1181945319615186, 0.1316886384491769, 0.1420961093183824, 0.14917298647260424, 0.15275338713072628, 0.15275338713072628, 0.14917298647260424, 0.1420961093183824, 0.1316886384491769, 0.1181945319615186, 0.1019301198172407, 0.08327674157670471, 0.06267204833410879, 0.040601429800386446, 0.017614007139150893];
/// composite Gauss-Legendre quadrature on [0, b]
fn quad<F: Fn(f64) -> f64>(f: F, b: f64, panels: usize) -> f64 {
    let h = 0.5 * b / panels as f64;
    let mut s = 0.;
    for k in (0..panels).rev() {
        let c = (2 * k + 1) as f64 * h;
        for i in 0..20 {
            s += GLW[i] * f(c + h * GLX[i]);
        }
    }
    s * h
}
/// For u <= 0: (Phi(u)/phi(u), (phi(u) + u Phi(u))/phi(u)) by quadrature of positive integrands
/// (no cancellation whatever u)
pub fn tails(u: f64) -> (f64, f64) {
    assert!(u <= 0.);
    if u >= -3. {
        (quad(|t| (u * t - 0.5 * t * t).exp(), 14., 10), quad(|t| t * (u * t - 0.5 * t * t).exp(), 14., 10))
    } else {
        let q = 0.5 / (u * u);
        (
            quad(|s| (-s - q * s * s).exp(), 60., 12) / -u,
            quad(|s| s * (-s - q * s * s).exp(), 60., 12) / (u * u),
        )
    }
}
pub fn ref_cdf(u: f64) -> f64 {
    if u <= 0. { phi(u) * tails(u).0 } else { 1. - phi(u) * tails(-u).0 }
}
/// (log(phi + u Phi), d/du of it)
pub fn ref_logh(u: f64) -> (f64, f64) {
    if u <= 0. {
        let (a, b) = tails(u);
        (-0.5 * u * u - SQRT_2PI.ln() + b.ln(), a / b)
    } else {
        let h = u + phi(u) * tails(-u).1;
        (h.ln(), ref_cdf(u) / h)
    }
}
/// phi + u Phi
pub fn ref_h(u: f64) -> f64 {
    if u <= 0. { phi(u) * tails(u).1 } else { u + phi(u) * tails(-u).1 }
}

// ---------------------------------------------------------------- reference criteria

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Crit {
    Ei,
    LogEi,
    Wb2,
    Wb2s,
}
pub const CRITS: [Crit; 4] = [Crit::Ei, Crit::LogEi, Crit::Wb2, Crit::Wb2s];
impl Crit {
    pub fn object(self) -> Box<dyn InfillCriterion> {
        match self {
            Crit::Ei => Box::new(EI),
            Crit::LogEi => Box::new(LOG_EI),
            Crit::Wb2 => Box::new(WB2),
            Crit::Wb2s => Box::new(WB2S),
        }
    }
    pub fn strategy(self) -> InfillStrategy {
        match self {
            Crit::Ei => InfillStrategy::EI,
            Crit::LogEi => InfillStrategy::LogEI,
            Crit::Wb2 => InfillStrategy::WB2,
            Crit::Wb2s => InfillStrategy::WB2S,
        }
    }
}

/// value, gradient and absolute tolerances for each
pub struct RefVal {
    pub v: f64,
    pub vtol: f64,
    pub g: Vec<f64>,
    pub gtol: Vec<f64>,
}

fn ei_ref(mock: &Mock, x: &[f64], fmin: f64, k: f64) -> RefVal {
    let d = x.len();
    let var = mock.var(x);
    if var < f64::EPSILON {
        return RefVal { v: 0., vtol: 0., g: vec![0.; d], gtol: vec![0.; d] };
    }
    let s = k * var.sqrt();
    let m = mock.mean(x);
    let a = (fmin - m) / s;
    // (fmin - m) is the same subtraction as in the code under test: its rounding is shared, but
    // `a` is not identical when the weight is applied in another order
    let rel = 1e-14 * (1. + a * a) * (1. + a * a);
    let v = s * ref_h(a);
    let (gm, gv) = (mock.gmean(x), mock.gvar(x));
    let (c, p) = (ref_cdf(a), phi(a));
    let floor = 1e-290;
    let mut g = vec![];
    let mut gtol = vec![];
    for i in 0..d {
        let gs = k * gv[i] / (2. * var.sqrt());
        g.push(-gm[i] * c + gs * p);
        let size = gm[i].abs() * c + gs.abs() * p + a.abs() * p * (gm[i].abs() + a.abs() * gs.abs());
        gtol.push(1e-12 * (1. + a * a) * size + floor * (gm[i].abs() + gs.abs()));
    }
    RefVal { v, vtol: rel * v.abs() + 1e-15 * s * p + floor * s, g, gtol }
}

/// Reference of the documented formulas; `scale` as handed to the criterion (None: its own default)
pub fn crit_ref(c: Crit, mock: &Mock, x: &[f64], fmin: f64, k: f64, scale: Option<f64>) -> RefVal {
    let d = x.len();
    match c {
        Crit::Ei => ei_ref(mock, x, fmin, k),
        Crit::Wb2 | Crit::Wb2s => {
            let e = ei_ref(mock, x, fmin, k);
            let sc = scale.unwrap_or(1.);
            let (m, gm) = (mock.mean(x), mock.gmean(x));
            RefVal {
                v: sc * e.v - m,
                vtol: sc.abs() * (e.vtol + 1e-15 * e.v.abs()) + 1e-14 * m.abs(),
                g: (0..d).map(|i| sc * e.g[i] - gm[i]).collect(),
                gtol: (0..d).map(|i| sc.abs() * (e.gtol[i] + 1e-15 * e.g[i].abs()) + 1e-14 * gm[i].abs()).collect(),
            }
        }
        Crit::LogEi => {
            let var = mock.var(x);
            if var < f64::EPSILON {
                return RefVal { v: f64::MIN, vtol: 0., g: vec![f64::NAN; d], gtol: vec![0.; d] };
            }
            let s = k * var.sqrt();
            let a = (fmin - mock.mean(x)) / s;
            let (lh, dlh) = ref_logh(a);
            let (gm, gv) = (mock.gmean(x), mock.gvar(x));
            let mut g = vec![];
            let mut gtol = vec![];
            for i in 0..d {
                let gs = k * gv[i] / (2. * var.sqrt());
                let da = -gm[i] / s - a * gs / s;
                g.push(dlh * da + gs / s);
                gtol.push(1e-8 * (dlh * (gm[i].abs() + a.abs() * gs.abs()) / s + gs.abs() / s) + 1e-300);
            }
            RefVal { v: lh + s.ln(), vtol: 1e-9 + 1e-12 * (lh.abs() + s.ln().abs()), g, gtol }
        }
    }
}

/// A surrogate, a point and a best value such that (fmin - mean)/sigma covers many magnitudes
pub struct Scene {
    pub d: usize,
    pub mock: Mock,
    pub x: Vec<f64>,
    pub fmin: f64,
    pub u: f64,
}
pub fn gen_u(g: &mut G) -> f64 {
    match g.us(0, 5) {
        0 => g.f(-3., 3.),
        1 => g.f(-45., 5.),
        2 => -g.logf(1., 1e3),
        3 => -g.logf(1e3, 1e9),
        4 => g.logf(1e-9, 1e6),
        _ => g.pick(&[0., -1., 1., -25., -37.5, -38., -1e6, -1e3]),
    }
}
pub fn gen_mock(g: &mut G, d: usize) -> Mock {
    let mscale = g.logf(1e-4, 1e4);
    let c = g.sym(1e-4, 1e4);
    let m = Field::random(g, d, c, mscale);
    // log variance from about -30 to 15
    let lc = g.f(-28., 15.);
    let ls = if g.chance(50) { 0.5 } else { 3. };
    let lv = Field::random(g, d, lc, ls);
    Mock { m, lv, zero_var: g.chance(4) }
}
pub fn gen_scene(g: &mut G) -> Scene {
    let d = g.us(1, 4);
    let mock = gen_mock(g, d);
    let x: Vec<f64> = (0..d).map(|_| g.f(-2., 2.)).collect();
    let u = gen_u(g);
    let (mean, s) = (mock.mean(&x), mock.var(&x).sqrt());
    let fmin = mean + u * s;
    // what remains after rounding of fmin is the actual ratio
    let u = if s > 0. { (fmin - mean) / s } else { 0. };
    Scene { d, mock, x, fmin, u }
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol || a == b
}

fn c18_formula(g: &mut G) -> R {
    let sc = gen_scene(g);
    let crit = g.pick(&CRITS);
    let weight = match g.us(0, 3) {
        0 => None,
        1 => Some(1.),
        _ => Some(g.logf(0.1, 100.)),
    };
    let scale = if g.chance(40) { None } else { Some(g.logf(1e-3, 1e4)) };
    let k = weight.unwrap_or(1.);
    g.note("criterion", crit);
    g.note("mean", sc.mock.mean(&sc.x));
    g.note("var", sc.mock.var(&sc.x));
    g.note("fmin", sc.fmin);
    g.note("u", sc.u);
    g.note("weight", weight);
    g.note("scale", scale);
    let obj = crit.object();
    let v = obj.value(&sc.x, &sc.mock, sc.fmin, weight, scale);
    let gr = obj.grad(&sc.x, &sc.mock, sc.fmin, weight, scale);
    g.evals += 2;
    g.nontrivial();
    g.label(format!("{crit:?}"));
    g.label(if sc.mock.var(&sc.x) < f64::EPSILON {
        "zero variance"
    } else if sc.u < -37. {
        "far tail"
    } else if sc.u < -5. {
        "tail"
    } else {
        "bulk"
    });
    let r = crit_ref(crit, &sc.mock, &sc.x, sc.fmin, k, scale);
    let name = format!("{crit:?}").to_lowercase();
    ensure!(v.is_finite(), &format!("nonfinite-{name}"), "{crit:?} value {v} (mean {}, variance {}, best {}, expected {})", sc.mock.mean(&sc.x), sc.mock.var(&sc.x), sc.fmin, r.v);
    ensure!(close(v, r.v, r.vtol), &format!("value-{name}"), "{crit:?} value {v}, formula gives {} (tolerance {:e}; u = {}, weight {weight:?})", r.v, r.vtol, sc.u);
    ensure!(gr.len() == sc.d, &format!("shape-{name}"), "gradient has {} components for {} variables", gr.len(), sc.d);
    if matches!(crit, Crit::Ei) {
        ensure!(v >= -r.vtol, "negative-ei", "expected improvement {v} is negative");
    }
    for i in 0..sc.d {
        if r.g[i].is_nan() {
            continue; // derivative of the zero-variance plateau of log EI: not specified
        }
        ensure!(gr[i].is_finite(), &format!("nonfinite-grad-{name}"), "{crit:?} gradient component {i} is {} (expected {}; u = {})", gr[i], r.g[i], sc.u);
        ensure!(
            close(gr[i], r.g[i], r.gtol[i]),
            &format!("grad-{name}"),
            "{crit:?} gradient component {i} is {}, derivative of the formula is {} (tolerance {:e}; u = {}, weight {weight:?})",
            gr[i],
            r.g[i],
            r.gtol[i],
            sc.u
        );
    }
    Ok(())
}

/// log EI is the logarithm of EI wherever EI is representable; both order points the same way
fn c18_logei(g: &mut G) -> R {
    let sc = gen_scene(g);
    if sc.mock.var(&sc.x) < f64::EPSILON {
        return discard("zero variance");
    }
    let weight = if g.chance(50) { None } else { Some(g.logf(0.1, 100.)) };
    let e = EI.value(&sc.x, &sc.mock, sc.fmin, weight, None);
    let l = LOG_EI.value(&sc.x, &sc.mock, sc.fmin, weight, None);
    let ge = EI.grad(&sc.x, &sc.mock, sc.fmin, weight, None);
    let gl = LOG_EI.grad(&sc.x, &sc.mock, sc.fmin, weight, None);
    g.evals += 4;
    let a = sc.u / weight.unwrap_or(1.);
    g.note("ratio", a);
    g.note("EI", e);
    if a < -20. {
        return discard("EI below its own rounding");
    }
    g.nontrivial();
    let tol = 1e-9 + 1e-14 * (1. + a * a).powi(2) + 1e-12 * l.abs();
    ensure!(close(e.ln(), l, tol), "log-of-ei", "log EI {l} but EI {e} has logarithm {}", e.ln());
    for i in 0..sc.d {
        // (log EI)' = EI' / EI
        let t = ge[i] / e;
        let size = ref_logh(a).1 * (1. + a.abs()) * (sc.mock.gmean(&sc.x)[i].abs() / sc.mock.var(&sc.x).sqrt() / weight.unwrap_or(1.) + sc.mock.lv.grad(&sc.x)[i].abs());
        ensure!(close(t, gl[i], 1e-7 * (size + t.abs() + gl[i].abs()) + 1e-13 * (1. + a * a).powi(3) * size), "log-of-ei-grad", "log EI derivative {} but EI'/EI = {t} (ratio {a})", gl[i]);
    }
    Ok(())
}

/// scale of WB2S: 100 |mean| / EI at the sampled point of largest EI; 1 when nothing is expected
fn c18_scale(g: &mut G) -> R {
    let d = g.us(1, 4);
    let mock = gen_mock(g, d);
    let n = g.us(1, 30);
    let pts = g.mat(n, d, -2., 2.);
    let u = gen_u(g);
    let fmin = mock.mean(&pts.row(0).to_vec()) + u * mock.var(&pts.row(0).to_vec()).sqrt();
    let weight = if g.chance(50) { None } else { Some(g.logf(0.1, 100.)) };
    let layout = g.chance(30);
    let xs = if layout { pts.t().as_standard_layout().to_owned().reversed_axes() } else { pts.clone() };
    let s = WB2S.scaling(&xs.view(), &mock, fmin, weight);
    let s1 = WB2.scaling(&xs.view(), &mock, fmin, weight);
    g.evals += 2;
    ensure!(s1 == 1., "wb2-scale", "WB2 is not scaled but its scaling is {s1}");
    let ei: Vec<f64> = pts.rows().into_iter().map(|r| EI.value(&r.to_vec(), &mock, fmin, weight, None)).collect();
    let best = ei.iter().cloned().fold(f64::MIN, f64::max);
    g.note("max EI", best);
    if best.abs() <= 1.01 * 100. * f64::EPSILON {
        ensure!(best.abs() > 99. * f64::EPSILON || s == 1., "wb2s-scale-flat", "nothing is expected ({best:e}) but scaling is {s}");
        return Ok(());
    }
    g.nontrivial();
    let ok = (0..n).any(|i| {
        let t = 100. * mock.mean(&pts.row(i).to_vec()).abs() / best;
        ei[i] == best && close(t, s, 1e-12 * t)
    });
    ensure!(ok, "wb2s-scale", "WB2S scaling {s} is not 100 |mean| / EI at the point of largest EI {best}");
    Ok(())
}

/// On trained mixtures: the criteria only depend on the surrogate through its predictions
fn c18_trained(g: &mut G) -> R {
    use linfa::prelude::Fit;
    let d = g.us(1, 3);
    let n = g.us(4, 12);
    let xt = crate::gpref::gen_x(g, n, d, false);
    let yt = crate::gpref::gen_y(g, &xt);
    let gp = match no_panic(|| {
        GpMixture::params()
            .n_clusters(NbClusters::fixed(1))
            .regression_spec(RegressionSpec::CONSTANT)
            .correlation_spec(CorrelationSpec::SQUAREDEXPONENTIAL)
            .recombination(Recombination::Hard)
            .n_start(1)
            .max_eval(20)
            .fit(&linfa::Dataset::new(xt.clone(), yt.clone()))
    }) {
        Ok(Ok(gp)) => gp,
        _ => return discard("not trained"),
    };
    let fmin = yt.iter().cloned().fold(f64::MAX, f64::min);
    let crit = g.pick(&CRITS);
    let weight = if g.chance(50) { None } else { Some(g.logf(0.1, 100.)) };
    for j in 0..6 {
        let x: Vec<f64> = if j == 5 { xt.row(0).to_vec() } else { (0..d).map(|_| g.f(-1.5, 1.5)).collect() };
        let xa = Array2::from_shape_vec((1, d), x.clone()).unwrap();
        let (m, v) = gp.predict_valvar(&xa.view()).unwrap();
        let (gm, gv) = gp.predict_valvar_gradients(&xa.view()).unwrap();
        // surrogate with the same values and slopes at x
        let lin = |c: f64, gr: Vec<f64>| Field { c, s: 1., a: gr, w: vec![1.; d], p: x.iter().map(|t| -t).collect() };
        let mock = Mock {
            m: lin(m[0], gm.row(0).to_vec()),
            lv: lin(v[0].max(1e-300).ln(), gv.row(0).iter().map(|t| if v[0] > 0. { t / v[0] } else { 0. }).collect()),
            zero_var: v[0] < f64::EPSILON,
        };
        let c = crit.object();
        let val = c.value(&x, &gp, fmin, weight, None);
        let gr = c.grad(&x, &gp, fmin, weight, None);
        let r = crit_ref(crit, &mock, &x, fmin, weight.unwrap_or(1.), None);
        g.evals += 2;
        let slack = 1e-10;
        let u = if v[0] > 0. { ((fmin - m[0]) / v[0].sqrt()).abs() } else { 0. };
        let amp = slack * (1. + u * u);
        ensure!(val.is_finite(), "trained-nonfinite", "{crit:?} is {val} on a trained surrogate (mean {}, variance {})", m[0], v[0]);
        ensure!(close(val, r.v, r.vtol + amp * (r.v.abs() + m[0].abs())), "trained-value", "{crit:?} {val} on a trained surrogate, formula {} (mean {}, var {}, best {fmin})", r.v, m[0], v[0]);
        for i in 0..d {
            if !r.g[i].is_nan() && v[0] > 1e-10 {
                let size = gm.row(0).iter().map(|t| t.abs()).sum::<f64>() + r.g[i].abs();
                ensure!(close(gr[i], r.g[i], r.gtol[i] + 1e2 * amp * size + 1e-280), "trained-grad", "{crit:?} gradient {} on a trained surrogate, formula {} (u {u}, var {})", gr[i], r.g[i], v[0]);
            }
        }
    }
    g.nontrivial();
    Ok(())
}

pub fn prop18() -> Prop {
    Prop {
        id: "C18",
        level: "exploration",
        rule: "a case counts when a criterion was evaluated and compared with its formula (value and derivative) at one point of a generated surrogate; cases whose EI is under its own rounding are set aside for the log relation",
        assumptions: &["|u| = |best - mean| / sigma up to 1e9 (the criteria square it)", "the gradient of log EI on its zero-variance plateau is not specified"],
        subs: vec![
            Sub { name: "formula", quick: 600_000, thorough: 20_000_000, jobs: 8, f: c18_formula },
            Sub { name: "logei", quick: 200_000, thorough: 8_000_000, jobs: 8, f: c18_logei },
            Sub { name: "scale", quick: 60_000, thorough: 2_000_000, jobs: 8, f: c18_scale },
            Sub { name: "trained", quick: 6_000, thorough: 150_000, jobs: 8, f: c18_trained },
        ],
    }
}

// ---------------------------------------------------------------- C19

type Solver = EgorSolver<GpMixtureParams<f64>>;

fn gen_cstr(g: &mut G, d: usize, x: &[f64]) -> (Mock, f64) {
    let mut m = gen_mock(g, d);
    // tolerances around, below and above the predicted value
    let tol = match g.us(0, 3) {
        0 => 0.,
        1 => 1e-4,
        _ => g.sym(1e-3, 10.),
    };
    let u = match g.us(0, 3) {
        0 => g.f(-2., 2.),
        1 => g.f(-8., 8.),
        _ => g.f(-4., 4.),
    };
    if !m.zero_var {
        // shift the mean so that (tol - mean)/sigma = u
        let s = m.var(x).sqrt();
        m.m.c += tol - u * s - m.mean(x);
    }
    (m, tol)
}

fn c19_acq(g: &mut G) -> R {
    let sc = gen_scene(g);
    let d = sc.d;
    let crit = g.pick(&CRITS);
    let nc = g.us(0, 4);
    let mut mocks = vec![];
    let mut tols = vec![];
    for _ in 0..nc {
        let (m, t) = gen_cstr(g, d, &sc.x);
        mocks.push(m);
        tols.push(t);
    }
    let scale = g.logf(1e-3, 1e3);
    let scale_ic = g.logf(1e-2, 1e2);
    let k = if g.chance(50) { 1. } else { g.logf(0.1, 100.) };
    let feas = nc == 0 || g.chance(75);
    let config = EgorConfig::default()
        .xtypes(&to_xtypes(&Array2::from_shape_fn((d, 2), |(_, j)| if j == 0 { -2. } else { 2. })))
        .n_cstr(nc)
        .infill_strategy(crit.strategy())
        .cstr_infill(true)
        .check()
        .unwrap();
    let solver: Solver = EgorSolver::new(config);
    let models: Vec<Box<dyn MixtureGpSurrogate>> = mocks.iter().map(|m| Box::new(m.clone()) as Box<dyn MixtureGpSurrogate>).collect();
    let tola = Array1::from(tols.clone());
    let v = solver.eval_infill_obj_with_cstrs(&sc.x, &sc.mock, &models, &tola, sc.fmin, scale, scale_ic, feas, k);
    let gr = solver.eval_grad_infill_obj_with_cstrs(&sc.x, &sc.mock, &models, &tola, sc.fmin, scale, scale_ic, feas, k);
    g.evals += 2;
    g.note("criterion", crit);
    g.note("constraints", nc);
    g.note("feasible", feas);
    g.note("weight", k);
    // reference
    let base = if feas {
        let r = crit_ref(crit, &sc.mock, &sc.x, sc.fmin, k, Some(scale_ic));
        RefVal { v: -r.v / scale, vtol: r.vtol / scale, g: r.g.iter().map(|t| -t / scale).collect(), gtol: r.gtol.iter().map(|t| t / scale).collect() }
    } else {
        RefVal { v: if crit == Crit::LogEi { 0. } else { -1. }, vtol: 0., g: vec![0.; d], gtol: vec![0.; d] }
    };
    let mut p = vec![];
    let mut gp = vec![];
    let mut clipped = false;
    for (m, t) in mocks.iter().zip(&tols) {
        let var = m.var(&sc.x);
        if var < f64::EPSILON {
            p.push(0.);
            gp.push(vec![0.; d]);
            clipped = true;
            continue;
        }
        let s = var.sqrt();
        let a = (t - m.mean(&sc.x)) / s;
        p.push(ref_cdf(a));
        if p[p.len() - 1] < 2. * f64::EPSILON {
            clipped = true;
        }
        let (gm, gv) = (m.gmean(&sc.x), m.gvar(&sc.x));
        gp.push((0..d).map(|i| phi(a) * (-gm[i] / s - a * gv[i] / (2. * var))).collect());
    }
    if nc > 0 {
        g.nontrivial();
    }
    g.label(format!("{crit:?}"));
    if tols.iter().any(|t| *t != 0.) {
        g.label("non-zero tolerance");
    }
    let sizes: Vec<f64> = (0..d)
        .map(|i| {
            mocks
                .iter()
                .zip(&tols)
                .map(|(m, t)| {
                    let var = m.var(&sc.x).max(f64::EPSILON);
                    m.gmean(&sc.x)[i].abs() / var.sqrt() + ((t - m.mean(&sc.x)) / var.sqrt()).abs() * m.gvar(&sc.x)[i].abs() / var
                })
                .sum::<f64>()
        })
        .collect();
    let name = format!("{crit:?}").to_lowercase();
    if base.v.abs() > 1e300 {
        return Ok(());
    }
    if crit == Crit::LogEi {
        if clipped {
            // floored probability: finite value, no more than the floor allows
            let sum: f64 = p.iter().map(|t| t.max(f64::EPSILON).ln()).sum();
            ensure!(v.is_finite() && close(v, base.v - sum, base.vtol + 1e-8 * (1. + v.abs())), "floor-logei", "constrained log EI objective {v}, expected {} with floored probabilities", base.v - sum);
            return Ok(());
        }
        let want = base.v - p.iter().map(|t| t.ln()).sum::<f64>();
        let size = base.v.abs() + p.iter().map(|t| t.ln().abs()).sum::<f64>();
        ensure!(close(v, want, base.vtol + 1e-9 * (1. + size)), "value-logei", "constrained log EI objective {v}, expected {want} (criterion {}, probabilities {p:?})", base.v);
        for i in 0..d {
            if base.g[i].is_nan() {
                continue;
            }
            let want = base.g[i] - (0..nc).map(|j| gp[j][i] / p[j]).sum::<f64>();
            ensure!(close(gr[i], want, base.gtol[i] + 1e-8 * (sizes[i] * 10. + base.g[i].abs() + want.abs())), "grad-logei", "constrained log EI objective gradient[{i}] {}, derivative is {want}", gr[i]);
        }
    } else {
        let prod: f64 = p.iter().product();
        let want = base.v * prod;
        ensure!(close(v, want, base.vtol * prod + 1e-12 * base.v.abs() * prod + 1e-14 * base.v.abs()), &format!("value-{name}"), "constrained {crit:?} objective {v}, expected {want} (criterion {}, probabilities {p:?})", base.v);
        for i in 0..d {
            let mut want = base.g[i] * prod;
            for j in 0..nc {
                want += base.v * gp[j][i] * (0..nc).filter(|l| *l != j).map(|l| p[l]).product::<f64>();
            }
            let tol = base.gtol[i] * prod + base.vtol * sizes[i] + 1e-11 * (base.g[i].abs() + base.v.abs() * sizes[i]);
            ensure!(close(gr[i], want, tol), &format!("grad-{name}"), "constrained {crit:?} objective gradient[{i}] {}, derivative is {want} (tolerance {tol:e}, tolerances of constraints {tols:?})", gr[i]);
        }
    }
    Ok(())
}

fn gen_active(g: &mut G, d: usize) -> Vec<usize> {
    if g.chance(40) {
        return (0..d).collect();
    }
    let p = g.perm(d);
    let k = g.us(1, d);
    let mut a: Vec<usize> = p[..k].to_vec();
    if k < d && g.chance(30) {
        a.push(d); // out of range marker used when groups have unequal sizes
    }
    a
}

fn c19_cstr(g: &mut G) -> R {
    let d = g.us(1, 5);
    let m = {
        let mut m = gen_mock(g, d);
        m.zero_var = false;
        m
    };
    let x: Vec<f64> = (0..d).map(|_| g.f(-2., 2.)).collect();
    let scale = g.logf(1e-3, 1e3);
    let active = gen_active(g, d);
    let valid: Vec<usize> = active.iter().cloned().filter(|i| *i < d).collect();
    let utb = g.chance(60);
    g.note("upper trust bound", utb);
    g.note("active", &active);
    let mut gr = vec![0.; valid.len()];
    let call = |gr: Option<&mut [f64]>| {
        if utb { Solver::upper_trust_bound_cstr(&m, &x, gr, scale, &active) } else { Solver::mean_cstr(&m, &x, gr, scale, &active) }
    };
    let v0 = call(None);
    let v = call(Some(&mut gr));
    g.evals += 2;
    g.nontrivial();
    g.label(if utb { "upper trust bound" } else { "mean" });
    if valid.windows(2).any(|w| w[0] > w[1]) {
        g.label("active components not sorted");
    }
    let k = if utb { 3. } else { 0. };
    let s = m.var(&x).sqrt();
    let want = (m.mean(&x) + k * s) / scale;
    let tol = 1e-13 * (m.mean(&x).abs() + k * s) / scale;
    ensure!(close(v, want, tol) && v0 == v, "cstr-value", "constraint value {v} / {v0} without gradient, expected {want}");
    let (gm, gv) = (m.gmean(&x), m.gvar(&x));
    for (j, &i) in valid.iter().enumerate() {
        let gs = if s < f64::EPSILON { 0. } else { gv[i] / (2. * s) };
        let want = (gm[i] + k * gs) / scale;
        let tol = 1e-12 * (gm[i].abs() + k * gs.abs()) / scale;
        ensure!(
            close(gr[j], want, tol) || (s < 10. * f64::EPSILON),
            if utb { "utb-grad" } else { "mean-grad" },
            "gradient[{j}] wrt component {i} is {}, derivative is {want} (active {active:?})",
            gr[j]
        );
    }
    Ok(())
}

pub fn prop19() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: "a case counts when at least one surrogate constraint took part (acquisition) or a constraint value and its gradient were compared (constraints)",
        assumptions: &["the log of the probability of feasibility is floored at log(2.2e-16); its gradient below the floor is not specified"],
        subs: vec![
            Sub { name: "acquisition", quick: 500_000, thorough: 20_000_000, jobs: 8, f: c19_acq },
            Sub { name: "constraint", quick: 300_000, thorough: 10_000_000, jobs: 8, f: c19_cstr },
        ],
    }
}
