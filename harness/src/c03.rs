//! C03 kernels and trend bases
use crate::ensure;
use crate::fw::*;
use crate::gpref::*;
use crate::la::*;
use egobox_gp::DiffMatrix;
use egobox_gp::correlation_models::*;
use egobox_gp::mean_models::*;
use ndarray::{Array1, Array2};

struct KLib;
macro_rules! kcall {
    ($k:expr, $c:ident => $e:expr) => {
        match $k {
            K::SE => { let $c = SquaredExponentialCorr::default(); $e }
            K::AE => { let $c = AbsoluteExponentialCorr::default(); $e }
            K::M32 => { let $c = Matern32Corr::default(); $e }
            K::M52 => { let $c = Matern52Corr::default(); $e }
        }
    };
}
impl KLib {
    fn value(k: K, d: &Array2<f64>, t: &Array1<f64>, w: &Array2<f64>) -> Array2<f64> {
        kcall!(k, c => c.value(d, t, w))
    }
    fn jac(k: K, x: &Array1<f64>, xt: &Array2<f64>, t: &Array1<f64>, w: &Array2<f64>) -> Array2<f64> {
        kcall!(k, c => c.jacobian(x, xt, t, w))
    }
    fn valjac(k: K, x: &Array1<f64>, xt: &Array2<f64>, t: &Array1<f64>, w: &Array2<f64>) -> (Array2<f64>, Array2<f64>) {
        kcall!(k, c => c.valjac(x, xt, t, w))
    }
    fn value32(k: K, d: &Array2<f32>, t: &Array1<f32>, w: &Array2<f32>) -> Array2<f32> {
        kcall!(k, c => c.value(d, t, w))
    }
}

fn gen_kern(g: &mut G) -> (K, usize, usize, Array1<f64>, Array2<f64>) {
    let k = g.pick(&KERNELS);
    let d = g.us(1, 6);
    let pls = g.chance(40);
    let h = if pls { g.us(1, d) } else { d };
    let theta = Array1::from_shape_fn(h, |_| g.logf(1e-3, 1e2));
    let w = if pls {
        Array2::from_shape_fn((d, h), |_| if g.chance(10) { 0. } else { g.f(-1.2, 1.2) })
    } else {
        Array2::eye(d)
    };
    g.label(format!("{k:?}{}", if pls { "+pls" } else { "" }));
    g.note("kernel", k);
    g.note("theta", theta.to_vec());
    g.note("weights", w.rows().into_iter().map(|r| r.to_vec()).collect::<Vec<_>>());
    (k, d, h, theta, w)
}

fn kernel_values(g: &mut G) -> R {
    let (k, d, _h, theta, w) = gen_kern(g);
    let n = g.us(1, 8);
    let spread = g.logf(1e-2, 10.);
    let mut dm = Array2::from_shape_fn((n, d), |_| spread * g.f(-1., 1.));
    if g.chance(30) {
        dm[[0, 0]] = 0.;
    }
    let v = KLib::value(k, &dm, &theta, &w);
    ensure!(v.dim() == (n, 1), "shape", "shape {:?}", v.dim());
    let neg = KLib::value(k, &dm.mapv(|v| -v), &theta, &w);
    for i in 0..n {
        let e = kval(k, &dm.row(i).to_vec(), theta.as_slice().unwrap(), &w);
        // exponents up to a few hundreds: relative accuracy of exp is |t| eps
        let tol = 1e-11 * e + 1e-250;
        ensure!((v[[i, 0]] - e).abs() <= tol, "value", "{k:?}: value {:e} expected {e:e} for differences {}", v[[i, 0]], dm.row(i));
        ensure!((0. ..=1. + 1e-14).contains(&v[[i, 0]]), "range", "{k:?}: correlation {} outside [0,1]", v[[i, 0]]);
        ensure!((v[[i, 0]] - neg[[i, 0]]).abs() <= 1e-14, "sym", "{k:?}: not symmetric {} {}", v[[i, 0]], neg[[i, 0]]);
        // monotone: growing every difference cannot increase the correlation
        let f = 1. + g.unit();
        let far = KLib::value(k, &(&dm * f), &theta, &w);
        ensure!(far[[i, 0]] <= v[[i, 0]] * (1. + 1e-12), "monotone", "{k:?}: correlation grows with distance");
        if e > 1e-6 && e < 0.999 {
            g.nontrivial();
        }
    }
    let z = KLib::value(k, &Array2::zeros((1, d)), &theta, &w);
    ensure!(z[[0, 0]] == 1., "zero", "{k:?}: correlation at zero distance is {}", z[[0, 0]]);
    // derivatives stay finite at any distance; smooth kernels have zero derivative along a coincident coordinate
    let mut dj = dm.clone();
    let j = g.us(0, d - 1);
    dj[[0, j]] = 0.;
    let x0 = Array1::zeros(d);
    let jac = KLib::jac(k, &x0, &dj.mapv(|v| -v), &theta, &w);
    ensure!(jac.iter().all(|v| v.is_finite()), "finite", "{k:?}: non finite derivative {jac}");
    if k != K::AE {
        ensure!(jac[[0, j]].abs() <= 1e-9 * theta.sum(), "origin", "{k:?}: derivative {} along a coincident coordinate", jac[[0, j]]);
    }
    // single precision
    let v32 = KLib::value32(k, &dm.mapv(|v| v as f32), &theta.mapv(|v| v as f32), &w.mapv(|v| v as f32));
    let j32 = kcall!(k, c => c.jacobian(&x0.mapv(|v| v as f32), &dj.mapv(|v| -v as f32), &theta.mapv(|v| v as f32), &w.mapv(|v| v as f32)));
    ensure!(j32.iter().all(|v| v.is_finite()), "finite32", "{k:?}: non finite derivative in f32 {j32}");
    for i in 0..n {
        let e = v[[i, 0]];
        // |d log r| <= t * eps32 * const ; t = -ln r roughly, 1st order in distances
        let t = if e > 0. { -e.ln() } else { 1e3 };
        let tol = 4e-6 * (1. + t) * e + 1e-6;
        ensure!((v32[[i, 0]] as f64 - e).abs() <= tol, "f32", "{k:?}: f32 value {} vs {e}", v32[[i, 0]]);
    }
    Ok(())
}

fn kernel_derivs(g: &mut G) -> R {
    let (k, d, _h, theta, w) = gen_kern(g);
    let n = g.us(1, 4);
    // lengths comparable with the correlation length so that derivatives are not all negligible
    let tmax = theta.iter().cloned().fold(0., f64::max);
    let spread = g.f(0.3, 2.) / tmax.max(1e-3);
    let xt = Array2::from_shape_fn((n, d), |_| spread * g.f(-1., 1.));
    let mut x = Array1::from_shape_fn(d, |_| spread * g.f(-1., 1.));
    // keep away from the kinks
    for j in 0..d {
        for i in 0..n {
            if (x[j] - xt[[i, j]]).abs() < 0.06 * spread {
                x[j] = xt[[i, j]] + 0.06 * spread;
            }
        }
        for i in 0..n {
            if (x[j] - xt[[i, j]]).abs() < 0.05 * spread {
                return discard("near kink");
            }
        }
    }
    let j0 = KLib::jac(k, &x, &xt, &theta, &w);
    let (v1, j1) = KLib::valjac(k, &x, &xt, &theta, &w);
    ensure!(j0.dim() == (n, d), "shape", "jacobian shape {:?}", j0.dim());
    ensure!(maxabs(&(&j0 - &j1)) <= 1e-12 * (1. + maxabs(&j0)), "valjac", "{k:?}: valjac and jacobian differ\n{j0}\n{j1}");
    let dm = &x - &xt;
    let v0 = KLib::value(k, &dm, &theta, &w);
    ensure!(maxabs(&(&v0 - &v1)) <= 1e-14, "valjac", "{k:?}: valjac and value differ");
    for i in 0..n {
        for j in 0..d {
            let mut f = |h: f64| {
                let mut dd = dm.row(i).to_vec();
                dd[j] += h;
                KLib::value(k, &Array2::from_shape_vec((1, d), dd).unwrap(), &theta, &w)[[0, 0]]
            };
            let (dv, e) = deriv(&mut f, spread);
            let tol = 5. * e + 1e-8 * (dv.abs() + 1. / spread * 1e-2);
            ensure!((j0[[i, j]] - dv).abs() <= tol, "deriv", "{k:?}: derivative {} but finite difference {dv} (+-{e}) at training point {i}, component {j}", j0[[i, j]]);
            if dv.abs() * spread > 1e-4 {
                g.nontrivial();
            }
        }
    }
    Ok(())
}

fn psd(g: &mut G) -> R {
    let (k, d, _h, theta, w) = gen_kern(g);
    let n = g.us(2, 14);
    let spread = g.f(0.2, 3.) / theta.iter().cloned().fold(0., f64::max).max(1e-3);
    let mut x = Array2::from_shape_fn((n, d), |_| spread * g.f(-1., 1.));
    if g.chance(20) {
        let r = x.row(0).to_owned();
        x.row_mut(n - 1).assign(&r);
        g.label("coincident");
    }
    let dm = DiffMatrix::new(&x);
    ensure!(dm.n_obs == n && dm.d.nrows() == n * (n - 1) / 2, "diff", "difference matrix shape");
    let v = KLib::value(k, &dm.d, &theta, &w);
    let mut r = Array2::eye(n);
    let mut seen = Array2::<usize>::zeros((n, n));
    for (c, ij) in dm.d_indices.outer_iter().enumerate() {
        let (a, b) = (ij[0], ij[1]);
        for j in 0..d {
            let e = (x[[a, j]] - x[[b, j]]).abs();
            ensure!(dm.d[[c, j]] == e, "diff", "difference of points {a},{b} component {j} is {} not {e}", dm.d[[c, j]]);
        }
        r[[a, b]] = v[[c, 0]];
        r[[b, a]] = v[[c, 0]];
        seen[[a, b]] += 1;
        seen[[b, a]] += 1;
    }
    for a in 0..n {
        for b in 0..n {
            ensure!(a == b || seen[[a, b]] == 1, "diff", "pair {a},{b} listed {} times", seen[[a, b]]);
        }
    }
    let ev = sym_eig(&r);
    let mn = ev.iter().cloned().fold(f64::INFINITY, f64::min);
    ensure!(mn > -1e-10 * n as f64, "psd", "{k:?}: correlation matrix has eigenvalue {mn}");
    if n > 3 && ev.iter().any(|v| *v < 0.5) {
        g.nontrivial();
    }
    Ok(())
}

fn trends(g: &mut G) -> R {
    let m = g.pick(&MEANS);
    let d = g.us(1, 6);
    let n = g.us(1, 5);
    let s = g.logf(1e-2, 10.);
    let x = Array2::from_shape_fn((n, d), |_| s * g.f(-1., 1.));
    g.note("trend", m);
    g.note("x", x.rows().into_iter().map(|r| r.to_vec()).collect::<Vec<_>>());
    let val = |x: &Array2<f64>| match m {
        M::Const => ConstantMean::default().value(x),
        M::Lin => LinearMean::default().value(x),
        M::Quad => QuadraticMean::default().value(x),
    };
    let f = val(&x);
    let p = n_basis(m, d);
    ensure!(f.dim() == (n, p), "shape", "{m:?}: basis shape {:?} expected {:?}", f.dim(), (n, p));
    for i in 0..n {
        let b = basis(m, &x.row(i).to_vec());
        for q in 0..p {
            ensure!((f[[i, q]] - b[q]).abs() <= 1e-14 * (1. + b[q].abs()), "basis", "{m:?}: basis function {q} is {} expected {}", f[[i, q]], b[q]);
        }
        let xi = x.row(i).to_owned();
        let j = match m {
            M::Const => ConstantMean::default().jacobian(&xi),
            M::Lin => LinearMean::default().jacobian(&xi),
            M::Quad => QuadraticMean::default().jacobian(&xi),
        };
        ensure!(j.dim() == (p, d), "shape", "{m:?}: jacobian shape {:?} expected {:?}", j.dim(), (p, d));
        // basis functions are at most quadratic: central differences are exact up to rounding
        let h = 0.5 * s;
        for c in 0..d {
            let mut a = rowq(&x, i);
            let mut b = a.clone();
            a[[0, c]] += h;
            b[[0, c]] -= h;
            let fd = (val(&a) - val(&b)) / (2. * h);
            for q in 0..p {
                ensure!((j[[q, c]] - fd[[0, q]]).abs() <= 1e-10 * (1. + s), "jac", "{m:?}: derivative of basis {q} wrt {c} is {} expected {}", j[[q, c]], fd[[0, q]]);
            }
        }
    }
    if m != M::Const {
        g.nontrivial();
    }
    g.label(format!("{m:?}"));
    Ok(())
}

pub fn prop03() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "random kernel, dimension 1..6, theta over 5 decades, optional KPLS weights, random differences; values against the closed form, derivatives against high-order finite differences away from kinks, correlation matrices by their smallest eigenvalue, trends against their definition. Non-trivial: a correlation strictly between 1e-6 and 0.999, a non-negligible derivative, a matrix with an eigenvalue below 1/2, a non-constant trend.",
        assumptions: &["derivatives at kernel kinks (coincident coordinates) are not compared"],
        subs: vec![
            Sub { name: "kernel_values", quick: 40000, thorough: 600000, jobs: 0, f: kernel_values },
            Sub { name: "kernel_derivs", quick: 15000, thorough: 300000, jobs: 0, f: kernel_derivs },
            Sub { name: "psd", quick: 6000, thorough: 100000, jobs: 0, f: psd },
            Sub { name: "trends", quick: 10000, thorough: 100000, jobs: 0, f: trends },
        ],
    }
}
