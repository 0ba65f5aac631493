//! Reference dense linear algebra and numerical differentiation (independent of the code under test)
use ndarray::{Array1, Array2, Axis};

pub fn chol(a: &Array2<f64>) -> Option<Array2<f64>> {
    let n = a.nrows();
    let mut l = Array2::<f64>::zeros((n, n));
    for i in 0..n {
        for j in 0..=i {
            let mut s = a[[i, j]];
            for k in 0..j {
                s -= l[[i, k]] * l[[j, k]];
            }
            if i == j {
                if !(s > 0.) {
                    return None;
                }
                l[[i, i]] = s.sqrt();
            } else {
                l[[i, j]] = s / l[[j, j]];
            }
        }
    }
    Some(l)
}
/// solve A X = B by LU with partial pivoting
pub fn solve(a: &Array2<f64>, b: &Array2<f64>) -> Option<Array2<f64>> {
    let n = a.nrows();
    let m = b.ncols();
    let mut a = a.clone();
    let mut b = b.clone();
    for c in 0..n {
        let mut p = c;
        for r in c + 1..n {
            if a[[r, c]].abs() > a[[p, c]].abs() {
                p = r;
            }
        }
        if a[[p, c]] == 0. || !a[[p, c]].is_finite() {
            return None;
        }
        if p != c {
            for k in 0..n {
                a.swap([p, k], [c, k]);
            }
            for k in 0..m {
                b.swap([p, k], [c, k]);
            }
        }
        for r in c + 1..n {
            let f = a[[r, c]] / a[[c, c]];
            if f != 0. {
                for k in c..n {
                    let t = a[[c, k]];
                    a[[r, k]] -= f * t;
                }
                for k in 0..m {
                    let t = b[[c, k]];
                    b[[r, k]] -= f * t;
                }
            }
        }
    }
    let mut x = Array2::zeros((n, m));
    for k in 0..m {
        for i in (0..n).rev() {
            let mut s = b[[i, k]];
            for j in i + 1..n {
                s -= a[[i, j]] * x[[j, k]];
            }
            x[[i, k]] = s / a[[i, i]];
        }
    }
    Some(x)
}
pub fn inv(a: &Array2<f64>) -> Option<Array2<f64>> {
    solve(a, &Array2::eye(a.nrows()))
}
pub fn norm1(a: &Array2<f64>) -> f64 {
    a.axis_iter(Axis(1))
        .map(|c| c.iter().map(|v| v.abs()).sum::<f64>())
        .fold(0., f64::max)
}
/// 1-norm condition number
pub fn cond(a: &Array2<f64>) -> f64 {
    match inv(a) {
        Some(i) => norm1(a) * norm1(&i),
        None => f64::INFINITY,
    }
}
/// eigenvalues of a symmetric matrix (cyclic Jacobi)
pub fn sym_eig(a: &Array2<f64>) -> Vec<f64> {
    let n = a.nrows();
    let mut a = a.clone();
    for _ in 0..60 {
        let mut off = 0.;
        for i in 0..n {
            for j in 0..i {
                off += a[[i, j]] * a[[i, j]];
            }
        }
        if off < 1e-26 * (1. + a.diag().iter().map(|v| v * v).sum::<f64>()) {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                let apq = a[[p, q]];
                if apq == 0. {
                    continue;
                }
                let th = (a[[q, q]] - a[[p, p]]) / (2. * apq);
                let t = th.signum() / (th.abs() + (th * th + 1.).sqrt());
                let t = if th == 0. { 1. } else { t };
                let c = 1. / (t * t + 1.).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[[k, p]], a[[k, q]]);
                    a[[k, p]] = c * x - s * y;
                    a[[k, q]] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[[p, k]], a[[q, k]]);
                    a[[p, k]] = c * x - s * y;
                    a[[q, k]] = s * x + c * y;
                }
            }
        }
    }
    a.diag().to_vec()
}

/// Numerical derivative of f at 0 with an error estimate: 4th order central differences on a
/// ladder of steps (fractions of `scale`), retaining the most consistent pair.
pub fn deriv(f: &mut dyn FnMut(f64) -> f64, scale: f64) -> (f64, f64) {
    let hs = [2e-2, 1e-2, 4e-3, 1.5e-3, 5e-4, 1.5e-4, 5e-5];
    let mut prev: Option<f64> = None;
    let mut best = (0., f64::INFINITY);
    for h in hs {
        let h = h * scale;
        let d = (8. * (f(h) - f(-h)) - (f(2. * h) - f(-2. * h))) / (12. * h);
        if let Some(p) = prev {
            let e = (d - p as f64).abs();
            if e < best.1 {
                best = (d, e);
            }
        }
        prev = Some(d);
    }
    best
}

pub fn maxabs(a: &Array2<f64>) -> f64 {
    a.iter().fold(0., |m, v| m.max(v.abs()))
}
pub fn maxabs1(a: &Array1<f64>) -> f64 {
    a.iter().fold(0., |m, v| m.max(v.abs()))
}
