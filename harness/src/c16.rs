//! C16, C17: mixed-integer encoding, designs and surrogates
use crate::c11::*;
use crate::ensure;
use crate::fw::*;
use crate::gpref::gen_y;
use crate::la::*;
use egobox_doe::{FullFactorial, Lhs, LhsKind, Random, SamplingMethod};
use egobox_ego::gpmix::mixint::*;
use egobox_ego::{SurrogateBuilder, XType};
use egobox_moe::{MixtureGpSurrogate, Clustered, Clustering, GpMetrics, GpMixture, GpQualityAssurance, GpSurrogate, GpSurrogateExt, GpFileFormat, GpMixtureParams, NbClusters};
use linfa::prelude::{Fit, Predict};
use linfa::{Dataset, ParamGuard};
use ndarray::{Array1, Array2};
use ndarray_rand::rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;

// ---------------------------------------------------------------- reference model of variable types

pub fn gen_xtypes(g: &mut G, dmax: usize, degenerate: bool) -> Vec<XType> {
    let d = g.us(1, dmax);
    let v: Vec<XType> = (0..d)
        .map(|_| match g.us(0, 3) {
            0 => {
                let lo = g.sym(0.01, 100.);
                let w = g.logf(0.01, 1000.);
                XType::Float(lo, lo + w)
            }
            1 => {
                let lo = g.int(-20, 20) as i32;
                XType::Int(lo, lo + g.int(if degenerate { 0 } else { 1 }, 12) as i32)
            }
            2 => {
                let n = g.us(if degenerate { 1 } else { 2 }, 5);
                let mut lv: Vec<f64> = vec![];
                let mut c = g.sym(0.01, 50.);
                for _ in 0..n {
                    lv.push(c);
                    c += g.logf(1e-2, 30.);
                }
                if g.chance(30) {
                    let p = g.perm(n);
                    lv = p.iter().map(|i| lv[*i]).collect();
                }
                XType::Ord(lv)
            }
            _ => XType::Enum(g.us(if degenerate { 1 } else { 2 }, 5)),
        })
        .collect();
    g.note("xtypes", &v);
    v
}

pub fn is_mixed(t: &[XType]) -> bool {
    t.iter().any(|x| !matches!(x, XType::Float(..)))
}
pub fn width(t: &XType) -> usize {
    match t {
        XType::Enum(n) => *n,
        _ => 1,
    }
}
pub fn udim(t: &[XType]) -> usize {
    t.iter().map(width).sum()
}
/// whether a folded point is valid; None if so, otherwise what is wrong
pub fn invalid(t: &[XType], p: &[f64]) -> Option<String> {
    if p.len() != t.len() {
        return Some(format!("{} components for {} variables", p.len(), t.len()));
    }
    for (j, (t, v)) in t.iter().zip(p).enumerate() {
        let ok = match t {
            XType::Float(lo, hi) => *v >= *lo && *v <= *hi,
            XType::Int(lo, hi) => v.fract() == 0. && *v >= *lo as f64 && *v <= *hi as f64,
            XType::Ord(l) => l.iter().any(|x| x == v),
            XType::Enum(n) => v.fract() == 0. && *v >= 0. && *v < *n as f64,
        };
        if !ok {
            return Some(format!("component {j} = {v} is not a value of {t:?}"));
        }
    }
    None
}
pub fn gen_folded(g: &mut G, t: &[XType]) -> Vec<f64> {
    t.iter()
        .map(|t| match t {
            XType::Float(lo, hi) => match g.us(0, 9) {
                0 => *lo,
                1 => *hi,
                _ => g.f(*lo, *hi).clamp(*lo, *hi),
            },
            XType::Int(lo, hi) => g.int(*lo as i64, *hi as i64) as f64,
            XType::Ord(l) => g.pick(l),
            XType::Enum(n) => g.us(0, n - 1) as f64,
        })
        .collect()
}
pub fn unfold(t: &[XType], p: &[f64]) -> Vec<f64> {
    let mut o = vec![];
    for (t, v) in t.iter().zip(p) {
        match t {
            XType::Enum(n) => o.extend((0..*n).map(|i| if i as f64 == *v { 1. } else { 0. })),
            _ => o.push(*v),
        }
    }
    o
}
pub fn ref_limits(t: &[XType]) -> Vec<(f64, f64)> {
    let mut o = vec![];
    for t in t {
        match t {
            XType::Float(lo, hi) => o.push((*lo, *hi)),
            XType::Int(lo, hi) => o.push((*lo as f64, *hi as f64)),
            XType::Ord(l) => o.push((l.iter().cloned().fold(f64::INFINITY, f64::min), l.iter().cloned().fold(f64::NEG_INFINITY, f64::max))),
            XType::Enum(n) => o.extend((0..*n).map(|_| (0., 1.))),
        }
    }
    o
}
/// folded point a relaxed point stands for (None when it is ambiguous: a tie)
pub fn ref_cast(t: &[XType], u: &[f64]) -> Option<Vec<f64>> {
    let mut o = vec![];
    let mut c = 0;
    for t in t {
        match t {
            XType::Float(..) => o.push(u[c]),
            XType::Int(..) => {
                if (u[c] - u[c].floor() - 0.5).abs() < 1e-9 {
                    return None;
                }
                o.push((u[c] + 0.5).floor())
            }
            XType::Ord(l) => {
                let mut s: Vec<(f64, f64)> = l.iter().map(|v| ((v - u[c]).abs(), *v)).collect();
                s.sort_by(|a, b| a.0.total_cmp(&b.0));
                if s.len() > 1 && s[1].0 - s[0].0 <= 1e-12 * (1. + u[c].abs()) {
                    return None;
                }
                o.push(s[0].1)
            }
            XType::Enum(n) => {
                let s = &u[c..c + n];
                let m = s.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                if s.iter().filter(|v| **v == m).count() > 1 {
                    return None;
                }
                o.push(s.iter().position(|v| *v == m).unwrap() as f64)
            }
        }
        c += width(t);
    }
    Some(o)
}
/// Known finding (pinned by tests of the repository, so not repaired): an enum placed after another enum
/// is decoded from the columns starting at its own index instead of its encoded position. This is exactly
/// what is then read for a point which should decode as `p`.
pub fn known_fold(t: &[XType], p: &[f64]) -> Vec<f64> {
    let u = unfold(t, p);
    t.iter()
        .enumerate()
        .map(|(j, t)| match t {
            XType::Enum(n) => {
                let s = &u[j..j + n];
                let m = s.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                s.iter().position(|v| *v == m).unwrap() as f64
            }
            _ => p[j],
        })
        .collect()
}
pub fn enum_after_enum(t: &[XType]) -> bool {
    t.iter().filter(|t| matches!(t, XType::Enum(_))).count() > 1
}
/// `got` unless it differs from `want` exactly as the known finding says: then `want`, and the flag is raised
pub fn settle(t: &[XType], got: Vec<f64>, want: &[f64], known: &mut bool) -> Vec<f64> {
    if got != want && enum_after_enum(t) && got == known_fold(t, want) {
        *known = true;
        return want.to_vec();
    }
    got
}
pub fn known_end(known: bool) -> R {
    if known { fail("fold-enum-after-enum", "an enum placed after another enum is decoded from the columns of the former".into()) } else { Ok(()) }
}
pub fn gen_relaxed(g: &mut G, t: &[XType]) -> Vec<f64> {
    ref_limits(t)
        .iter()
        .map(|(lo, hi)| match g.us(0, 19) {
            0 => *lo,
            1 => *hi,
            _ => g.f(*lo, *hi).clamp(*lo, *hi),
        })
        .collect()
}
pub fn to_mat(rows: &[Vec<f64>], d: usize) -> Array2<f64> {
    Array2::from_shape_fn((rows.len(), d), |(i, j)| rows[i][j])
}
/// valid folded points whose rows are distinct once encoded
pub fn gen_points(g: &mut G, t: &[XType], n: usize) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = vec![];
    for _ in 0..n * 3 {
        if v.len() == n {
            break;
        }
        let p = gen_folded(g, t);
        if !v.contains(&p) {
            v.push(p);
        }
    }
    v
}

// ------------------------------------------------------------------------------------------- C16

fn encoding(g: &mut G) -> R {
    let t = gen_xtypes(g, 6, true);
    let (d, du) = (t.len(), udim(&t));
    let n = g.us(0, 6);
    let pts: Vec<Vec<f64>> = (0..n).map(|_| gen_folded(g, &t)).collect();
    let x = to_mat(&pts, d);
    g.note("points", &pts);
    if is_mixed(&t) && d > 1 {
        g.nontrivial();
    }
    let lim = ref_limits(&t);
    let l: Array2<f64> = as_continuous_limits(&t);
    ensure!(l.dim() == (du, 2), "limits-shape", "limits {:?} for {t:?}", l.dim());
    for (j, (a, b)) in lim.iter().enumerate() {
        ensure!(l[[j, 0]] == *a && l[[j, 1]] == *b, "limits", "limits of component {j} are {} not ({a}, {b})", l.row(j));
    }
    ensure!(MixintContext::new(&t).get_unfolded_dim() == du, "dim", "unfolded dimension");
    let u = to_continuous_space(&t, &x);
    ensure!(u.dim() == (n, du), "shape", "encoded {:?}", u.dim());
    for i in 0..n {
        let r = unfold(&t, &pts[i]);
        for j in 0..du {
            ensure!(u[[i, j]] == r[j], "encode", "{:?} is encoded as {} instead of {r:?}", pts[i], u.row(i));
            ensure!(u[[i, j]] >= l[[j, 0]] && u[[i, j]] <= l[[j, 1]], "contain", "encoded {} out of limits {}", u.row(i), l);
        }
    }
    let mut known = false;
    let b = to_discrete_space(&t, &u);
    ensure!(b.dim() == x.dim(), "shape", "decoded {:?}", b.dim());
    for i in 0..n {
        let r = settle(&t, b.row(i).to_vec(), &pts[i], &mut known);
        ensure!(r == pts[i], "roundtrip", "{x} is decoded as {b}");
    }
    // relaxed points
    let m = g.us(1, 6);
    let rel: Vec<Vec<f64>> = (0..m).map(|_| gen_relaxed(g, &t)).collect();
    g.note("relaxed", &rel);
    let ru = to_mat(&rel, du);
    let rd = to_discrete_space(&t, &ru);
    ensure!(rd.dim() == (m, d), "shape", "decoded {:?}", rd.dim());
    for i in 0..m {
        let p = rd.row(i).to_vec();
        if let Some(w) = invalid(&t, &p) {
            return fail("invalid", format!("{:?} is decoded as {p:?}: {w}", rel[i]));
        }
        let want = ref_cast(&t, &rel[i]);
        if want.is_none() && enum_after_enum(&t) {
            continue; // ambiguous, and the known finding hides how it was settled
        }
        let p = match &want {
            Some(r) => settle(&t, p, r, &mut known),
            None => p,
        };
        if let Some(r) = want {
            g.evals += 1;
            ensure!(r == p, "cast", "{:?} is decoded as {p:?} instead of {r:?}", rel[i]);
        }
        // closest, ties included
        let e = unfold(&t, &p);
        let mut c = 0;
        for (j, ty) in t.iter().enumerate() {
            match ty {
                XType::Float(..) => {}
                XType::Int(..) => ensure!((rel[i][c] - p[j]).abs() <= 0.5, "nearest", "{} rounded to {}", rel[i][c], p[j]),
                XType::Ord(l) => {
                    let dmin = l.iter().map(|v| (v - rel[i][c]).abs()).fold(f64::INFINITY, f64::min);
                    ensure!((rel[i][c] - p[j]).abs() <= dmin * (1. + 1e-12), "nearest", "{} cast to {} in {l:?}", rel[i][c], p[j]);
                }
                XType::Enum(k) => {
                    let s = &rel[i][c..c + k];
                    ensure!(s.iter().all(|v| *v <= s[p[j] as usize]), "largest", "{s:?} cast to {}", p[j]);
                }
            }
            c += width(ty);
        }
        // twice
        let tw = to_discrete_space(&t, &to_mat(&[e], du));
        ensure!(settle(&t, tw.row(0).to_vec(), &p, &mut known) == p, "twice", "{p:?} is decoded again as {tw}");
        // alone
        let al = to_discrete_space(&t, &to_mat(&[rel[i].clone()], du));
        ensure!(settle(&t, al.row(0).to_vec(), &p, &mut known) == p, "row", "a row decodes differently alone: {al} and {p:?}");
    }
    // other memory layout
    let tr = ru.t().to_owned();
    let rd2 = to_discrete_space(&t, &tr.t());
    ensure!(rd2 == rd, "layout", "{rd2} and {rd}");
    let xt = x.t().to_owned();
    ensure!(to_continuous_space(&t, &xt.t()) == u, "layout", "encoding depends on memory layout");
    known_end(known)
}

pub fn prop16() -> Prop {
    Prop {
        id: "C16",
        level: "exploration",
        rule: "a case is non-trivial when its space has several variables, one of them not continuous",
        assumptions: &[
            "only continuous points of the relaxed box are decoded: nothing is claimed outside of it",
            "integer bounds within +-32, at most 6 variables and 5 levels",
        ],
        subs: vec![Sub { name: "encoding", quick: 60000, thorough: 3_000_000, jobs: 0, f: encoding }],
    }
}

// ------------------------------------------------------------------------------------------- C17

const KINDS: [LhsKind; 5] = crate::c01::KINDS;

fn check_design(t: &[XType], x: &Array2<f64>, under: &Array2<f64>, n: Option<usize>, folded: bool, known: &mut bool) -> R {
    if let Some(n) = n {
        ensure!(x.nrows() == n, "size", "{} points requested, {} sampled", n, x.nrows());
    }
    ensure!(x.nrows() == under.nrows(), "size", "{} points instead of {}", x.nrows(), under.nrows());
    ensure!(x.ncols() == if folded { t.len() } else { udim(t) }, "columns", "{} columns", x.ncols());
    for i in 0..x.nrows() {
        let row = x.row(i).to_vec();
        let p = if folded {
            row.clone()
        } else {
            match ref_cast(t, &row) {
                Some(p) => p,
                None => return fail("mask", format!("{row:?} is not an encoded point")),
            }
        };
        if let Some(w) = invalid(t, &p) {
            return fail("invalid", format!("sampled {row:?}: {w}"));
        }
        if !folded {
            ensure!(unfold(t, &p) == row, "mask", "{row:?} is not an encoded point");
        }
        if let Some(r) = ref_cast(t, &under.row(i).to_vec()) {
            let p = if folded { settle(t, p, &r, known) } else { p };
            ensure!(r == p, "cast", "the underlying {} became {row:?}", under.row(i));
        }
    }
    Ok(())
}

fn designs(g: &mut G) -> R {
    let t = gen_xtypes(g, 5, false);
    let n = g.us(1, 20);
    let seed = g.seed();
    g.note("n", n);
    g.note("seed", seed);
    if is_mixed(&t) {
        g.nontrivial();
    }
    let ctx = MixintContext::new(&t);
    let lim: Array2<f64> = as_continuous_limits(&t);
    let rng = || Xoshiro256Plus::seed_from_u64(seed);
    let mut known = false;
    match g.us(0, 2) {
        0 => {
            let kind = g.pick(&KINDS);
            g.label(format!("lhs {kind:?}"));
            let s: MixintSampling<f64, _> = ctx.create_lhs_sampling(kind, Some(seed));
            let under = Lhs::new(&lim).with_rng(rng()).kind(kind).sample(n);
            let x = s.sample(n);
            check_design(&t, &x, &under, Some(n), true, &mut known)?;
            let mut s2 = MixintSampling::new(Lhs::new(&lim).with_rng(rng()).kind(kind), t.clone());
            let xu = s2.sample(n);
            check_design(&t, &xu, &under, Some(n), false, &mut known)?;
            let mut s3 = MixintSampling::new(Lhs::new(&lim).with_rng(rng()).kind(kind), t.clone());
            ensure!(s3.work_in_folded_space(true).sample(n) == x, "folded", "folded design differs from the context's");
            s2.work_in_folded_space(false);
            ensure!(*s.sampling_space() == lim, "space", "sampling space {}", s.sampling_space());
            let s4: MixintSampling<f64, _> = ctx.create_lhs_sampling(kind, None);
            let x4 = s4.sample(n);
            for r in x4.rows() {
                if let Some(w) = invalid(&t, &r.to_vec()) {
                    return fail("invalid", format!("sampled {r}: {w}"));
                }
            }
        }
        1 => {
            g.label("random");
            let s: MixintSampling<f64, _> = ctx.create_rand_sampling(Some(seed));
            let under = Random::new(&lim).with_rng(rng()).sample(n);
            check_design(&t, &s.sample(n), &under, Some(n), true, &mut known)?;
            let s2 = MixintSampling::new(Random::new(&lim).with_rng(rng()), t.clone());
            check_design(&t, &s2.sample(n), &under, Some(n), false, &mut known)?;
        }
        _ => {
            g.label("factorial");
            let s: MixintSampling<f64, _> = ctx.create_ffact_sampling();
            let under = FullFactorial::new(&lim).sample(n);
            check_design(&t, &s.sample(n), &under, None, true, &mut known)?;
            ensure!(under.nrows() >= 1, "size", "empty factorial");
            let s2 = MixintSampling::new(FullFactorial::new(&lim), t.clone());
            check_design(&t, &s2.sample(n), &under, None, false, &mut known)?;
        }
    }
    known_end(known)
}

fn ff(b: bool) -> GpFileFormat {
    if b { GpFileFormat::Binary } else { GpFileFormat::Json }
}

fn near(a: &[f64], b: &[f64], sc: f64) -> bool {
    let m = b.iter().fold(sc, |m, v| m.max(v.abs()));
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x - y).abs() <= 1e-7 * m)
}
fn flat(m: &Array2<f64>) -> Vec<f64> {
    m.iter().cloned().collect()
}

/// every entry point of the mixed-integer surrogate against the underlying mixture at encoded points
fn same_answers(mx: &dyn MixSur, under: &GpMixture, q: &Array2<f64>, e: &Array2<f64>, sm: f64, grads: bool) -> R {
    let sv: f64 = under.experts().iter().map(|x| x.variance()).sum();
    macro_rules! cmp {
        ($n:expr, $a:expr, $b:expr, $sc:expr, $f:expr) => {
            match ($a, $b) {
                (Ok(a), Ok(b)) => ensure!(near(&$f(&a), &$f(&b), $sc), $n, "{} at {q}: {a} but the mixture gives {b} at {e}", $n),
                (Err(_), Err(_)) => {}
                (Err(a), _) => return fail($n, format!("{} fails: {a}", $n)),
                (_, Err(b)) => return fail($n, format!("the mixture refuses {} but not its wrapper: {b}", $n)),
            }
        };
    }
    let v = |a: &Array1<f64>| a.to_vec();
    let s = mx.s();
    let x = mx.x();
    let (qv, ev) = (q.view(), e.view());
    cmp!("predict", s.predict(&qv), GpSurrogate::predict(under, &ev), sm, v);
    cmp!("predict_var", s.predict_var(&qv), GpSurrogate::predict_var(under, &ev), sv, v);
    cmp!("valvar-mean", s.predict_valvar(&qv).map(|r| r.0), GpSurrogate::predict_valvar(under, &ev).map(|r| r.0), sm, v);
    cmp!("valvar-var", s.predict_valvar(&qv).map(|r| r.1), GpSurrogate::predict_valvar(under, &ev).map(|r| r.1), sv, v);
    if !grads {
        return Ok(());
    }
    cmp!("gradients", x.predict_gradients(&qv), GpSurrogateExt::predict_gradients(under, &ev), sm, flat);
    cmp!("var_gradients", x.predict_var_gradients(&qv), GpSurrogateExt::predict_var_gradients(under, &ev), sv, flat);
    cmp!("valvar_gradients", x.predict_valvar_gradients(&qv).map(|r| r.0), GpSurrogateExt::predict_valvar_gradients(under, &ev).map(|r| r.0), sm, flat);
    cmp!("valvar_var_gradients", x.predict_valvar_gradients(&qv).map(|r| r.1), GpSurrogateExt::predict_valvar_gradients(under, &ev).map(|r| r.1), sv, flat);
    Ok(())
}
trait MixSur {
    fn s(&self) -> &dyn GpSurrogate;
    fn x(&self) -> &dyn GpSurrogateExt;
}
struct A<'a>(&'a MixintGpMixture);
impl MixSur for A<'_> {
    fn s(&self) -> &dyn GpSurrogate {
        self.0
    }
    fn x(&self) -> &dyn GpSurrogateExt {
        self.0
    }
}
struct B<'a>(&'a dyn egobox_moe::MixtureGpSurrogate);
impl MixSur for B<'_> {
    fn s(&self) -> &dyn GpSurrogate {
        self.0
    }
    fn x(&self) -> &dyn GpSurrogateExt {
        self.0
    }
}

struct MxCase {
    t: Vec<XType>,
    folded: bool,
    x: Array2<f64>,
    e: Array2<f64>,
    y: Array1<f64>,
    cfg: MixCfg,
}

/// training data in the space the surrogate works in, and the same encoded
fn gen_mx(g: &mut G, cheap: bool) -> Result<MxCase, Stop> {
    let t = gen_xtypes(g, 4, false);
    let folded = g.chance(50);
    let n = g.us(10, 24);
    let pts = gen_points(g, &t, n);
    if pts.len() < 8 {
        return discard("space too small");
    }
    let n = pts.len();
    let e = to_mat(&pts.iter().map(|p| unfold(&t, p)).collect::<Vec<_>>(), udim(&t));
    let y = gen_y(g, &e);
    let x = if folded {
        to_mat(&pts, t.len())
    } else if g.chance(40) {
        // relaxed values standing for the same discrete points
        let mut u = e.clone();
        for i in 0..n {
            let mut c = 0;
            for ty in &t {
                match ty {
                    XType::Int(lo, hi) => {
                        let v = (u[[i, c]] + g.f(-0.45, 0.45)).clamp(*lo as f64, *hi as f64);
                        u[[i, c]] = v;
                    }
                    XType::Enum(k) => {
                        for j in 0..*k {
                            u[[i, c + j]] = if u[[i, c + j]] == 1. { g.f(0.6, 1.) } else { g.f(0., 0.5) };
                        }
                    }
                    _ => {}
                }
                c += width(ty);
            }
        }
        u
    } else {
        e.clone()
    };
    g.note("x", x.rows().into_iter().map(|r| r.to_vec()).collect::<Vec<_>>());
    g.note("y", y.to_vec());
    g.note("folded", folded);
    g.label(if folded { "folded" } else { "unfolded" });
    let cfg = gen_mixcfg(g, udim(&t), cheap, false);
    Ok(MxCase { t, folded, x, e, y, cfg })
}

fn surrogate(g: &mut G) -> R {
    let c = gen_mx(g, true)?;
    if is_mixed(&c.t) {
        g.nontrivial();
    }
    let under = match c.cfg.params().fit(&Dataset::new(c.e.clone(), c.y.clone())) {
        Ok(m) => Ok(m),
        Err(e) => Err(e.to_string()),
    };
    let mut params = MixintGpMixtureParams::new(&c.t, &c.cfg.params());
    let params = params.work_in_folded_space(c.folded);
    let mx = params.fit(&Dataset::new(c.x.clone(), c.y.clone()));
    let (under, mx) = match (under, mx) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), Err(_)) => return discard(&format!("fit: {}", e.chars().take(24).collect::<String>())),
        (Ok(_), Err(e)) => return fail("fit", format!("training fails ({e}) where the underlying mixture trains on the encoded data")),
        (Err(e), Ok(_)) => return fail("fit", format!("training succeeds where the underlying mixture fails on the encoded data: {e}")),
    };
    let sm = maxabs1(&c.y);
    // queries in the working space and the discrete points they stand for
    let mut qs = vec![];
    let mut es = vec![];
    for _ in 0..5 {
        if c.folded {
            let p = gen_folded(g, &c.t);
            es.push(unfold(&c.t, &p));
            qs.push(p);
        } else {
            let u = gen_relaxed(g, &c.t);
            if let Some(p) = ref_cast(&c.t, &u) {
                es.push(unfold(&c.t, &p));
                qs.push(u);
            }
        }
    }
    let k = g.us(0, c.x.nrows() - 1);
    qs.push(c.x.row(k).to_vec());
    es.push(c.e.row(k).to_vec());
    let (q, e) = (to_mat(&qs, c.x.ncols()), to_mat(&es, udim(&c.t)));
    g.note("queries", &qs);
    ensure!(GpSurrogate::dims(&mx) == GpSurrogate::dims(&under), "dims", "dims {:?} and {:?}", GpSurrogate::dims(&mx), GpSurrogate::dims(&under));
    ensure!(mx.n_clusters() == under.n_clusters() && mx.recombination() == under.recombination(), "clusters", "clusters");
    // (a relaxed -0.3 is rounded to -0, on the other side of the kink of an absolute exponential kernel)
    let grads = c.folded || !c.cfg.has_kinks();
    same_answers(&A(&mx), &under, &q, &e, sm, grads)?;
    // the prediction interface of linfa
    let p1 = Predict::predict(&mx, &q);
    let p2 = GpSurrogate::predict(&mx, &q.view()).unwrap();
    ensure!(near(&p1.to_vec(), &p2.to_vec(), sm), "linfa", "predictions {p1} with Predict and {p2} with GpSurrogate");
    // trajectories are those of the discrete points: equal inputs give equal values
    if g.chance(30) && mx.n_clusters() == 1 {
        let q1 = Array2::from_shape_fn((1, q.ncols()), |(_, j)| q[[0, j]]);
        let e1 = Array2::from_shape_fn((1, e.ncols()), |(_, j)| e[[0, j]]);
        let nt = 400;
        if let (Ok(s), Ok(m), Ok(v)) = (GpSurrogateExt::sample(&mx, &q1.view(), nt), GpSurrogate::predict(&under, &e1.view()), GpSurrogate::predict_var(&under, &e1.view())) {
            ensure!(s.dim() == (1, nt), "sample", "trajectories {:?}", s.dim());
            let mean = s.mean().unwrap();
            let tol = 7. * (v[0].max(0.) / nt as f64).sqrt() + 1e-5 * sm;
            ensure!((mean - m[0]).abs() <= tol, "sample", "mean of trajectories {mean}, prediction {} (variance {})", m[0], v[0]);
        }
    }
    // training data and parameters are those given
    let td = GpMetrics::training_data(&mx);
    ensure!(td.0 == c.x && td.1 == c.y, "data", "training data modified");
    // quality scores are those of the underlying mixture
    // (with an automatic factor the mixture keeps the one found, its wrapper looks for it again in each fold)
    if g.chance(25) && !c.cfg.auto_factor() {
        let kf = g.us(2, 5);
        let (a, b) = (no_panic(|| mx.q2_k(kf)), no_panic(|| under.q2_k(kf)));
        if let (Ok(a), Ok(b)) = (&a, &b) {
            ensure!(near(&[*a], &[*b], 1.), "q2", "q2 {a} and {b}");
        }
        ensure!(a.is_ok() == b.is_ok(), "q2", "q2 {a:?} and {b:?}");
        if a.is_ok() {
            let (a, b) = (no_panic(|| mx.pva_k(kf)), no_panic(|| under.pva_k(kf)));
            if let (Ok(a), Ok(b)) = (&a, &b) {
                ensure!(near(&[*a], &[*b], 1.), "pva", "pva {a} and {b}");
            }
            ensure!(a.is_ok() == b.is_ok(), "pva", "pva {a:?} and {b:?}");
            let (a, b) = (no_panic(|| mx.iae_alpha_k(kf)), no_panic(|| under.iae_alpha_k(kf)));
            if let (Ok(a), Ok(b)) = (&a, &b) {
                ensure!((a - b).abs() <= 0.05, "iae", "iae_alpha {a} and {b}");
            }
        }
    }
    // through the surrogate builder interface, its clusters, and its files
    match g.us(0, 2) {
        0 => {
            let clus = mx.to_clustering();
            let m2 = SurrogateBuilder::train_on_clusters(params, c.x.view(), c.y.view(), &clus);
            let u2 = c.cfg.params().check_unwrap().train_on_clusters(&c.e, &c.y, &Clustering::new(under.gmx().clone(), under.recombination()));
            match (m2, u2) {
                (Ok(m2), Ok(u2)) => {
                    g.label("on clusters");
                    same_answers(&B(m2.as_ref()), &u2, &q, &e, sm, grads)?
                }
                (Err(_), Err(_)) => {}
                (Ok(_), Err(e)) => return fail("clusters", format!("only the underlying mixture refuses given clusters: {e}")),
                (Err(e), Ok(_)) => return fail("clusters", format!("only the wrapper refuses given clusters: {e}")),
            }
        }
        1 => {
            let bin = g.chance(60);
            let f = Scratch::new("mix");
            if let Err(e) = GpSurrogate::save(&mx, &f.0, ff(bin)) {
                return fail("save", format!("{e}"));
            }
            match MixintGpMixture::load(&f.0, ff(bin)) {
                Ok(l) => {
                    g.label("reloaded");
                    if bin {
                        // (absolute exponential kernels have kinks at the coordinates of training points, where
                        // the side depends on the last bit)
                        same_answers(&A(&l), &under, &q, &e, sm, !c.cfg.has_kinks())?;
                    }
                    // numbers read back are those written, up to the decimal conversion of JSON
                    let (a, b) = (serde_json::to_value(&mx).unwrap(), serde_json::to_value(l.as_ref()).unwrap());
                    if let Err(m) = json_close(&a, &b, "") {
                        return fail("load-values", m);
                    }
                    let td = GpMetrics::training_data(l.as_ref());
                    ensure!(td.0.dim() == c.x.dim() && near(&flat(&td.0), &flat(&c.x), 0.) && near(&td.1.to_vec(), &c.y.to_vec(), 0.), "load-data", "training data modified by save and load");
                    // can be trained again from its parameters
                    if bin {
                        match GpMetrics::params(l.as_ref()).fit(&Dataset::new(c.x.clone(), c.y.clone())) {
                            Ok(m) => same_answers(&A(&m), &under, &q, &e, sm, grads)?,
                            Err(e) => return fail("load-params", format!("parameters read back cannot train: {e}")),
                        }
                    }
                }
                Err(e) if !bin && under.experts().iter().any(|x| !x.likelihood().is_finite()) => g.note("json infinity", e.to_string()),
                Err(e) => return fail("load", format!("binary={bin}: {e}")),
            }
            let (a, b) = (no_panic(|| MixintGpMixture::load("/nonexistent-dir/x", ff(bin)).is_err()), no_panic(|| GpSurrogate::save(&mx, "/nonexistent-dir/x", ff(bin)).is_err()));
            ensure!(a == Ok(true) && b == Ok(true), "bad-file", "missing file: load {a:?}, save {b:?}");
        }
        _ => {
            // setters of the builder interface reach the underlying mixture
            let rng = Xoshiro256Plus::seed_from_u64(42);
            let mut b = MixintGpMixtureParams::new_with_xtypes(&c.t);
            let pr = c.cfg.params().check().unwrap();
            b.set_regression_spec(pr.regression_spec());
            b.set_correlation_spec(pr.correlation_spec());
            b.set_kpls_dim(pr.kpls_dim());
            b.set_n_clusters(pr.n_clusters());
            b.set_recombination(pr.recombination());
            b.set_theta_tunings(pr.theta_tunings());
            b.set_optim_params(pr.n_start(), pr.max_eval());
            let up = GpMixtureParams::<f64>::new()
                .with_rng(rng.clone())
                .regression_spec(pr.regression_spec())
                .correlation_spec(pr.correlation_spec())
                .kpls_dim(pr.kpls_dim())
                .n_clusters(NbClusters::fixed(1))
                .recombination(pr.recombination())
                .theta_tunings(pr.theta_tunings())
                .n_start(pr.n_start())
                .max_eval(pr.max_eval());
            // one cluster and fixed hyperparameters: independent of the random generator
            b.set_n_clusters(NbClusters::fixed(1));
            let ux = SurrogateBuilder::train(&b, c.e.view(), c.y.view());
            let uu = up.fit(&Dataset::new(c.e.clone(), c.y.clone()));
            match (ux, uu) {
                (Ok(m), Ok(u)) => {
                    g.label("builder");
                    same_answers(&B(m.as_ref()), &u, &e, &e, sm, true)?
                }
                (Err(_), Err(_)) => {}
                (Ok(_), Err(e)) => return fail("builder", format!("only the underlying mixture refuses: {e}")),
                (Err(e), Ok(_)) => return fail("builder", format!("only the wrapper refuses: {e}")),
            }
        }
    }
    // points which stand for the same discrete point get the same answer
    if !c.folded {
        let a = GpSurrogate::predict_valvar(&mx, &q.view()).unwrap();
        let b = GpSurrogate::predict_valvar(&mx, &e.view()).unwrap();
        let bad = |a: &Array1<f64>, b: &Array1<f64>| a.iter().zip(b).any(|(x, y)| x.to_bits() != y.to_bits());
        ensure!(!bad(&a.0, &b.0) && !bad(&a.1, &b.1), "same-point", "{a:?} at {q} but {b:?} at {e}");
    }
    
    Ok(())
}

/// tuned hyperparameters: a context's surrogate is the one trained on encoded data
fn context_surrogate(g: &mut G) -> R {
    let c = gen_mx(g, false)?;
    if !c.folded {
        // contexts work in folded space
        return discard("unfolded");
    }
    if is_mixed(&c.t) {
        g.nontrivial();
    }
    let under = c.cfg.params().fit(&Dataset::new(c.e.clone(), c.y.clone()));
    let mx = MixintContext::new(&c.t).create_surrogate(&c.cfg.params(), &Dataset::new(c.x.clone(), c.y.clone()));
    match (under, mx) {
        (Ok(u), Ok(m)) => {
            let qs: Vec<Vec<f64>> = (0..4).map(|_| gen_folded(g, &c.t)).collect();
            let es: Vec<Vec<f64>> = qs.iter().map(|p| unfold(&c.t, p)).collect();
            same_answers(&A(&m), &u, &to_mat(&qs, c.t.len()), &to_mat(&es, udim(&c.t)), maxabs1(&c.y), true)?;
            let bad = Array2::zeros((1, c.t.len() + 1));
            let _ = no_panic(|| GpSurrogate::predict(&m, &bad.view()).is_err());
            Ok(())
        }
        (Err(e), Err(_)) => discard(&format!("fit: {}", e.to_string().chars().take(24).collect::<String>())),
        (Ok(_), Err(e)) => fail("fit", format!("only the wrapper refuses: {e}")),
        (Err(e), Ok(_)) => fail("fit", format!("only the underlying mixture refuses: {e}")),
    }
}

pub fn prop17() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "a case is non-trivial when one variable at least is not continuous",
        assumptions: &[
            "the underlying mixture and its training are checked by C11 to C15; here the wrapper is compared with it",
            "queries are valid discrete points (folded space) or points of the relaxed box (unfolded)",
        ],
        subs: vec![
            Sub { name: "designs", quick: 6000, thorough: 200_000, jobs: 0, f: designs },
            Sub { name: "surrogate", quick: 1600, thorough: 60_000, jobs: 0, f: surrogate },
            Sub { name: "context", quick: 400, thorough: 12_000, jobs: 0, f: context_surrogate },
        ],
    }
}
