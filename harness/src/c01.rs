//! C01 Latin hypercubes, C02 full factorial and random designs
use crate::ensure;
use crate::fw::*;
use egobox_doe::{FullFactorial, Lhs, LhsKind, Random, SamplingMethod};
use ndarray::{Array2, s};
use ndarray_rand::rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;

pub const KINDS: [LhsKind; 5] = [
    LhsKind::Classic,
    LhsKind::Centered,
    LhsKind::Maximin,
    LhsKind::CenteredMaximin,
    LhsKind::Optimized,
];

pub fn gen_box(g: &mut G, d: usize) -> Array2<f64> {
    let mut x = Array2::zeros((d, 2));
    for i in 0..d {
        let (lo, w) = match g.us(0, 3) {
            0 => (0., 1.),
            1 => (g.f(-10., 10.), g.f(0.1, 20.)),
            2 => (g.sym(1e-3, 1e3), g.logf(1e-2, 1e3)),
            _ => (g.int(-20, 20) as f64, g.int(1, 30) as f64),
        };
        x[[i, 0]] = lo;
        x[[i, 1]] = lo + w;
    }
    x
}

fn phip(x: &Array2<f64>) -> f64 {
    // same measure as the published ESE algorithm with p = 10 (log domain against overflow)
    let n = x.nrows();
    let mut ls = vec![];
    for i in 0..n {
        for j in i + 1..n {
            let d2: f64 = (&x.row(i) - &x.row(j)).mapv(|v| v * v).sum();
            ls.push(-5. * d2.max(1e-300).ln());
        }
    }
    if ls.is_empty() {
        return 0.;
    }
    let m = ls.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    (m + ls.iter().map(|l| (l - m).exp()).sum::<f64>().ln()) / 10.
}
fn mindist(x: &Array2<f64>) -> f64 {
    let n = x.nrows();
    let mut m = f64::INFINITY;
    for i in 0..n {
        for j in i + 1..n {
            let d2: f64 = (&x.row(i) - &x.row(j)).mapv(|v| v * v).sum();
            m = m.min(d2.sqrt());
        }
    }
    m
}

fn is_centered(k: LhsKind) -> bool {
    matches!(k, LhsKind::Centered | LhsKind::CenteredMaximin)
}

fn check_latin(x: &Array2<f64>, xl: &Array2<f64>, n: usize, centered: bool, eps: f64) -> R {
    ensure!(
        x.dim() == (n, xl.nrows()),
        "shape",
        "shape {:?} expected {:?}",
        x.dim(),
        (n, xl.nrows())
    );
    for j in 0..xl.nrows() {
        let (lo, hi) = (xl[[j, 0]], xl[[j, 1]]);
        let w = hi - lo;
        let tol = 8. * eps * (lo.abs().max(hi.abs()) / w + 1.);
        let mut us: Vec<f64> = x.column(j).iter().map(|v| (v - lo) / w).collect();
        us.sort_by(|a, b| a.total_cmp(b));
        for (i, u) in us.iter().enumerate() {
            let (a, b) = (i as f64 / n as f64, (i + 1) as f64 / n as f64);
            ensure!(
                *u >= a - tol && *u <= b + tol,
                "stratum",
                "dim {j}: sorted value #{i} at normalized {u} is outside its slice [{a},{b}] (n={n})"
            );
            if centered {
                let c = 0.5 * (a + b);
                ensure!(
                    (u - c).abs() <= tol,
                    "center",
                    "dim {j}: centered design value {u} is not the slice middle {c}"
                );
            }
        }
    }
    Ok(())
}

fn structure(g: &mut G) -> R {
    let d = g.us(1, 6);
    let kind = g.pick(&KINDS);
    let nmax = if matches!(kind, LhsKind::Optimized) { 40 } else { 60 };
    let n = g.us(1, nmax);
    let xl = gen_box(g, d);
    let seed = g.seed();
    g.note("kind", kind);
    g.note("n", n);
    g.note("xlimits", &xl);
    g.note("seed", seed);
    g.label(format!("{kind:?}"));
    if n == 1 {
        g.label("n=1");
    }
    let mk = || Lhs::new(&xl).kind(kind).with_rng(Xoshiro256Plus::seed_from_u64(seed));
    let l = mk();
    ensure!(l.sampling_space() == &xl, "space", "sampling space differs from xlimits");
    let x = l.sample(n);
    check_latin(&x, &xl, n, is_centered(kind), f64::EPSILON)?;
    // reproducible
    let y = mk().sample(n);
    ensure!(x == y, "seed", "same seed gives different designs: {x} vs {y}");
    // normalized sample is the affine image
    let u = mk().normalized_sample(n);
    for ((i, j), v) in u.indexed_iter() {
        ensure!((0.0..=1.0).contains(v), "unit", "normalized value {v} outside [0,1]");
        let e = xl[[j, 0]] + v * (xl[[j, 1]] - xl[[j, 0]]);
        let t = 8. * f64::EPSILON * (xl[[j, 0]].abs() + xl[[j, 1]].abs());
        ensure!((x[[i, j]] - e).abs() <= t, "affine", "sample {} is not the affine image {e} of {v}", x[[i, j]]);
    }
    // a second draw of the same generator is again a valid design
    let z = l.sample(n);
    check_latin(&z, &xl, n, is_centered(kind), f64::EPSILON)?;
    if n >= 4 && d >= 2 {
        ensure!(z != x, "stuck", "two successive draws of {n} points are identical");
        let other = Lhs::new(&xl).kind(kind).with_rng(Xoshiro256Plus::seed_from_u64(seed ^ 0x5555)).sample(n);
        if n >= 8 {
            ensure!(other != x, "seedless", "another seed gives the same design");
        }
        g.nontrivial();
    }
    Ok(())
}

fn structure32(g: &mut G) -> R {
    let d = g.us(1, 4);
    let kind = g.pick(&KINDS);
    let nmax = if matches!(kind, LhsKind::Optimized) { 10 } else { 40 };
    let n = g.us(1, nmax);
    let mut xl = Array2::<f32>::zeros((d, 2));
    for i in 0..d {
        xl[[i, 0]] = g.f(-10., 10.) as f32;
        xl[[i, 1]] = xl[[i, 0]] + g.f(0.5, 20.) as f32;
    }
    let seed = g.seed();
    g.note("kind", kind);
    g.note("n", n);
    g.note("xlimits", &xl);
    let x = Lhs::new(&xl).kind(kind).with_rng(Xoshiro256Plus::seed_from_u64(seed)).sample(n);
    check_latin(
        &x.mapv(|v| v as f64),
        &xl.mapv(|v| v as f64),
        n,
        is_centered(kind),
        f32::EPSILON as f64,
    )?;
    if n > 3 {
        g.nontrivial();
    }
    Ok(())
}

fn quality(g: &mut G) -> R {
    let d = g.us(1, 5);
    let n = g.us(2, 16);
    let seed = g.seed();
    let which = g.us(0, 2);
    let xl = Array2::from_shape_fn((d, 2), |(_, j)| j as f64);
    let mk = |k: LhsKind| {
        Lhs::new(&xl)
            .kind(k)
            .with_rng(Xoshiro256Plus::seed_from_u64(seed))
            .normalized_sample(n)
    };
    g.note("d,n,seed,which", (d, n, seed, which));
    match which {
        0 => {
            let (a, b) = (mk(LhsKind::Maximin), mk(LhsKind::Classic));
            ensure!(
                mindist(&a) >= mindist(&b) * (1. - 1e-9),
                "maximin",
                "maximin design has min distance {} below the plain design's {}",
                mindist(&a),
                mindist(&b)
            );
            if mindist(&a) > mindist(&b) {
                g.nontrivial();
            }
        }
        1 => {
            let (a, b) = (mk(LhsKind::CenteredMaximin), mk(LhsKind::Centered));
            ensure!(
                mindist(&a) >= mindist(&b) * (1. - 1e-9),
                "cmaximin",
                "centered maximin design has min distance {} below the plain design's {}",
                mindist(&a),
                mindist(&b)
            );
            if mindist(&a) > mindist(&b) {
                g.nontrivial();
            }
        }
        _ => {
            let (a, b) = (mk(LhsKind::Optimized), mk(LhsKind::Classic));
            let (pa, pb) = (phip(&a), phip(&b));
            g.note("log phip optimized, plain", (pa, pb));
            ensure!(
                pa <= pb + 1e-6 * (1. + pb.abs()),
                "ese",
                "optimized design has log phi_p {pa}, worse than the plain design's {pb}"
            );
            if pa < pb {
                g.nontrivial();
            }
        }
    }
    Ok(())
}

/// On average over a batch, the optimized kinds are clearly more space filling than plain ones.
fn improves(g: &mut G) -> R {
    let d = g.us(2, 4);
    let n = g.us(6, 14);
    let mut rng = g.sub_rng();
    let xl = Array2::from_shape_fn((d, 2), |(_, j)| j as f64);
    use ndarray_rand::rand::RngCore;
    let (mut e, mut m, mut e2) = (0., 0., 0.);
    let k = 12;
    for _ in 0..k {
        let seed = rng.next_u64();
        let mk = |k: LhsKind| {
            Lhs::new(&xl)
                .kind(k)
                .with_rng(Xoshiro256Plus::seed_from_u64(seed))
                .normalized_sample(n)
        };
        let c = mk(LhsKind::Classic);
        let o = mk(LhsKind::Optimized);
        e += phip(&o) - phip(&c);
        e2 += mindist(&o) / mindist(&c);
        m += mindist(&mk(LhsKind::Maximin)) / mindist(&c);
    }
    let (e, m, e2) = (e / k as f64, m / k as f64, e2 / k as f64);
    g.note("d,n", (d, n));
    g.note("mean log phip gain, maximin ratio, ese ratio", (e, m, e2));
    ensure!(e < -0.25, "ese_gain", "optimized designs improve log phi_p by only {e} on average (d={d}, n={n})");
    ensure!(m > 1.10, "maximin_gain", "maximin designs improve the minimal distance by only x{m} on average");
    ensure!(e2 > 1.3, "ese_gain", "optimized designs improve the minimal distance by only x{e2} on average");
    g.nontrivial();
    Ok(())
}

pub fn prop01() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: "random kind, dimension 1..6, size 1..60, box (unit, shifted, scaled) and seed; the design is checked stratum by stratum, against a re-draw with the same seed and against the plain design drawn from the same random state. Non-trivial: at least 4 points in 2+ dimensions (structure), a strict improvement over the plain design (quality).",
        assumptions: &["space-filling measures are those of the kind: minimal pairwise distance, phi_p with p=10"],
        subs: vec![
            Sub { name: "structure", quick: 1500, thorough: 20000, jobs: 0, f: structure },
            Sub { name: "structure_f32", quick: 300, thorough: 4000, jobs: 0, f: structure32 },
            Sub { name: "quality", quick: 700, thorough: 10000, jobs: 0, f: quality },
            Sub { name: "improves", quick: 10, thorough: 200, jobs: 0, f: improves },
        ],
    }
}

fn levels(n: usize, d: usize) -> Vec<usize> {
    // level counts as even as possible: raise the smallest count until the grid is large enough
    let mut l = vec![1usize; d];
    let mut i = 0;
    while l.iter().product::<usize>() < n {
        l[i % d] += 1;
        i += 1;
    }
    l
}

fn ffact(g: &mut G) -> R {
    let d = g.us(1, 6);
    let full = g.chance(40);
    let n = if full {
        let m = g.us(1, if d <= 2 { 12 } else if d <= 4 { 3 } else { 2 });
        let extra = g.us(0, d);
        (0..d).map(|i| if i < extra { m + 1 } else { m }).product()
    } else {
        g.us(1, 120)
    };
    let xl = gen_box(g, d);
    g.note("n", n);
    g.note("xlimits", &xl);
    let x = FullFactorial::new(&xl).sample(n);
    ensure!(x.dim() == (n, d), "shape", "shape {:?} expected {:?}", x.dim(), (n, d));
    let l = levels(n, d);
    // grid coordinates
    let mut seen = std::collections::HashSet::new();
    for r in x.rows() {
        let mut key = vec![];
        for j in 0..d {
            let (lo, hi) = (xl[[j, 0]], xl[[j, 1]]);
            let tol = 8. * f64::EPSILON * (lo.abs() + hi.abs());
            ensure!(r[j] >= lo - tol && r[j] <= hi + tol, "box", "value {} outside [{lo},{hi}]", r[j]);
            let t = if l[j] > 1 { (r[j] - lo) / (hi - lo) * (l[j] - 1) as f64 } else { (r[j] - lo) / (hi - lo) };
            let k = t.round();
            ensure!(
                (t - k).abs() < 1e-9 * (1. + (lo.abs() + hi.abs()) / (hi - lo)),
                "grid",
                "dim {j}: value {} is not one of the {} even levels of [{lo},{hi}] (n={n})",
                r[j],
                l[j]
            );
            ensure!(k >= 0. && (k as usize) < l[j].max(1), "grid", "dim {j} level {k} of {}", l[j]);
            key.push(k as i64);
        }
        ensure!(seen.insert(key.clone()), "dup", "grid node {key:?} appears twice (n={n}, levels {l:?})");
    }
    if l.iter().product::<usize>() == n {
        g.label("full product");
        ensure!(seen.len() == n, "full", "not all nodes present");
    }
    let u = FullFactorial::new(&xl).normalized_sample(n);
    for ((i, j), v) in u.indexed_iter() {
        let e = xl[[j, 0]] + v * (xl[[j, 1]] - xl[[j, 0]]);
        let t = 8. * f64::EPSILON * (xl[[j, 0]].abs() + xl[[j, 1]].abs());
        ensure!((x[[i, j]] - e).abs() <= t, "affine", "sample {} is not the affine image {e} of {v}", x[[i, j]]);
    }
    if n > 2 && d > 1 {
        g.nontrivial();
    }
    // balance over the evaluated prefix of a full product: each level of each dimension equally often
    if l.iter().product::<usize>() == n {
        for j in 0..d {
            for k in 0..l[j] {
                let c = seen.iter().filter(|s| s[j] == k as i64).count();
                ensure!(c == n / l[j], "balance", "dim {j} level {k} used {c} times of {n}");
            }
        }
    }
    Ok(())
}

fn random(g: &mut G) -> R {
    let d = g.us(1, 6);
    let n = g.us(1, 80);
    let xl = gen_box(g, d);
    let seed = g.seed();
    g.note("n", n);
    g.note("xlimits", &xl);
    let mk = || Random::new(&xl).with_rng(Xoshiro256Plus::seed_from_u64(seed));
    let r = mk();
    let x = r.sample(n);
    ensure!(x.dim() == (n, d), "shape", "shape {:?}", x.dim());
    let u = mk().normalized_sample(n);
    for ((i, j), v) in x.indexed_iter() {
        let (lo, hi) = (xl[[j, 0]], xl[[j, 1]]);
        let t = 8. * f64::EPSILON * (lo.abs() + hi.abs());
        ensure!(*v >= lo - t && *v <= hi + t, "box", "value {v} outside [{lo},{hi}]");
        let e = lo + u[[i, j]] * (hi - lo);
        ensure!((v - e).abs() <= t, "affine", "{v} is not the affine image of {}", u[[i, j]]);
    }
    let y = mk().sample(n);
    ensure!(x == y, "seed", "same seed gives different designs");
    let z = r.sample(n);
    ensure!(z != x, "stuck", "successive draws identical");
    // all coordinates are distinct random draws
    if n > 1 {
        g.nontrivial();
        for j in 0..d {
            for i in 1..n {
                ensure!(u[[i, j]] != u[[0, j]], "repeat", "repeated coordinate {} in column {j}", u[[i, j]]);
            }
        }
    }
    Ok(())
}

fn uniform(g: &mut G) -> R {
    let d = g.us(1, 4);
    let n = 4000;
    let xl = gen_box(g, d);
    let seed = g.seed();
    let x = Random::new(&xl).with_rng(Xoshiro256Plus::seed_from_u64(seed)).sample(n);
    let k = 20usize;
    let un = |i: usize, j: usize| (x[[i, j]] - xl[[j, 0]]) / (xl[[j, 1]] - xl[[j, 0]]);
    for j in 0..d {
        let mut c = vec![0f64; k];
        for i in 0..n {
            c[((un(i, j) * k as f64) as usize).min(k - 1)] += 1.;
        }
        let e = n as f64 / k as f64;
        let chi2: f64 = c.iter().map(|v| (v - e) * (v - e) / e).sum();
        // 19 dof: mean 19, sd 6.2; P(chi2 > 90) < 1e-10
        ensure!(chi2 < 90., "uniform", "dim {j}: chi2 {chi2} over {k} cells for uniformity");
    }
    // independence between columns and between successive points
    for a in 0..d {
        for b in 0..d {
            let lag = if a == b { 1 } else { 0 };
            let m = n - lag;
            let cov: f64 = (0..m).map(|i| (un(i, a) - 0.5) * (un(i + lag, b) - 0.5)).sum::<f64>() / m as f64;
            let z = cov * 12. * (m as f64).sqrt();
            ensure!(z.abs() < 7., "indep", "columns {a},{b} lag {lag}: correlation z-score {z}");
        }
    }
    let _ = x.slice(s![.., 0]);
    g.note("xlimits", &xl);
    g.nontrivial();
    Ok(())
}

pub fn prop02() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "random dimension 1..6, size 1..120 (exact level products over-sampled), box and seed; factorial points are mapped back to grid nodes and compared with a reference level allocation; random designs are re-drawn, mapped and tested for uniformity. Non-trivial: more than 2 points in 2+ dimensions, more than 1 random point.",
        assumptions: &["uniformity is a statistical check with a false-alarm probability below 1e-9 per case"],
        subs: vec![
            Sub { name: "full_factorial", quick: 20000, thorough: 300000, jobs: 0, f: ffact },
            Sub { name: "random", quick: 4000, thorough: 40000, jobs: 0, f: random },
            Sub { name: "uniform", quick: 60, thorough: 1000, jobs: 0, f: uniform },
        ],
    }
}
