//! The Python module against the Rust library
use crate::c11::*;
use crate::c16::*;
use crate::c20::*;
use crate::egorun::*;
use crate::ensure;
use crate::fw::*;
use egobox_doe::{LhsKind, SamplingMethod};
use egobox_ego::gpmix::mixint::MixintContext;
use egobox_ego::*;
use egobox_moe::*;
use linfa::traits::Fit;
use linfa::Dataset;
use ndarray::{Array1, Array2, Axis};
use ndarray_rand::rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use serde_json::{Map, Value, json};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::*;
use std::result::Result;

// ---------------------------------------------------------------- the interpreter
struct Py {
    p: Child,
    out: BufReader<ChildStdout>,
}
impl Drop for Py {
    fn drop(&mut self) {
        self.p.kill().ok();
        self.p.wait().ok();
    }
}
thread_local! { static PY: RefCell<Option<Py>> = const { RefCell::new(None) }; }

fn start() -> Py {
    let v = verif_dir();
    let mut p = Command::new("/opt/vp/pyenv/bin/python")
        .arg("-B")
        .arg(v.join("py/worker.py"))
        .env("PYTHONPATH", v.join("target/py/pkg"))
        .env("EGOBOX_LOG", "off")
        .env("RAYON_NUM_THREADS", "3")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("python");
    let out = BufReader::new(p.stdout.take().unwrap());
    Py { p, out }
}

/// Ok(answer) or Err(exception); a call which does not end makes the case one which does not end
fn call(q: &Value) -> Result<Value, String> {
    PY.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            *c = Some(start());
        }
        let py = c.as_mut().unwrap();
        let pid = py.p.id() as i32;
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        let late = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let l2 = late.clone();
        let w = std::thread::spawn(move || {
            if rx.recv_timeout(std::time::Duration::from_secs(80)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
                l2.store(true, std::sync::atomic::Ordering::SeqCst);
                unsafe { libc::kill(pid, libc::SIGKILL) };
            }
        });
        let s = serde_json::to_string(q).unwrap();
        let mut line = String::new();
        let ok = writeln!(py.p.stdin.as_mut().unwrap(), "{s}").is_ok() && py.out.read_line(&mut line).is_ok() && !line.is_empty();
        tx.send(()).ok();
        w.join().ok();
        if !ok {
            *c = None;
            while late.load(std::sync::atomic::Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_secs(3600));
            }
            return Err("the interpreter died".into());
        }
        let v: Value = serde_json::from_str(&line).unwrap_or_else(|e| panic!("answer {e}: {}", &line[..line.len().min(300)]));
        match v.get("ok") {
            Some(r) => Ok(r.clone()),
            None => Err(format!("{} {}", v["err"].as_str().unwrap_or(""), v["tb"].as_str().unwrap_or(""))),
        }
    })
}

fn enc(shape: Vec<usize>, v: impl Iterator<Item = f64>) -> Value {
    json!({"s": shape, "b": v.map(|x| x.to_bits()).collect::<Vec<_>>()})
}
fn enc2(a: &Array2<f64>) -> Value {
    enc(vec![a.nrows(), a.ncols()], a.iter().cloned())
}
fn enc1(a: &Array1<f64>) -> Value {
    enc(vec![a.len()], a.iter().cloned())
}
struct Arr {
    s: Vec<usize>,
    v: Vec<f64>,
}
impl Arr {
    fn rows(&self) -> Vec<Vec<f64>> {
        self.v.chunks(self.s[1].max(1)).map(|c| c.to_vec()).collect()
    }
}
fn dec(v: &Value) -> Arr {
    let s = v["s"].as_array().expect("array").iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let v = v["b"].as_array().expect("array").iter().map(|x| f64::from_bits(x.as_u64().unwrap())).collect();
    Arr { s, v }
}
/// the same bits and shape?
fn same(name: &str, py: &Value, rust: &Value) -> R {
    let (a, b) = (dec(py), dec(rust));
    ensure!(a.s == b.s, name, "{name}: shape {:?} from Python, {:?} from Rust", a.s, b.s);
    for (i, (x, y)) in a.v.iter().zip(&b.v).enumerate() {
        ensure!(x == y || (x.is_nan() && y.is_nan()), name, "{name}: element {i} (shape {:?}) is {x:?} from Python, {y:?} from Rust", a.s);
    }
    Ok(())
}
fn close(name: &str, py: &Value, rust: &Value, tol: f64) -> R {
    let (a, b) = (dec(py), dec(rust));
    ensure!(a.s == b.s, name, "{name}: shape {:?} from Python, {:?} from Rust", a.s, b.s);
    for (i, (x, y)) in a.v.iter().zip(&b.v).enumerate() {
        ensure!((x - y).abs() <= tol || (x.is_nan() && y.is_nan()), name, "{name}: element {i} (shape {:?}) is {x:?} from Python, {y:?} expected, tolerance {tol:e}", a.s);
    }
    Ok(())
}
fn untouched(r: &Value) -> R {
    let t = r["touched"].as_array().map(|a| a.len()).unwrap_or(0);
    ensure!(t == 0, "inputs", "arguments modified by the call: {}", r["touched"]);
    Ok(())
}

// ---------------------------------------------------------------- arguments
fn specs(g: &mut G, t: &[XType]) -> Value {
    if !is_mixed(t) && g.chance(60) {
        let v: Vec<Vec<f64>> = ref_limits(t).iter().map(|l| vec![l.0, l.1]).collect();
        return json!({"form": g.pick(&["lists", "array"]), "v": v});
    }
    let v: Vec<Value> = t
        .iter()
        .map(|t| match t {
            XType::Float(a, b) => json!({"k": "float", "l": [a, b], "pos": g.chance(50)}),
            XType::Int(a, b) => json!({"k": "int", "l": [*a as f64, *b as f64], "pos": g.chance(50)}),
            XType::Ord(l) => json!({"k": "ord", "l": l, "pos": g.chance(50)}),
            XType::Enum(n) => json!({"k": "enum", "n": n, "tags": g.chance(50)}),
        })
        .collect();
    json!({"form": "xspecs", "v": v})
}
/// keyword arguments, the default values of which may be left out
struct Kw {
    m: Map<String, Value>,
}
impl Kw {
    fn new() -> Kw {
        Kw { m: Map::new() }
    }
    fn put(&mut self, g: &mut G, k: &str, v: Value, default: bool) {
        if !default || g.chance(40) {
            self.m.insert(k.into(), v);
        }
    }
    fn get(self) -> Value {
        Value::Object(self.m)
    }
}
fn en(e: &str, n: &str) -> Value {
    json!({"enum": e, "name": n})
}
const REG: [&str; 3] = ["CONSTANT", "LINEAR", "QUADRATIC"];
const COR: [&str; 4] = ["SQUARED_EXPONENTIAL", "ABSOLUTE_EXPONENTIAL", "MATERN32", "MATERN52"];
fn flags(k: &str, names: &[&str], l: &[usize]) -> Value {
    json!({"flags": k, "names": if l.len() == names.len() { vec!["ALL"] } else { l.iter().map(|i| names[*i]).collect::<Vec<_>>() }})
}

// ---------------------------------------------------------------- designs
fn designs(g: &mut G) -> R {
    let t = gen_xtypes(g, 4, false);
    let n = g.us(1, 25);
    let kind = g.us(0, 6);
    let method = ["LHS", "FULL_FACTORIAL", "RANDOM", "LHS_CLASSIC", "LHS_CENTERED", "LHS_MAXIMIN", "LHS_CENTERED_MAXIMIN"][kind];
    let seed = if g.chance(90) { Some(g.seed()) } else { None };
    let f = if kind == 0 && g.chance(60) { "lhs" } else { "sampling" };
    let sp = specs(g, &t);
    let mut kw = Kw::new();
    match seed {
        Some(s) => kw.put(g, "seed", json!(s), false),
        None => kw.put(g, "seed", Value::Null, true),
    }
    g.note("call", (f, method, n, seed));
    let q = json!({"op": "sampling", "fn": f, "method": method, "specs": sp, "n": n, "kw": kw.get()});
    let r = call(&q);
    let m = MixintContext::new(&t);
    let want = no_panic(|| -> Array2<f64> {
        let k = |k| m.create_lhs_sampling::<f64>(k, seed).sample(n);
        match kind {
            0 => k(LhsKind::default()),
            1 => m.create_ffact_sampling::<f64>().sample(n),
            2 => m.create_rand_sampling::<f64>(seed).sample(n),
            3 => k(LhsKind::Classic),
            4 => k(LhsKind::Centered),
            5 => k(LhsKind::Maximin),
            _ => k(LhsKind::CenteredMaximin),
        }
    });
    let (r, want) = match (r, want) {
        (Ok(r), Ok(w)) => (r, w),
        (Err(_), Err(_)) => return discard("refused by both"),
        (Ok(_), Err(e)) => return fail("refused", format!("Rust panics ({e}), Python does not")),
        (Err(e), Ok(_)) => return fail("raised", e),
    };
    g.label(method);
    if n > 2 && t.len() > 1 {
        g.nontrivial();
    }
    let a = dec(&r["x"]);
    for p in a.rows() {
        if let Some(e) = invalid(&t, &p) {
            return fail("domain", format!("point {p:?}: {e}"));
        }
    }
    if seed.is_some() || kind == 1 {
        same("design", &r["x"], &enc2(&want))?;
    } else {
        ensure!(a.s == vec![want.nrows(), want.ncols()], "design", "shape {:?} for {:?}", a.s, want.dim());
    }
    Ok(())
}

// ---------------------------------------------------------------- surrogates
fn describe(gp: &GpMixture, xq: &Array2<f64>, dims: bool) -> Result<Map<String, Value>, String> {
    let mut m = Map::new();
    let e = |e: egobox_moe::MoeError| e.to_string();
    m.insert("predict".into(), enc1(&gp.predict(&xq.view()).map_err(e)?));
    m.insert("predict_var".into(), enc1(&gp.predict_var(&xq.view()).map_err(e)?));
    m.insert("predict_gradients".into(), enc2(&gp.predict_gradients(&xq.view()).map_err(e)?));
    m.insert("predict_var_gradients".into(), enc2(&gp.predict_var_gradients(&xq.view()).map_err(e)?));
    let ex = gp.experts();
    let h = ex[0].theta().len();
    let th = Array2::from_shape_fn((ex.len(), h), |(i, j)| ex[i].theta()[j]);
    m.insert("thetas".into(), enc2(&th));
    m.insert("variances".into(), enc1(&ex.iter().map(|e| e.variance()).collect()));
    m.insert("likelihoods".into(), enc1(&ex.iter().map(|e| e.likelihood()).collect()));
    m.insert("repr".into(), json!(serde_json::to_string(gp).unwrap()));
    m.insert("str".into(), json!(gp.to_string()));
    if dims {
        let d = gp.dims();
        m.insert("dims".into(), json!([d.0, d.1]));
        let (x, y) = GpQualityAssurance::training_data(gp);
        m.insert("train_x".into(), enc2(x));
        m.insert("train_y".into(), enc1(y));
    }
    Ok(m)
}
/// Python's description of a model against Rust's
fn compare(py: &Value, rust: &Map<String, Value>) -> R {
    for (k, v) in rust {
        match k.as_str() {
            "repr" | "str" => ensure!(&py[k] == v, k.as_str(), "{k} differs: {} / {}", cut(&py[k]), cut(v)),
            "dims" => ensure!(&py[k] == v, "dims", "dims {} / {v}", py[k]),
            // the module and this program are compiled apart, and the points may be laid out in another order
            "predict" | "predict_var" | "predict_gradients" | "predict_var_gradients" => {
                let top = |k: &str| dec(&rust[k]).v.iter().fold(0f64, |a, b| a.max(b.abs()));
                let tol = if k == "predict_var" { 1e-3 * top(k) + 1e-9 * top("predict").powi(2) } else { 1e-3 * top(k).max(top("predict")) };
                close(k, &py[k], v, tol)?
            }
            _ => same(k, &py[k], v)?,
        }
    }
    Ok(())
}
fn cut(v: &Value) -> String {
    v.to_string().chars().take(200).collect()
}

struct SurArgs {
    theta: Option<Vec<f64>>,
    bounds: Option<Vec<(f64, f64)>>,
    n_start: i64,
    seed: u64,
    kpls: Option<usize>,
    corr: Vec<usize>,
}
impl SurArgs {
    fn tuning(&self) -> ThetaTuning<f64> {
        let d = ThetaTuning::<f64>::default();
        let init = self.theta.clone().map(Array1::from).unwrap_or(d.init().to_owned());
        if self.n_start < 0 {
            return ThetaTuning::Fixed(init);
        }
        let bounds = match &self.bounds {
            Some(b) => Array1::from(b.clone()),
            None => Array1::from_elem(1, ThetaTuning::<f64>::DEFAULT_BOUNDS),
        };
        ThetaTuning::Full { init, bounds }
    }
    fn corr(&self) -> CorrelationSpec {
        self.corr.iter().fold(CorrelationSpec::empty(), |a, i| a | CORR[*i])
    }
}
const CORR: [CorrelationSpec; 4] = [CorrelationSpec::SQUAREDEXPONENTIAL, CorrelationSpec::ABSOLUTEEXPONENTIAL, CorrelationSpec::MATERN32, CorrelationSpec::MATERN52];
const REGR: [RegressionSpec; 3] = [RegressionSpec::CONSTANT, RegressionSpec::LINEAR, RegressionSpec::QUADRATIC];

fn sur_args(g: &mut G, kw: &mut Kw, d: usize, sparse: bool) -> SurArgs {
    let kpls = if d > 1 && g.chance(12) { Some(g.us(1, d - 1)) } else { None };
    let h = kpls.unwrap_or(d);
    let corr = match g.us(0, 9) {
        0 => vec![0, 1, 2, 3],
        1 => vec![0, 2],
        2 => vec![1, 3],
        3..=5 => vec![g.us(1, 3)],
        _ => vec![0],
    };
    let theta = if g.chance(40) { Some((0..if g.chance(40) { 1 } else { h }).map(|_| g.logf(0.2, 3.)).collect::<Vec<_>>()) } else { None };
    let bounds = if g.chance(35) {
        Some((0..if g.chance(40) { 1 } else { h }).map(|_| (g.logf(0.02, 0.15), g.logf(3.5, 20.))).collect::<Vec<_>>())
    } else {
        None
    };
    let n_start = match g.us(0, 5) {
        0 if !sparse => -(g.us(1, 3) as i64),
        1 => 10,
        k => k as i64,
    };
    let seed = g.seed();
    kw.put(g, "corr_spec", flags("CorrelationSpec", &COR, &corr), corr == [0]);
    kw.put(g, "kpls_dim", json!(kpls), kpls.is_none());
    kw.put(g, "theta_init", json!(theta), theta.is_none());
    kw.put(g, "theta_bounds", json!(bounds.as_ref().map(|b| b.iter().map(|b| vec![b.0, b.1]).collect::<Vec<_>>())), bounds.is_none());
    kw.put(g, "n_start", json!(n_start), n_start == 10);
    kw.put(g, "seed", json!(seed), false);
    SurArgs { theta, bounds, n_start, seed, kpls, corr }
}

fn surrogate_call(g: &mut G, cls: &str, kw: Kw, x: &Array2<f64>, y: &Array1<f64>, q: &Array2<f64>, exact: bool, sparse: bool) -> (Value, Scratch) {
    let d = x.ncols();
    let xlay = if exact {
        if d == 1 && !sparse && g.chance(30) { "1d" } else { "c" }
    } else {
        g.pick(&["f", "strided", "rev"])
    };
    let ylay = if sparse { "c" } else { g.pick(&["c", "1d"]) };
    let ylay = if !exact && g.chance(50) { g.pick(&["strided", "rev"]) } else { ylay };
    let qlay = if exact { "c" } else { g.pick(&["c", "f", "strided", "rev"]) };
    let file = g.chance(30);
    let ext = g.pick(&["json", "bin", "model"]);
    let sc = Scratch::new(ext);
    let kw = kw.get();
    g.note("call", format!("{cls} {kw} x {xlay} y {ylay} points {qlay}"));
    g.label(cls);
    g.label(format!("layout {xlay}"));
    let traj = if g.chance(20) { g.us(1, 4) } else { 0 };
    let r = json!({
        "op": "surrogate", "cls": cls, "kw": kw, "xt": enc2(x), "yt": enc(vec![y.len(), 1], y.iter().cloned()), "xq": enc2(q),
        "xlay": xlay, "ylay": ylay, "qlay": qlay, "scribble": g.chance(40) && exact, "refit": g.chance(20) && exact, "traj": traj, "xs": enc2(q),
        "file": if file { json!(sc.0) } else { Value::Null }, "bad": format!("{}/none/x.{ext}", sc.dir()),
    });
    if file {
        g.label(format!("saved as {ext}"));
    }
    (r, sc)
}

fn surrogate_judge(g: &mut G, q: &Value, r: &Value, rust: &Map<String, Value>, exact: bool, y: &Array1<f64>, np: usize) -> R {
    let scale = y.iter().fold(0f64, |a, b| a.max(b.abs())) + y.std(0.);
    untouched(r)?;
    if exact {
        compare(r, rust)?;
        for k in ["again", "refit"] {
            if !r[k].is_null() {
                close(k, &r[k], &rust["predict"], 1e-3 * scale)?;
            }
        }
    } else {
        // other memory layouts of the same values: up to rounding, amplified by nearly singular correlations
        close("predict", &r["predict"], &rust["predict"], 2e-2 * scale)?;
        close("predict_var", &r["predict_var"], &rust["predict_var"], 2e-2 * scale * scale)?;
        for k in ["thetas", "train_x", "train_y"] {
            if let Some(v) = rust.get(k) {
                same(k, &r[k], v)?;
            }
        }
        for k in ["predict_gradients", "predict_var_gradients"] {
            ensure!(dec(&r[k]).s == dec(&rust[k]).s, k, "{k}: shape {:?} for {:?}", dec(&r[k]).s, dec(&rust[k]).s);
        }
    }
    if !r["unsampled"].is_null() {
        // a mixture of several experts cannot be sampled
        ensure!(dec(&rust["thetas"]).s[0] > 1, "sample", "not sampled: {}", r["unsampled"]);
        g.label("sampling refused");
    }
    if !r["sample"].is_null() {
        let s = dec(&r["sample"]);
        ensure!(s.s == vec![np, q["traj"].as_u64().unwrap() as usize], "sample", "trajectories of shape {:?}", s.s);
        ensure!(s.v.iter().all(|v| v.is_finite()), "sample", "values {:?}", s.v);
    }
    if !q["file"].is_null() {
        ensure!(r["saved"] == json!(true), "save", "save returned {}", r["saved"]);
        ensure!(r["save_bad"] == json!(false), "save", "save in a missing directory returned {}", r["save_bad"]);
        let f = q["file"].as_str().unwrap();
        let bytes = std::fs::read(f).unwrap_or_default();
        let is_json = serde_json::from_slice::<Value>(&bytes).is_ok();
        ensure!(is_json == f.ends_with(".json"), "save-format", "{f}: JSON {is_json}");
        let l = &r["loaded"];
        for (k, v) in r.as_object().unwrap() {
            match k.as_str() {
                _ if !rust.contains_key(k) => {}
                "str" | "repr" if is_json => {}
                "str" | "dims" | "repr" => ensure!(&l[k] == v, "load", "{k} after load: {} / {}", cut(&l[k]), cut(v)),
                _ if !is_json && !k.starts_with("predict") => same(k, &l[k], v)?,
                "predict" => close(k, &l[k], v, 2e-2 * scale)?,
                "predict_var" => close(k, &l[k], v, 2e-2 * scale * scale)?,
                "thetas" | "train_x" | "train_y" => {
                    let m = dec(v).v.iter().fold(0f64, |a, b| a.max(b.abs()));
                    close(k, &l[k], v, 1e-12 * m)?
                }
                _ => ensure!(dec(&l[k]).s == dec(v).s, "load", "{k} after load: shape {:?}", dec(&l[k]).s),
            }
        }
    }
    g.nontrivial();
    Ok(())
}

fn settle_fit(r: Result<Value, String>, rust: Result<Result<Map<String, Value>, String>, String>) -> Result<(Value, Map<String, Value>), Stop> {
    match (r, rust) {
        (Ok(r), Ok(Ok(m))) => Ok((r, m)),
        (Err(_), Err(_)) | (Err(_), Ok(Err(_))) => discard("refused by both"),
        (Ok(_), Ok(Err(e))) | (Ok(_), Err(e)) => fail("refused", format!("Rust refuses ({e}), Python does not")),
        (Err(e), Ok(Ok(_))) => fail("raised", e),
    }
}

fn gpmix(g: &mut G) -> R {
    let (x, y) = gen_mixdata(g, 3, 24);
    let d = x.ncols();
    let mut kw = Kw::new();
    let mut a = sur_args(g, &mut kw, d, false);
    let layouts = g.chance(20);
    if layouts {
        a.n_start = -1;
        kw.m.insert("n_start".into(), json!(-1));
    }
    let exact = !layouts;
    let regr = if layouts {
        vec![0]
    } else {
        match g.us(0, 9) {
            0 => vec![0, 1, 2],
            1 => vec![0, 1],
            2 | 3 => vec![1],
            4 if x.nrows() > 14 => vec![2],
            _ => vec![0],
        }
    };
    if layouts {
        a.corr.truncate(1);
        kw.m.insert("corr_spec".into(), flags("CorrelationSpec", &COR, &a.corr));
        if a.theta.is_none() {
            a.theta = Some(vec![1.]);
            kw.m.insert("theta_init".into(), json!([1.]));
        }
    }
    let nc: i64 = if layouts { 1 } else { g.pick(&[1, 1, 1, 1, 2, 2, -2, -3, 0]) };
    let smooth = g.chance(40);
    let max_eval = if g.chance(40) { 50 } else { g.us(3, 90) };
    let cls = g.pick(&["GpMix", "Gpx.builder"]);
    kw.put(g, "regr_spec", flags("RegressionSpec", &REG, &regr), regr == [0]);
    kw.put(g, "n_clusters", json!(nc), nc == 1);
    kw.put(g, "recombination", en("Recombination", if smooth { "SMOOTH" } else { "HARD" }), !smooth);
    kw.put(g, "max_eval", json!(max_eval), max_eval == 50);
    let np = g.us(1, 6);
    let q = points(g, &x, np);
    let (req, _sc) = surrogate_call(g, cls, kw, &x, &y, &q, exact, false);
    let r = call(&req);
    let rust = no_panic(|| {
        let tun = a.tuning();
        let (n_clusters, k) = match nc {
            0 => (NbClusters::auto(), 1),
            n if n > 0 => (NbClusters::fixed(n as usize), n as usize),
            n => (NbClusters::automax((-n) as usize), 1),
        };
        let m = GpMixture::params()
            .n_clusters(n_clusters)
            .recombination(if smooth { egobox_moe::Recombination::Smooth(None) } else { egobox_moe::Recombination::Hard })
            .regression_spec(regr.iter().fold(RegressionSpec::empty(), |a, i| a | REGR[*i]))
            .correlation_spec(a.corr())
            .kpls_dim(a.kpls)
            .theta_tunings(&vec![tun; k])
            .n_start(a.n_start.max(0) as usize)
            .max_eval(max_eval)
            .with_rng(Xoshiro256Plus::seed_from_u64(a.seed))
            .fit(&Dataset::new(x.clone(), y.clone()))
            .map_err(|e| e.to_string())?;
        describe(&m, &q, true)
    });
    g.label(format!("clusters {nc}"));
    let (r, rust) = settle_fit(r, rust)?;
    surrogate_judge(g, &req, &r, &rust, exact, &y, np)
}

fn sparse(g: &mut G) -> R {
    let (x, y) = gen_mixdata(g, 3, 40);
    let d = x.ncols();
    let mut kw = Kw::new();
    let mut a = sur_args(g, &mut kw, d, true);
    a.corr.truncate(1);
    kw.m.insert("corr_spec".into(), flags("CorrelationSpec", &COR, &a.corr));
    let vfe = g.chance(50);
    kw.put(g, "method", en("SparseMethod", if vfe { "VFE" } else { "FITC" }), !vfe);
    let nz = g.us(2, x.nrows().min(9));
    let z = if g.chance(50) { Some(points(g, &x, nz)) } else { None };
    match &z {
        Some(z) => {
            kw.put(g, "z", json!({"arr": enc2(z), "layout": "c"}), false);
            if g.chance(20) {
                kw.put(g, "nz", json!(nz + 1), false); // z has priority
            }
        }
        None => kw.put(g, "nz", json!(nz), false),
    }
    let cls = g.pick(&["SparseGpMix", "SparseGpx.builder"]);
    let np = g.us(1, 6);
    let q = points(g, &x, np);
    let (req, _sc) = surrogate_call(g, cls, kw, &x, &y, &q, true, true);
    let r = call(&req);
    let rust = no_panic(|| {
        let m = GpMixture::params()
            .gp_type(GpType::SparseGp {
                sparse_method: if vfe { SparseMethod::Vfe } else { SparseMethod::Fitc },
                inducings: match &z {
                    Some(z) => Inducings::Located(z.clone()),
                    None => Inducings::Randomized(nz),
                },
            })
            .correlation_spec(a.corr())
            .theta_tunings(&[a.tuning()])
            .kpls_dim(a.kpls)
            .n_start(a.n_start as usize)
            .with_rng(Xoshiro256Plus::seed_from_u64(a.seed))
            .fit(&Dataset::new(x.clone(), y.clone()))
            .map_err(|e| e.to_string())?;
        describe(&m, &q, false)
    });
    let (r, rust) = settle_fit(r, rust)?;
    surrogate_judge(g, &req, &r, &rust, true, &y, np)
}

/// points around the data
fn points(g: &mut G, x: &Array2<f64>, n: usize) -> Array2<f64> {
    let (lo, hi) = (x.fold_axis(Axis(0), f64::INFINITY, |a, b| a.min(*b)), x.fold_axis(Axis(0), f64::NEG_INFINITY, |a, b| a.max(*b)));
    Array2::from_shape_fn((n, x.ncols()), |(_, j)| {
        let u = g.f(-0.05, 1.05);
        lo[j] + u * (hi[j] - lo[j])
    })
}

// ---------------------------------------------------------------- optimizer
fn tbounds(s: &Scn) -> Value {
    json!(s.tbounds.as_ref().map(|b| b.iter().map(|b| vec![b.0, b.1]).collect::<Vec<_>>()))
}
fn egor_kw(g: &mut G, s: &Scn, ctl: &Ctl) -> Value {
    let mut gp = Kw::new();
    gp.put(g, "regr_spec", flags("RegressionSpec", &REG, &[s.regr]), s.regr == 0);
    gp.put(g, "corr_spec", flags("CorrelationSpec", &COR, &[s.corr]), s.corr == 0);
    gp.put(g, "kpls_dim", json!(s.kpls), s.kpls.is_none());
    gp.put(g, "n_clusters", json!(if s.clusters == 0 { -3 } else { s.clusters as i64 }), s.clusters == 1);
    gp.put(g, "recombination", en("Recombination", if s.smooth { "SMOOTH" } else { "HARD" }), !s.smooth);
    gp.put(g, "theta_init", json!(s.theta), s.theta.is_none());
    gp.put(g, "theta_bounds", tbounds(s), s.tbounds.is_none());
    gp.put(g, "n_start", json!(s.gp_start), s.gp_start == 10);
    gp.put(g, "max_eval", json!(s.gp_eval.unwrap_or(50)), s.gp_eval.is_none());
    let none = gp.m.is_empty();
    let gp = json!({"gp_config": gp.get(), "set": g.chance(30)});
    let mut k = Kw::new();
    k.put(g, "gp_config", gp, none);
    k.put(g, "n_cstr", json!(s.n_cstr), s.n_cstr == 0);
    k.put(g, "cstr_tol", json!(s.tols), s.tols.is_none());
    k.put(g, "n_start", json!(s.n_start), s.n_start == 20);
    let n_doe = if let Doe::N(n) = s.doe { n } else { 0 };
    k.put(g, "n_doe", json!(n_doe), n_doe == 0);
    if !ctl.no_doe {
        match s.doe_arr() {
            Some(d) => {
                let l = g.pick(&["c", "f", "strided"]);
                k.put(g, "doe", json!({"arr": enc2(&d), "layout": l}), false)
            }
            None => k.put(g, "doe", Value::Null, true),
        }
    }
    k.put(g, "infill_strategy", en("InfillStrategy", ["EI", "LOG_EI", "WB2", "WB2S"][s.strat]), s.strat == 1);
    k.put(g, "cstr_infill", json!(s.cstr_infill), !s.cstr_infill);
    k.put(g, "cstr_strategy", en("ConstraintStrategy", if s.utb { "UTB" } else { "MC" }), !s.utb);
    k.put(g, "q_points", json!(s.q), s.q == 1);
    k.put(g, "q_infill_strategy", en("QInfillStrategy", ["KB", "KBLB", "KBUB", "CLMIN"][s.qei]), s.qei == 0);
    k.put(g, "infill_optimizer", en("InfillOptimizer", if s.slsqp { "SLSQP" } else { "COBYLA" }), !s.slsqp);
    k.put(g, "trego", json!(s.trego), !s.trego);
    k.put(g, "coego_n_coop", json!(s.coego), s.coego == 0);
    k.put(g, "q_optmod", json!(s.optmod), s.optmod == 1);
    k.put(g, "target", json!(s.target.unwrap_or(f64::MIN)), s.target.is_none());
    k.put(g, "outdir", json!(ctl.outdir), ctl.outdir.is_none());
    k.put(g, "warm_start", json!(ctl.warm), !ctl.warm);
    k.put(g, "hot_start", json!(ctl.hot), ctl.hot.is_none());
    k.put(g, "seed", json!(s.seed), false);
    k.get()
}

fn py_scn(g: &mut G, o: &Opts) -> Scn {
    let mut s = gen_scn(g, o);
    s.cont = false;
    if s.clusters != 1 {
        s.smooth = false; // how the sharpness is chosen is not documented for the optimizer
    }
    let h = s.kpls.unwrap_or(udim(&s.t));
    if g.chance(25) {
        s.theta = Some((0..if g.chance(50) { 1 } else { h }).map(|_| g.logf(0.1, 3.)).collect());
    }
    if g.chance(25) {
        s.tbounds = Some((0..if g.chance(50) { 1 } else { h }).map(|_| (g.logf(0.01, 0.08), g.logf(3.5, 20.))).collect());
    }
    if g.chance(40) {
        s.gp_eval = Some(g.us(5, 60));
    }
    if g.chance(10) {
        s.gp_start = 10;
    }
    if g.chance(10) {
        s.n_start = 20;
    }
    g.note("theta", (&s.theta, &s.tbounds, s.gp_eval));
    s
}

/// Steps of an optimizer in Python as those of the library.
fn as_rust(s: &Scn, r: &Value, outs: &[(OptimResult<f64>, Log)], again: bool, dp: &str, dr: Option<String>, lossy: bool) -> R {
    for (i, (o, log)) in outs.iter().enumerate() {
        let p = &r["steps"][i];
        let calls: Vec<(Vec<Vec<f64>>, Vec<Vec<f64>>)> = p["calls"].as_array().unwrap().iter().map(|c| (dec(&c[0]).rows(), dec(&c[1]).rows())).collect();
        let n: usize = calls.iter().map(|c| c.0.len()).sum();
        let xs: Vec<Vec<f64>> = calls.iter().flat_map(|c| c.0.clone()).take(log.rows()).collect();
        for (j, (a, b)) in xs.iter().zip(log.xs()).enumerate() {
            if let (false, Some(e)) = (lossy && i == 1, invalid(&s.t, a)) {
                return fail("domain", format!("step {i}: objective called at {a:?}: {e}"));
            }
            ensure!(*a == b, "points", "step {i}: point {j} is {a:?} from Python, {b:?} from Rust");
        }
        ensure!(n == log.rows() * if again { 2 } else { 1 }, "calls", "step {i}: {n} evaluations from Python (repeated: {again}), {} from Rust", log.rows());
        for (k, v) in [("x_doe", enc2(&o.x_doe)), ("y_doe", enc2(&o.y_doe)), ("x_opt", enc1(&o.x_opt)), ("y_opt", enc1(&o.y_opt))] {
            same(k, &p[k], &v)?;
            if again {
                same(k, &p["again"][k], &v)?;
            }
        }
    }
    if let Some(dr) = dr {
        let files = |d: &str| -> Vec<(String, Option<Array2<f64>>)> {
            let mut v: Vec<_> = std::fs::read_dir(d)
                .map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect::<Vec<_>>())
                .unwrap_or_default()
                .into_iter()
                .filter(|n| n.ends_with(".npy"))
                .map(|n| (n.clone(), ndarray_npy::read_npy(format!("{d}/{n}")).ok()))
                .collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            v
        };
        let (a, b) = (files(dp), files(&dr));
        ensure!(a.iter().map(|f| &f.0).eq(b.iter().map(|f| &f.0)), "files", "files {:?} / {:?}", a.iter().map(|f| &f.0).collect::<Vec<_>>(), b.iter().map(|f| &f.0).collect::<Vec<_>>());
        for (a, b) in a.iter().zip(&b) {
            ensure!(a.1.is_some() && a.1 == b.1, "files", "{} differs: {:?} / {:?}", a.0, a.1, b.1);
        }
    }
    Ok(())
}
/// JSON text with the numbers serde_json gets from it without its feature float_roundtrip
fn misread(t: &str) -> String {
    let b = t.as_bytes();
    let (mut out, mut i, mut quoted) = (String::with_capacity(t.len()), 0, false);
    while i < b.len() {
        let c = b[i];
        if c == b'"' {
            quoted = !quoted;
        } else if c == b'\\' {
            out.push('\\');
            i += 1;
        } else if !quoted && (c == b'-' || c.is_ascii_digit()) {
            let k = (i..b.len()).find(|k| !matches!(b[*k], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E')).unwrap_or(b.len());
            let w = &t[i..k];
            out.push_str(&if w.contains(['.', 'e', 'E']) { format!("{:?}", lossy_f64(w)) } else { w.to_string() });
            i = k;
            continue;
        }
        let n = t[i..].chars().next().unwrap();
        out.push(n);
        i += n.len_utf8();
    }
    out
}
/// serde_json 1.0.145, f64_from_parts
fn lossy_f64(w: &str) -> f64 {
    let m = w.trim_start_matches('-');
    let (m, e) = m.split_once(['e', 'E']).unwrap_or((m, "0"));
    let (int, frac) = m.split_once('.').unwrap_or((m, ""));
    let mut e: i32 = e.parse::<i32>().unwrap() - frac.len() as i32;
    let Ok(sig) = format!("{int}{frac}").parse::<u64>() else { return w.parse().unwrap() };
    let mut f = sig as f64;
    while e < -308 && f != 0. {
        f /= 1e308;
        e += 308;
    }
    let p: f64 = format!("1e{}", e.abs()).parse().unwrap();
    f = if e >= 0 { f * p } else { f / p };
    if w.starts_with('-') { -f } else { f }
}

fn minimize(g: &mut G) -> R {
    let o = Opts { dmax: 3, mixed: 40, iters: (0, 3), cstr: 35, fcstr: 35, qmax: 3, trego: 20, coego: 20, target: 25, user_doe: 35, clusters: 12 };
    let s = py_scn(g, &o);
    let (dp, dr, dl) = (Scratch::new("py"), Scratch::new("rs"), Scratch::new("ls"));
    let mut ctls: Vec<Ctl> = vec![Ctl::default()];
    let mode = g.us(0, 9);
    let ranges = s.max_iters;
    match mode {
        0 => {
            // saved, then warm started
            ctls[0].outdir = Some(String::new());
            ctls.push(Ctl { outdir: Some(String::new()), warm: true, no_doe: g.chance(50), max_iters: Some(g.us(0, 2)), ..Ctl::default() });
        }
        1 => {
            // with checkpoints, then continued
            ctls[0] = Ctl { outdir: Some(String::new()), hot: Some(0), ..Ctl::default() };
            ctls.push(Ctl { outdir: Some(String::new()), hot: Some(g.us(0, 2) as u64), ..Ctl::default() });
        }
        _ => {}
    }
    let sp = specs(g, &s.t);
    let again = mode > 1 && g.chance(25);
    let mut steps = vec![];
    for c in &ctls {
        let mut c = c.clone();
        c.outdir = c.outdir.map(|_| dp.dir());
        let mut kw = egor_kw(g, &s, &c);
        if mode == 0 && c.warm {
            kw["warm_start"] = json!(true);
        }
        let mut run = Kw::new();
        run.put(g, "max_iters", json!(c.max_iters.unwrap_or(ranges)), false);
        steps.push(json!({"kw": kw, "run": run.get(), "again": again}));
    }
    let scribble = g.chance(40);
    let ylay = g.pick(&["c", "c", "f", "strided"]);
    g.note("steps", &steps);
    let q = json!({"op": "minimize", "specs": sp, "steps": steps, "fs": s.fs, "cs": s.cs, "scribble": scribble, "ylay": ylay});
    let r = call(&q);
    // the same with the library
    let mut outs = vec![];
    let mut lossy = None;
    for (i, c) in ctls.iter().enumerate() {
        let mut c = c.clone();
        if (mode, i) == (1, 1) {
            // and with the numbers of the checkpoint as read by serde_json without float_roundtrip
            let t = std::fs::read_to_string(format!("{}/{CHECKPOINT_FILE}", dr.dir())).unwrap_or_default();
            let m = misread(&t);
            if m != t {
                for f in std::fs::read_dir(dr.dir()).unwrap().flatten() {
                    std::fs::copy(f.path(), format!("{}/{}", dl.dir(), f.file_name().to_string_lossy())).unwrap();
                }
                std::fs::write(format!("{}/{CHECKPOINT_FILE}", dl.dir()), m).unwrap();
                c.outdir = Some(dl.dir());
                lossy = Some(s.run(&c));
            }
        }
        c.outdir = c.outdir.map(|_| dr.dir());
        let (o, log) = s.run(&c);
        g.evals += log.rows() as u64;
        match o {
            Ok(o) => outs.push((o, log)),
            Err(e) => {
                return match r {
                    Err(_) => discard("refused by both"),
                    Ok(_) => fail("refused", format!("Rust refuses ({e}), Python does not")),
                };
            }
        }
    }
    let r = match r {
        Ok(r) => r,
        Err(e) => return fail("raised", e),
    };
    if mode < 2 {
        g.label(["warm start", "hot start"][mode]);
    }
    g.label(if is_mixed(&s.t) { "mixed" } else { "continuous" });
    if s.n_fcstr > 0 {
        g.label("function constraints");
    }
    if s.n_cstr > 0 {
        g.label("surrogate constraints");
    }
    untouched(&r)?;
    for t in r["types"].as_array().unwrap() {
        ensure!(t[0] == "ndarray" && t[1] == "float64" && t[2] == 2, "objective-argument", "the objective is given {t}");
    }
    let exact = as_rust(&s, &r, &outs, again, &dp.dir(), (mode < 2).then(|| dr.dir()), false);
    if let (Err(e), Some((o, log))) = (&exact, lossy) {
        if let Ok(o) = o {
            outs[1] = (o, log);
            if as_rust(&s, &r, &outs, again, &dp.dir(), Some(dl.dir()), true).is_ok() {
                return fail("checkpoint-rounding", format!("{e:?} (as expected with the rounded checkpoint)"));
            }
        }
    }
    exact?;
    if outs[0].1.rows() > 0 && s.max_iters > 0 {
        g.nontrivial();
    }
    Ok(())
}

fn suggest(g: &mut G) -> R {
    let o = Opts { dmax: 3, mixed: 40, iters: (1, 1), cstr: 35, fcstr: 0, qmax: 3, trego: 10, coego: 20, target: 0, user_doe: 0, clusters: 10 };
    let s = py_scn(g, &o);
    let n = g.us(5, 12).max(udim(&s.t) + 2) + if s.clusters != 1 { 8 } else { 0 };
    let mut rows: Vec<Vec<f64>> = vec![];
    for _ in 0..3 * n {
        let p = gen_folded(g, &s.t);
        if rows.len() < n && !rows.contains(&p) {
            rows.push(p);
        }
    }
    let x = to_mat(&rows, s.t.len());
    let y = s.objs(&x.view());
    let sp = specs(g, &s.t);
    let kw = egor_kw(g, &s, &Ctl::default());
    g.note("kw", &kw);
    let again = g.chance(30);
    let lay = if g.chance(20) { g.pick(&["f", "strided", "rev"]) } else { "c" };
    let q = json!({"op": "suggest", "specs": sp, "kw": kw, "x": enc2(&x), "y": enc2(&y), "lay": lay, "again": again});
    let r = call(&q);
    let w = s.suggest(&x, &y);
    let (r, w) = match (r, w) {
        (Ok(r), Ok(w)) => (r, w),
        (Err(_), Err(_)) => return discard("refused by both"),
        (Ok(_), Err(e)) => return fail("refused", format!("Rust refuses ({e}), Python does not")),
        (Err(e), Ok(_)) => return fail("raised", e),
    };
    g.nontrivial();
    untouched(&r)?;
    g.label(format!("layout {lay}"));
    let a = dec(&r["x"]);
    ensure!(a.s == vec![w.nrows(), s.t.len()], "shape", "suggestion of shape {:?} for {:?}", a.s, w.dim());
    for p in a.rows() {
        if let Some(e) = invalid(&s.t, &p) {
            return fail("domain", format!("suggested {p:?}: {e}"));
        }
    }
    if lay == "c" {
        same("suggestion", &r["x"], &enc2(&w))?;
    }
    if again {
        same("again", &r["again"], &r["x"])?;
    }
    Ok(())
}

fn best(g: &mut G) -> R {
    let t = gen_xtypes(g, 3, false);
    let n = g.us(1, 12);
    let nc = g.us(0, 3);
    let x = to_mat(&gen_points(g, &t, n), t.len());
    // small spaces have fewer points
    let n = x.nrows();
    let coarse = g.chance(50);
    let y = Array2::from_shape_fn((n, 1 + nc), |_| if coarse { g.int(-3, 3) as f64 } else { g.f(-2., 2.) });
    // tolerances, possibly for function constraints too
    let tol = if g.chance(60) { Some((0..nc + if g.chance(20) { g.us(1, 2) } else { 0 }).map(|_| if coarse { g.int(0, 2) as f64 } else { g.f(0., 1.) }).collect::<Vec<_>>()) } else { None };
    let mut kw = Kw::new();
    kw.put(g, "n_cstr", json!(nc), nc == 0);
    kw.put(g, "cstr_tol", json!(tol), tol.is_none());
    let lay = g.pick(&["c", "f", "strided", "rev"]);
    let kw = kw.get();
    g.note("call", (&kw, y.rows().into_iter().map(|r| r.to_vec()).collect::<Vec<_>>(), lay));
    let q = json!({"op": "best", "specs": specs(g, &t), "kw": kw, "x": enc2(&x), "y": enc2(&y), "lay": lay});
    let r = match call(&q) {
        Ok(r) => r,
        Err(e) => return fail("raised", e),
    };
    untouched(&r)?;
    let mut tl = tol.unwrap_or_default();
    tl.resize(tl.len().max(nc), DEFAULT_CSTR_TOL);
    let rows: Vec<Vec<f64>> = y.rows().into_iter().map(|r| r.to_vec()).collect();
    let i = r["index"].as_u64().unwrap_or(u64::MAX) as usize;
    if let Err(e) = is_best(&rows, &tl, i) {
        return fail("index", e);
    }
    same("x_doe", &r["x_doe"], &enc2(&x))?;
    same("y_doe", &r["y_doe"], &enc2(&y))?;
    let (xo, yo) = (dec(&r["x_opt"]).v, dec(&r["y_opt"]).v);
    let j = (0..n).filter(|j| x.row(*j).to_vec() == xo && rows[*j] == yo).find(|j| is_best(&rows, &tl, *j).is_ok());
    ensure!(j.is_some(), "result", "{xo:?} {yo:?} is not a best row");
    g.label(format!("{nc} constraints"));
    if n > 2 {
        g.nontrivial();
    }
    Ok(())
}

fn types(g: &mut G) -> R {
    let t = gen_xtypes(g, 4, false);
    let mut kw = Map::new();
    let mut want = json!({"regr_spec": 1, "corr_spec": 1, "kpls_dim": null, "n_clusters": 1, "theta_init": null, "theta_bounds": null,
        "n_start": EGO_GP_OPTIM_N_START, "max_eval": EGO_GP_OPTIM_MAX_EVAL, "recombination": "Recombination.HARD"});
    let defaults = want.clone();
    let mut set = |k: &str, v: Value, w: Value| {
        kw.insert(k.into(), v);
        want[k] = w;
    };
    let sub = |g: &mut G, n: usize| -> Vec<usize> {
        let mut l: Vec<usize> = (0..n).filter(|_| g.chance(50)).collect();
        if l.is_empty() {
            l.push(g.us(0, n - 1));
        }
        l
    };
    let bits = |l: &[usize]| l.iter().map(|i| 1u64 << i).sum::<u64>();
    if g.chance(50) {
        let l = sub(g, 3);
        set("regr_spec", flags("RegressionSpec", &REG, &l), json!(bits(&l)));
    }
    if g.chance(50) {
        let l = sub(g, 4);
        set("corr_spec", flags("CorrelationSpec", &COR, &l), json!(bits(&l)));
    }
    if g.chance(40) {
        let v = json!(g.us(1, 5));
        set("kpls_dim", v.clone(), v);
    }
    if g.chance(40) {
        let v = json!(g.int(-5, 5));
        set("n_clusters", v.clone(), v);
    }
    if g.chance(40) {
        let v = json!((0..g.us(1, 3)).map(|_| g.logf(0.1, 10.)).collect::<Vec<_>>());
        set("theta_init", v.clone(), v);
    }
    if g.chance(40) {
        let v = json!((0..g.us(1, 3)).map(|_| vec![g.logf(0.01, 0.1), g.logf(1., 10.)]).collect::<Vec<_>>());
        set("theta_bounds", v.clone(), v);
    }
    if g.chance(40) {
        let v = json!(g.int(-3, 20));
        set("n_start", v.clone(), v);
    }
    if g.chance(40) {
        let v = json!(g.us(0, 200));
        set("max_eval", v.clone(), v);
    }
    if g.chance(40) {
        set("recombination", en("Recombination", "SMOOTH"), json!("Recombination.SMOOTH"));
    }
    let sp = specs(g, &t);
    let sp = if sp["form"] == "xspecs" { sp } else { json!({"form": "xspecs", "v": []}) };
    let (ri, eo) = ((format!("f{}", g.us(0, 9)), g.us(0, 9)), (g.f(-2., 2.), g.logf(1e-6, 1.)));
    let q = json!({"op": "types", "kw": kw, "ri": [ri.0, ri.1], "eo": [eo.0, eo.1], "specs": sp});
    g.note("call", &q);
    let r = match call(&q) {
        Ok(r) => r,
        Err(e) => return fail("raised", e),
    };
    ensure!(r["defaults"] == defaults, "defaults", "default GpConfig {} / {defaults}", r["defaults"]);
    ensure!(r["config"] == want, "config", "GpConfig {} / {want}", r["config"]);
    ensure!(r["ri"] == json!([ri.0, ri.1]), "run-info", "{}", r["ri"]);
    same("expected", &r["eo"][0], &enc(vec![], [eo.0].into_iter()))?;
    same("expected", &r["eo"][1], &enc(vec![], [eo.1].into_iter()))?;
    for (i, v) in sp["v"].as_array().unwrap().iter().enumerate() {
        let k = format!("XType.{}", v["k"].as_str().unwrap().to_uppercase());
        let s = &r["specs"][i];
        ensure!(s[0] == json!(k), "xspec", "{s} for {v}");
        if v["k"] != "enum" {
            ensure!(s[1] == v["l"], "xspec", "{s} for {v}");
        } else {
            let n = v["n"].as_u64().unwrap() as usize;
            let ok = if v["tags"] == json!(true) { s[2].as_array().unwrap().len() == n } else { s[1] == json!([n as f64]) };
            ensure!(ok, "xspec", "{s} for {v}");
        }
    }
    if r["config"] != r["defaults"] {
        g.nontrivial();
    }
    Ok(())
}

pub fn prop28() -> Prop {
    Prop {
        id: "C28",
        level: "exploration",
        rule: "designs of several points in several variables; surrogates trained by both sides; optimizations with at least one iteration; suggestions given; tables of three rows or more; configurations other than the default",
        assumptions: &[
            "CPython, numpy and PyO3 convert values faithfully",
            "sine and cosine of Python and Rust come from the same C library",
            "surrogates of other memory layouts than row-major are compared up to rounding, with given hyperparameters",
        ],
        subs: vec![
            Sub { name: "designs", quick: 1500, thorough: 20000, jobs: 8, f: designs },
            Sub { name: "gpmix", quick: 300, thorough: 5000, jobs: 8, f: gpmix },
            Sub { name: "sparse", quick: 200, thorough: 3000, jobs: 8, f: sparse },
            Sub { name: "minimize", quick: 160, thorough: 3000, jobs: 8, f: minimize },
            Sub { name: "suggest", quick: 150, thorough: 3000, jobs: 8, f: suggest },
            Sub { name: "best", quick: 1500, thorough: 20000, jobs: 8, f: best },
            Sub { name: "types", quick: 400, thorough: 2000, jobs: 8, f: types },
        ],
    }
}
