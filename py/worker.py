"""Executes generated calls of the Python module: one JSON request per line on stdin, one JSON answer per line.
Arrays travel as {"s": shape, "b": [bits]}; nothing is judged here."""
import json, math, os, sys
out = os.fdopen(os.dup(1), "w")
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
os.dup2(null, 2)
import numpy as np
import egobox as egx


def enc(a):
    a = np.asarray(a, dtype=np.float64)
    return {"s": list(a.shape), "b": np.ascontiguousarray(a).reshape(-1).view(np.uint64).tolist()}


def dec(o):
    return np.array(o["b"], dtype=np.uint64).view(np.float64).reshape(o["s"])


def lay(a, layout):
    """same values, other memory layouts"""
    if layout == "f":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.full([2 * n for n in a.shape], 777.0)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if layout == "rev":
        return np.ascontiguousarray(a[::-1])[::-1]
    if layout == "1d":
        return np.ascontiguousarray(a).reshape(-1)
    return np.ascontiguousarray(a)


class Args:
    """arguments given to the module, with copies to see whether they are left alone"""

    def __init__(self):
        self.l = []

    def add(self, name, a, layout="c"):
        a = lay(a, layout)
        self.l.append((name, a, a.copy()))
        return a

    def touched(self):
        return [n for n, a, b in self.l if a.shape != b.shape or a.tobytes() != b.tobytes()]


def value(v):
    if isinstance(v, dict):
        if "enum" in v:
            return getattr(getattr(egx, v["enum"]), v["name"])
        if "flags" in v:
            r = 0
            for n in v["names"]:
                r |= getattr(getattr(egx, v["flags"]), n)
            return r
        if "gp_config" in v:
            kw = kwargs(v["gp_config"])
            if v.get("set"):
                c = egx.GpConfig()
                for k, w in kw.items():
                    setattr(c, k, w)
                return c
            return egx.GpConfig(**kw)
        if "specs" in v:
            return specs(v["specs"])
        if "arr" in v:
            return lay(dec(v["arr"]), v.get("layout", "c"))
    return v


def kwargs(d):
    return {k: value(v) for k, v in d.items()}


def specs(s):
    f = s["form"]
    if f == "lists":
        return [list(v) for v in s["v"]]
    if f == "array":
        return np.array(s["v"], dtype=np.float64)
    r = []
    for t in s["v"]:
        k = t["k"]
        if k == "enum":
            if t["tags"]:
                r.append(egx.XSpec(egx.XType.ENUM, tags=["t%d" % i for i in range(t["n"])]))
            else:
                r.append(egx.XSpec(egx.XType.ENUM, [t["n"]]))
        else:
            ty = {"float": egx.XType.FLOAT, "int": egx.XType.INT, "ord": egx.XType.ORD}[k]
            r.append(egx.XSpec(ty, t["l"]) if t.get("pos") else egx.XSpec(xtype=ty, xlimits=t["l"]))
    return r


def field_val(f, x):
    o = 0.0
    for v, xi in zip(f["v"], x):
        if "Num" in v:
            lo, w, a, fr, p, q, m = v["Num"]
            u = (xi - lo) / w
            o += a * math.sin(fr * u + p) + q * (u - m) * (u - m)
        else:
            t = v["Tab"]
            i = int(xi)
            o += t[i] if 0 <= i < len(t) else 0.0
    return f["c"] + f["s"] * o


def field_grad(f, x):
    r = []
    for v, xi in zip(f["v"], x):
        if "Num" in v:
            lo, w, a, fr, p, q, m = v["Num"]
            u = (xi - lo) / w
            r.append(f["s"] * (a * fr * math.cos(fr * u + p) + 2.0 * q * (u - m)) / w)
        else:
            r.append(0.0)
    return r


def sampling(q):
    kw = kwargs(q["kw"])
    if q["fn"] == "lhs":
        return {"x": enc(egx.lhs(specs(q["specs"]), q["n"], **kw))}
    return {"x": enc(egx.sampling(getattr(egx.Sampling, q["method"]), specs(q["specs"]), q["n"], **kw))}


def describe(gp, q, args):
    xq = args.add("x", dec(q["xq"]), q["qlay"])
    r = {
        "predict": enc(gp.predict(xq)),
        "predict_var": enc(gp.predict_var(xq)),
        "predict_gradients": enc(gp.predict_gradients(xq)),
        "predict_var_gradients": enc(gp.predict_var_gradients(xq)),
        "thetas": enc(gp.thetas()),
        "variances": enc(gp.variances()),
        "likelihoods": enc(gp.likelihoods()),
        "repr": repr(gp),
        "str": str(gp),
    }
    if hasattr(gp, "dims"):
        r["dims"] = list(gp.dims())
        x, y = gp.training_data()
        r["train_x"], r["train_y"] = enc(x), enc(y)
    return r


def surrogate(q):
    args = Args()
    cls = {"GpMix": egx.GpMix, "Gpx.builder": egx.Gpx.builder, "SparseGpMix": egx.SparseGpMix, "SparseGpx.builder": egx.SparseGpx.builder}[q["cls"]]
    kw = kwargs(q["kw"])
    for k, v in kw.items():
        if isinstance(v, np.ndarray):
            args.l.append((k, v, v.copy()))
    b = cls(**kw)
    xt = args.add("xt", dec(q["xt"]), q["xlay"])
    yt = args.add("yt", dec(q["yt"]), q["ylay"])
    gp = b.fit(xt, yt)
    r = describe(gp, q, args)
    # the model keeps its own copy of the data
    keep = xt.copy()
    if q.get("scribble"):
        xt[...] = 12345.0
        r["again"] = enc(gp.predict(dec(q["xq"])))
        xt[...] = keep
    if q.get("refit"):
        r["refit"] = enc(b.fit(xt, yt).predict(dec(q["xq"])))
    if q.get("traj"):
        try:
            r["sample"] = enc(gp.sample(args.add("xs", dec(q["xs"]), "c"), q["traj"]))
        except BaseException as e:
            r["unsampled"] = str(e)
    if q.get("file"):
        r["saved"] = gp.save(q["file"])
        r["save_bad"] = gp.save(q["bad"])
        g2 = type(gp).load(q["file"])
        r["loaded"] = describe(g2, q, args)
    r["touched"] = args.touched()
    return r


def tables(q):
    objs, cs = q["fs"], q["cs"]
    log = {"calls": [], "c": 0, "g": 0, "types": []}
    args = Args()

    def fun(x):
        log["types"].append([type(x).__name__, str(x.dtype), x.ndim, bool(x.flags.writeable)])
        y = np.array([[field_val(f, row) for f in objs] for row in x.tolist()])
        log["calls"].append([enc(x), enc(y)])
        if q.get("scribble"):
            x[...] = 1e9
        return y if not q.get("ylay") else lay(y, q["ylay"])

    def mk(f):
        def cstr(x, return_grad):
            xs = x.tolist()
            if q.get("scribble"):
                x[...] = 1e9
            if return_grad:
                log["g"] += 1
                return np.array(field_grad(f, xs))
            log["c"] += 1
            return field_val(f, xs)

        return cstr

    return fun, [mk(f) for f in cs], log, args


def optres(r):
    return {"x_opt": enc(r.x_opt), "y_opt": enc(r.y_opt), "x_doe": enc(r.x_doe), "y_doe": enc(r.y_doe)}


def minimize(q):
    fun, cs, log, args = tables(q)
    res = []
    for st in q["steps"]:
        kw = kwargs(st["kw"])
        if isinstance(kw.get("doe"), np.ndarray):
            args.l.append(("doe", kw["doe"], kw["doe"].copy()))
        egor = egx.Egor(specs(q["specs"]), **kw)
        n0 = len(log["calls"])
        mk = kwargs(st["run"])
        if cs:
            mk["fcstrs"] = cs
        r = egor.minimize(fun, **mk)
        o = optres(r)
        if st.get("again"):
            o["again"] = optres(egor.minimize(fun, **mk))
        o["calls"] = log["calls"][n0:]
        res.append(o)
    return {"steps": res, "c": log["c"], "g": log["g"], "types": log["types"], "touched": args.touched()}


def suggest(q):
    args = Args()
    kw = kwargs(q["kw"])
    egor = egx.Egor(specs(q["specs"]), **kw)
    x = args.add("x_doe", dec(q["x"]), q["lay"])
    y = args.add("y_doe", dec(q["y"]), q["lay"])
    r = {"x": enc(egor.suggest(x, y))}
    if q.get("again"):
        r["again"] = enc(egor.suggest(x, y))
    r["touched"] = args.touched()
    return r


def best(q):
    args = Args()
    egor = egx.Egor(specs(q["specs"]), **kwargs(q["kw"]))
    x = args.add("x_doe", dec(q["x"]), q["lay"])
    y = args.add("y_doe", dec(q["y"]), q["lay"])
    r = {"index": egor.get_result_index(y)}
    r.update(optres(egor.get_result(x, y)))
    r["touched"] = args.touched()
    return r


def types(q):
    c = egx.GpConfig()
    d = {k: getattr(c, k) for k in ["regr_spec", "corr_spec", "kpls_dim", "n_clusters", "theta_init", "theta_bounds", "n_start", "max_eval"]}
    d["recombination"] = str(c.recombination)
    c = egx.GpConfig(**kwargs(q["kw"]))
    e = {k: getattr(c, k) for k in ["regr_spec", "corr_spec", "kpls_dim", "n_clusters", "theta_init", "theta_bounds", "n_start", "max_eval"]}
    e["recombination"] = str(c.recombination)
    ri = egx.RunInfo(*q["ri"])
    xs = [[str(s.xtype), list(s.xlimits), list(s.tags)] for s in specs(q["specs"])]
    eo = egx.ExpectedOptimum(*q["eo"])
    return {"defaults": d, "config": e, "ri": [ri.fname, ri.num], "specs": xs, "eo": [enc(eo.val), enc(eo.tol)]}


OPS = {"sampling": sampling, "surrogate": surrogate, "minimize": minimize, "suggest": suggest, "best": best, "types": types}

for line in sys.stdin:
    q = json.loads(line)
    try:
        r = {"ok": OPS[q["op"]](q)}
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        import traceback
        r = {"err": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-1500:]}
    out.write(json.dumps(r) + "\n")
    out.flush()
