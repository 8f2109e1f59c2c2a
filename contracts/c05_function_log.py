from vc.harness import contract
from contracts._common import AffineTransform, any_logger

CASES = [dict(noise=z, pt=p, how=h) for z in (0, 1, 2) for p in (0, 1) for h in ("call", "add") if not (z == 1 and p == 0)]


def evaluate(E, L, x, box, how, noise, f, s):
    if how == "call":
        return L(x)
    return L.add(x, f, s if noise == 2 else None)


@contract("C05", targets=["FunctionLogger.__call__", "FunctionLogger.add", "FunctionLogger._record", "FunctionLogger._expand_arrays"],
          cases=[dict(c, room=r) for c in CASES for r in (True, False)])
def new_point(E):
    """evaluating a point not yet in the log appends exactly one faithful row and leaves
    every earlier row alone, also when the table has to grow"""
    np = E.np
    D = E.dim("D")
    noise, how = E.case["noise"], E.case["how"]
    pt = AffineTransform(E, D) if E.case["pt"] else None
    f, s = E.real("f"), E.pos("sd")
    calls = []

    def fun(z):
        calls.append(z)
        return (f, s) if noise == 2 else f

    L, n, C = any_logger(E, D, noise, pt, fun, room=E.case["room"])
    x = E.real("x", D)
    E.assume(~np.any(np.all(L.X[:n] == x, axis=1)))
    old = dict(X=L.X[:n].copy(), X_orig=L.X_orig[:n].copy(), y=L.y[:n].copy(), y_orig=L.y_orig[:n].copy(), n_evals=L.n_evals[:n].copy(),
               fun_eval_time=L.fun_eval_time[:n].copy(), X_flag=L.X_flag[:n].copy())
    if noise:
        old["S"] = L.S[:n].copy()
    fc, cc = L.func_count, L.cache_count
    fv, sd, idx = evaluate(E, L, x, None, how, noise, f, s)
    xo = pt.inverse(x) if pt else x
    y = f + pt.log_abs_det_jacobian(x) if pt else f
    E.eq("index of the new row", idx, n)
    E.eq("last filled entry", L.Xn, n)
    E.eq("point recorded", L.X[n], x)
    E.eq("original-space point recorded", L.X_orig[n], xo)
    E.eq("raw value recorded", L.y_orig[n, 0], f)
    E.eq("transformed value recorded = raw + log-Jacobian", L.y[n, 0], y)
    E.eq("value returned", fv, y)
    E.ok("row flagged as used", L.X_flag[n])
    E.eq("evaluation count of the row", L.n_evals[n, 0], 1)
    if noise:
        E.eq("noise recorded", L.S[n, 0], s if noise == 2 else 1)
    if how == "call":
        E.ok("target called exactly once", len(calls) == 1)
        E.eq("target called at the original-space point", calls[0], xo)
        E.eq("function count", L.func_count, fc + 1)
        E.eq("cache count unchanged", L.cache_count, cc)
    else:
        E.eq("cache count", L.cache_count, cc + 1)
        E.eq("function count unchanged", L.func_count, fc)
        E.ok("target not called", len(calls) == 0)
    for k in old:
        E.same(f"earlier rows of {k} unchanged", getattr(L, k)[:n], old[k])
    E.ok("rows after the last entry are unused", ~L.X_flag[n + 1:])
    E.ok("rows after the last entry are nan", np.isnan(L.y[n + 1:]))
    E.eq("tables have equal length", L.X.shape[0], L.y.shape[0])
    E.eq("tables have equal length (flags)", L.X.shape[0], L.X_flag.shape[0])
    E.eq("tables have equal length (counts)", L.X.shape[0], L.n_evals.shape[0])
    E.ok("best value is attained", L.y_max >= y)
    E.ok("best value bounds every stored value", L.y[:n] <= L.y_max)
    E.ok("best value is one of the stored values", np.any(L.y[: n + 1] == L.y_max))


@contract("C05", targets=["FunctionLogger.__call__", "FunctionLogger.add", "FunctionLogger._record"],
          cases=CASES)
def repeated_point(E):
    """re-evaluating a logged point merges into its row (running mean, or precision-weighted
    mean with noise); all other rows are untouched"""
    np = E.np
    D = E.dim("D")
    noise, how = E.case["noise"], E.case["how"]
    pt = AffineTransform(E, D) if E.case["pt"] else None
    f, s = E.real("f"), E.pos("sd")
    L, n, C = any_logger(E, D, noise, pt, lambda z: (f, s) if noise == 2 else f)
    E.assume(n >= 1)
    j = E.int("j", 0, n - 1)
    x = L.X[j].copy()
    E.assume(np.all((np.arange(n) == j) | ~np.all(L.X[:n] == x, axis=1)))  # rows of the log are distinct
    N = L.n_evals[j, 0]
    y0, other = L.y_orig[j, 0], (np.arange(L.X.shape[0]) != j)
    old = {k: getattr(L, k).copy() for k in ("X", "X_orig", "y", "y_orig", "n_evals", "X_flag")}
    if noise:
        s0 = L.S[j, 0]
        old["S"] = L.S.copy()
    fv, sd, idx = evaluate(E, L, x, None, how, noise, f, s)
    if noise:
        s1 = s if noise == 2 else 1
        t0, t1 = 1 / s0**2, 1 / s1**2
        m = (t0 * y0 + t1 * f) / (t0 + t1)
        E.eq("combined noise", L.S[j, 0], 1 / np.sqrt(t0 + t1))
    else:
        m = (N * y0 + f) / (N + 1)
    J = pt.log_abs_det_jacobian(x) if pt else 0
    E.eq("index of the merged row", idx, j)
    E.eq("raw value is the combined estimate", L.y_orig[j, 0], m)
    E.eq("transformed value = raw + log-Jacobian", L.y[j, 0], m + J)
    E.eq("value returned", np.sum(fv), m + J)
    E.eq("evaluation count", L.n_evals[j, 0], N + 1)
    E.eq("no row added", L.Xn, n - 1)
    for k in old:
        a, b = getattr(L, k), old[k]
        o = other if k == "X_flag" else other.reshape(-1, 1)
        if k in ("X", "X_orig", "X_flag"):
            E.same(f"{k} unchanged", a, b)
        else:
            E.ok(f"other rows of {k} unchanged", (~o) | (a == b) | (np.isnan(a) & np.isnan(b)))
    E.ok("best value bounds every stored value", L.y[:n] <= L.y_max)
    E.ok("best value is one of the stored values", np.any(L.y[:n] == L.y_max))


@contract("C05", targets=["FunctionLogger.finalize"], cases=[dict(noise=0), dict(noise=2)])
def finalize(E):
    """finalize trims every table to exactly the recorded rows and changes none of them"""
    D = E.dim("D")
    L, n, C = any_logger(E, D, E.case["noise"])
    ks = ["X", "X_orig", "y", "y_orig", "X_flag", "fun_eval_time", "n_evals"] + (["S"] if E.case["noise"] else [])
    old = {k: getattr(L, k)[:n].copy() for k in ks}
    L.finalize()
    for k in ks:
        E.same(f"{k} trimmed to the recorded rows", getattr(L, k), old[k])


@contract("C05", targets=["FunctionLogger.__init__", "FunctionLogger.__call__", "FunctionLogger.add", "FunctionLogger._record"],
          cases=[dict(noise=z) for z in (0, 1, 2)], sym=False, trials=60)
def history(E):
    """whole histories: the log equals a reference table built from the sequence of evaluations"""
    np = E.np
    M = E.imp("pyvbmc.function_logger.function_logger")
    D, T = E.dim("D", 1, 3), E.int("T", 1, 14)
    noise = E.case["noise"]
    use_pt = E.bool("transform")
    PTM = E.imp("pyvbmc.parameter_transformer.parameter_transformer")
    lb, ub = -3 * np.ones((1, D)), np.full((1, D), 7.0)
    pt = PTM.ParameterTransformer(D, lb, ub) if use_pt else None
    vals = E.real("vals", T)
    sds = E.pos("sds", T)
    pts = E.real("pts", T, D)
    rep = [E.int(f"rep{t}", -2, max(t - 1, 0)) for t in range(T)]
    cur = [0]
    L = M.FunctionLogger(lambda z: (vals[cur[0]], sds[cur[0]]) if noise == 2 else vals[cur[0]], D, noise > 0, noise, E.int("cache", 1, 4), pt)
    ref, key = [], {}
    xs = []
    for t in range(T):
        cur[0] = t
        x = xs[rep[t]] if rep[t] >= 0 and t > 0 else pts[t]
        xs.append(x)
        s = sds[t] if noise == 2 else 1.0
        if E.bool(f"cached{t}"):
            L.add(x.copy(), float(vals[t]), float(sds[t]) if noise == 2 else None)
        else:
            L(x.copy())
        k = tuple(x.tolist())
        if k in key:
            r = ref[key[k]]
            if noise:
                w0, w1 = 1 / r["s"] ** 2, 1 / s**2
                r["y"], r["s"] = (w0 * r["y"] + w1 * vals[t]) / (w0 + w1), (w0 + w1) ** -0.5
            else:
                r["y"] = (r["n"] * r["y"] + vals[t]) / (r["n"] + 1)
            r["n"] += 1
        else:
            key[k] = len(ref)
            ref.append(dict(x=x, y=vals[t], s=s, n=1))
    n = len(ref)
    E.eq("number of rows", L.Xn + 1, n)
    X = np.array([r["x"] for r in ref])
    E.eq("points", L.X[:n], X)
    E.eq("original points", L.X_orig[:n], pt.inverse(X) if pt else X)
    yo = np.array([[r["y"]] for r in ref])
    yt = yo + (pt.log_abs_det_jacobian(X).reshape(-1, 1) if pt else 0)
    E.eq("raw values", L.y_orig[:n], yo)
    E.eq("transformed values", L.y[:n], yt)
    E.eq("counts", L.n_evals[:n, 0], np.array([r["n"] for r in ref]))
    E.eq("best value", L.y_max, np.max(yt))
    if noise:
        E.eq("noise", L.S[:n, 0], np.array([r["s"] for r in ref]))
    L.finalize()
    for k in ("X", "X_orig", "y", "y_orig", "X_flag", "n_evals", "fun_eval_time"):
        E.eq(f"finalized rows of {k}", getattr(L, k).shape[0], n)
