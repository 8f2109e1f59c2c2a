import math

from vc.harness import NS, contract
from contracts._common import AffineTransform, named

AS = "pyvbmc.vbmc.active_sample"
FR = dict(cache_frac=0.5, search_cache_frac=0, heavy_tail_search_frac=0.25, mvn_search_frac=0.25, box_search_frac=0.25, hpd_search_frac=0, hpd_frac=0.8)


@contract("C16", targets=["_get_search_points"], shapes=[dict(D=1), dict(D=2)],
          cases=[dict(n=n, m=m, fr=f) for n, m, f in ((4, 0, {}), (6, 2, {}), (3, 4, {}), (3, 3, dict(cache_frac=1.0)), (5, 2, dict(search_cache_frac=0.5, heavy_tail_search_frac=0, box_search_frac=0)),
                                                      (4, 1, dict(heavy_tail_search_frac=0, mvn_search_frac=0, box_search_frac=1.0, cache_frac=1.0)), (6, 2, dict(heavy_tail_search_frac=0, mvn_search_frac=0, box_search_frac=0, cache_frac=0.2)))],
          budget=120)
def search_points(E):
    """whatever the samplers return: the requested number of search points, each inside the search box,
    each either a cached point (with its index, at most once) or marked as new; caches unchanged"""
    np = E.np
    n, m = E.case["n"], E.case["m"]
    o = dict(FR, **E.case["fr"])
    D = E.dim("D", 1, 3)
    pt = AffineTransform(E, D)
    lo = E.real("lo", 1, D)
    hi = lo + E.pos("width", 1, D)
    cache = E.real("cache", m, D) if m else np.full((0, D), 0.0)
    X = E.real("X", 3, D)
    asked = []

    def draws(k):
        asked.append(k)
        return E.real(f"draw{len(asked)}", k, D)

    def sample(*a, **k):
        g = named(("N", "orig_flag", "balance_flag", "df"), a, k, orig_flag=True, balance_flag=False, df=np.inf)
        E.ok("draws in inference space", g.orig_flag is False)
        return draws(g.N), None

    vp = NS(sample=sample, moments=lambda *a, **k: (np.zeros((1, D)), np.eye(D)))
    M = E.imp(AS)
    saved = E.choice("search_cache", ["empty", "short", "long"])
    sc = [] if saved == "empty" else E.real("saved", 1 if saved == "short" else 7, D)
    state = dict(cache=dict(x_orig=cache, y_orig=np.full(m, np.nan)), lb_search=lo, ub_search=hi, plb_tran=lo, pub_tran=hi, search_cache=sc)
    keep = cache.copy(), lo.copy(), hi.copy()
    fl = NS(parameter_transformer=pt, X=X, y=np.array([[1.0], [2.0], [0.5]]), X_flag=np.array([True, True, True]))
    S, ix = M._get_search_points(n, state, fl, vp, o)
    nc = min(math.ceil(n * o["cache_frac"]), m)
    total = nc + max(0, n - m)
    E.ok("number of points", S.shape == (total, D) and ix.shape == (total,))
    E.same("cache unchanged", state["cache"]["x_orig"], keep[0])
    E.same("lower end unchanged", lo, keep[1])
    E.same("upper end unchanged", hi, keep[2])
    E.ok("inside the search box (lower)", S >= keep[1])
    E.ok("inside the search box (upper)", S <= keep[2])
    clip = lambda v: np.minimum(np.maximum(v, keep[1]), keep[2])
    for i in range(total):
        if i < nc:
            j = ix[i]
            hit = [E.is_true(j == q) for q in range(m)]
            E.ok(f"index {i} in range", sum(hit) == 1)
            q = hit.index(True)
            E.eq(f"cached point {i}", S[i : i + 1], clip(pt(keep[0][q : q + 1])))
            for l in range(i):
                E.ok(f"indices {i}, {l} distinct", ix[l] != j)
        else:
            E.ok(f"point {i} is not from the cache", np.isnan(ix[i]))


@contract("C16", targets=["active_sample", "VBMC.optimize", "FunctionLogger.__call__"], sym=False, trials=2, budget=300, cases=[dict(D=1, kind="box"), dict(D=2, kind="box"), dict(D=2, kind="half"), dict(D=2, kind="free")])
def whole_runs(E):
    """bounded (short complete runs): the target is only called at real points strictly inside the hard
    bounds, one recorded row per call, as often as reported, the user's starting point first; candidates are
    in the search box, and each new point has an acquisition value no higher than any candidate's"""
    import logging

    import numpy as np

    logging.disable(logging.CRITICAL)
    D, kind = E.case["D"], E.case["kind"]
    np.random.seed(E.int("seed", 0, 10**6))
    lb, ub = np.full((1, D), -np.inf), np.full((1, D), np.inf)
    if kind == "box":
        lb, ub = np.full((1, D), 0.0), np.full((1, D), 1.0)
    if kind == "half":
        lb[0, 0], ub[0, 0] = 0.0, 1.0
    peak = E.choice("peak", ["inside", "corner"])
    seen = []

    steps = []

    class Recorder(E.imp("pyvbmc.acquisition_functions").AcqFcnLog):
        def __call__(self, Xs, gp, vp, function_logger, optim_state):
            r = super().__call__(Xs, gp, vp, function_logger, optim_state)
            X = np.array(Xs, ndmin=2)
            if len(X) > 1:
                steps.append(dict(X=X, a=np.array(r).ravel(), t=vp.parameter_transformer, lo=np.array(optim_state["lb_search"]), hi=np.array(optim_state["ub_search"]), more=[], new=None))
            else:
                steps[-1]["more"].append((X[0].copy(), float(np.ravel(r)[0])))
            return r

    def f(x):
        seen.append(np.array(x, copy=True))
        if steps and steps[-1]["new"] is None:
            steps[-1]["new"] = seen[-1].reshape(1, -1)
        c = 0.5 if peak == "inside" else 0.0
        return float(-0.5 * np.sum(((x - c) / 0.1) ** 2))

    x0 = np.full((1, D), 0.3)
    extra = int(E.choice("starts", [1, 3]))
    x0 = np.vstack([x0 + 0.1 * k for k in range(extra)])
    v = E.imp("pyvbmc.vbmc").VBMC(f, x0, lb, ub, np.full((1, D), 0.05), np.full((1, D), 0.95), options=dict(max_iter=2, min_iter=0, min_fun_evals=0, display="off", search_acq_fcn=[Recorder()]))
    v.optimize()
    E.ok("starting points first", all(np.allclose(seen[k].ravel(), x0[k]) for k in range(extra)))
    for k, x in enumerate(seen):
        E.ok(f"call {k} at a real point of the right shape", x.size == D and bool(np.all(np.isfinite(x))))
        E.ok(f"call {k} strictly inside the hard bounds", bool(np.all(x.ravel() > lb[0]) and np.all(x.ravel() < ub[0])))
    E.ok("calls as reported", v.function_logger.func_count == len(seen))
    n = v.function_logger.Xn + 1
    rows = v.function_logger.X_orig[:n]
    E.ok("every call is a recorded row", all(np.any(np.all(np.isclose(rows, x.ravel(), rtol=1e-9, atol=1e-12), axis=1)) for x in seen))
    E.eq("and the number of evaluations adds up", int(np.sum(v.function_logger.n_evals[:n])), len(seen))
    E.ok("active sampling happened", len(steps) >= 5)
    for k, t in enumerate(steps):
        E.ok(f"candidates of step {k} in the search box", bool(np.all(t["X"] >= t["lo"]) and np.all(t["X"] <= t["hi"])))
        if t["new"] is None:
            continue
        u = t["t"](t["new"])
        pts, val = np.vstack([t["X"]] + [p for p, _ in t["more"]]), np.append(t["a"], [a for _, a in t["more"]])
        close = np.all(np.isclose(pts, u, rtol=1e-6, atol=1e-8), axis=1)
        E.ok(f"point {k} is one of those scored", bool(np.any(close)))
        E.ok(f"point {k} scores no worse than any candidate", bool(np.min(val[close]) <= np.min(t["a"])))
