from vc.harness import NS, contract
from contracts._common import AffineTransform, any_vp

WH = "pyvbmc.whitening.whitening"


@contract("C18", targets=["unscent_warp"], shapes=[dict(n=n, D=d) for n, d in ((1, 1), (2, 1), (1, 2), (2, 2))], cases=[dict(rows="same"), dict(rows="one x"), dict(rows="one s"), dict(rows="flat")])
def unscented(E):
    """mean and standard deviation of the images of the 2D+1 sigma points of every row, for a nonlinear map"""
    np = E.np
    n, D = E.dim("n", 1, 3), E.dim("D", 1, 3)
    a, b, c = E.real("a", D), E.real("b", D), E.real("c", D, D)
    how = E.case["rows"]
    if how == "flat":
        x, s = E.real("x", D), E.pos("s", D)
        n = 1
    else:
        x = E.real("x", 1 if how == "one x" else n, D)
        s = E.pos("s", 1 if how == "one s" else n, D)
    x0, s0 = x.copy(), s.copy()
    fun = lambda v: (v * a + b) @ c + v**2
    m, sd, pts = E.imp(WH).unscent_warp(fun, x, s)
    E.same("points unchanged", x, x0)
    E.same("scales unchanged", s, s0)
    E.ok("shapes", m.shape == ((D,) if how == "flat" else (n, D)) and sd.shape == m.shape and pts.shape == (2 * D + 1, n, D))
    m, sd = m.reshape(n, D), sd.reshape(n, D)
    one = np.ones((n, 1))
    x0, s0 = one * x0.reshape(-1, D), one * s0.reshape(-1, D)
    for i in range(n):
        P = [x0[i : i + 1]]
        for d in range(D):
            e = np.zeros((1, D))
            e[0, d] = np.sqrt(D) * s0[i, d]
            P += [x0[i : i + 1] + e, x0[i : i + 1] - e]
        F = [fun(p)[0] for p in P]
        U = len(F)
        mean = sum(F[1:], F[0]) / U
        for k in range(U):
            E.eq(f"image of sigma point {k} of row {i}", pts[k, i], F[k])
        E.eq(f"mean {i}", m[i], mean)
        var = sum(((f - mean) ** 2 for f in F[1:]), (F[0] - mean) ** 2) / (U - 1)
        E.eq(f"variance {i}", sd[i] ** 2, var)
        E.ok(f"standard deviation {i}", sd[i] >= 0)


@contract("C18", targets=["unscent_warp"], cases=[dict(nx=2, ns=3, dx=1, ds=1), dict(nx=3, ns=2, dx=2, ds=2), dict(nx=1, ns=1, dx=1, ds=2), dict(nx=2, ns=2, dx=2, ds=1)])
def unscented_mismatch(E):
    """points and scales of different numbers are refused"""
    c = E.case
    x, s = E.real("x", c["nx"], c["dx"]), E.pos("s", c["ns"], c["ds"])
    E.raises("refused", ValueError, lambda: E.imp(WH).unscent_warp(lambda v: v, x, s))


def stub_gp(E, D, N, Ns, mean):
    import gpyreg as gpr

    mf = gpr.mean_functions.ConstantMean() if mean == "const" else gpr.mean_functions.NegativeQuadratic()
    nh = D + 1 + 1 + (1 if mean == "const" else 1 + 2 * D)
    hyp = [E.real(f"hyp{s}", nh) for s in range(Ns)]
    gp = NS(covariance=gpr.covariance_functions.SquaredExponential(), noise=gpr.noise_functions.GaussianNoise(constant_add=True), mean=mf, posteriors=[NS(hyp=h) for h in hyp], X=E.real("gpX", N, D))
    return gp, hyp, nh


@contract("C18", targets=["warp_gp_and_vp", "unscent_warp"], shapes=[dict(D=1, K=1, N=1, Ns=1), dict(D=1, K=2, N=2, Ns=1), dict(D=2, K=1, N=1, Ns=1), dict(D=2, K=2, N=1, Ns=2)],
          cases=[dict(mean=m, T=t) for m in ("const", "negquad") for t in (None, 2.0)], budget=200, trials=25)
def posterior_and_surrogate(E):
    """for a change of coordinates that scales and shifts (with any log-Jacobian): the new posterior is
    the old mixture in the new coordinates with the weights corrected by the change of volume, and the
    surrogate's length scales and mean function are those of the old one in the new coordinates"""
    np = E.np
    D, K, N, Ns = E.dim("D", 1, 3), E.dim("K", 1, 3), E.dim("N", 1, 3), E.dim("Ns", 1, 2)
    old, new = AffineTransform(E, D, "o"), AffineTransform(E, D, "n")
    vp = any_vp(E, D, K, normal=True, pt=old)
    gp, hyp, nh = stub_gp(E, D, N, Ns, E.case["mean"])
    T = E.case["T"]
    state = {} if T is None else dict(temperature=T)
    h0, X0 = [h.copy() for h in hyp], gp.X.copy()
    mu0, s0, l0, w0 = vp.mu.copy(), vp.sigma.copy(), vp.lambd.copy(), vp.w.copy()
    if not E.sym:  # executions only: volume changes whose exponential is a float
        u = (mu0.T * old.a + old.b - new.b) / new.a
        E.assume(np.all(np.abs(u @ new.c) + np.abs(mu0.T @ old.c) < 300))
        E.assume(all(np.all(np.abs(w - (w * old.a + old.b - new.b) / new.a) < 1e8) for w in mu0.T))
    nv, nh_ = E.imp(WH).warp_gp_and_vp(new, gp, vp, NS(D=D, optim_state=state))
    T = T or 1.0
    for k, v, w in (("mu", vp.mu, mu0), ("sigma", vp.sigma, s0), ("lambda", vp.lambd, l0), ("weights", vp.w, w0), ("GP inputs", gp.X, X0)):
        E.same(f"{k} of the old objects unchanged", v, w)
    for s in range(Ns):
        E.same(f"old hyperparameters {s} unchanged", gp.posteriors[s].hyp, h0[s])
    E.ok("old posterior keeps its transform", vp.parameter_transformer is old and nv is not vp)
    r = old.a / new.a
    warp = lambda u: (u * old.a + old.b - new.b) / new.a
    E.ok("shapes", nv.mu.shape == (D, K) and nv.sigma.shape == (1, K) and nv.lambd.shape == (D, 1) and nv.w.shape == (1, K))
    g = [w0[0, k] * np.exp((sum(warp(mu0[:, k])[d] * new.c[d] for d in range(D)) - sum(mu0[d, k] * old.c[d] for d in range(D))) / T) for k in range(K)]
    for k in range(K):
        E.eq(f"mean {k}", nv.mu[:, k], warp(mu0[:, k]))
        for d in range(D):
            E.eq(f"scale {k},{d}", (nv.sigma[0, k] * nv.lambd[d, 0]) ** 2, (s0[0, k] * l0[d, 0] * r[d]) ** 2)
        E.ok(f"positive scale {k}", nv.sigma[0, k] > 0)
        E.eq(f"weight {k}", nv.w[0, k] * sum(g), g[k])
    q = nv.parameter_transformer
    E.eq("new transform (scale)", q.a, new.a)
    E.eq("new transform (shift)", q.b, new.b)
    E.ok("hyperparameter table", nh_.shape == (Ns, nh))
    dlt = lambda u: sum(warp(u)[d] * new.c[d] for d in range(D)) - sum(u[d] * old.c[d] for d in range(D))
    for s in range(Ns):
        E.eq(f"length scales {s}", nh_[s, :D], h0[s][:D] + np.log(r))
        E.eq(f"output and noise scale {s}", nh_[s, D : D + 2], h0[s][D : D + 2])
        if E.case["mean"] == "const":
            E.eq(f"constant mean {s}", nh_[s, D + 2], h0[s][D + 2] + sum(dlt(X0[i]) for i in range(N)) / N / T)
        else:
            xm = h0[s][D + 3 : 2 * D + 3]
            E.eq(f"maximum {s}", nh_[s, D + 2], h0[s][D + 2] + dlt(xm) / T)
            E.eq(f"location {s}", nh_[s, D + 3 : 2 * D + 3], warp(xm))
            E.eq(f"width {s}", nh_[s, 2 * D + 3 :], h0[s][2 * D + 3 :] + np.log(r))


@contract("C18", targets=["warp_input"], sym=False, trials=12, cases=[dict(D=d, bounds=b, prev=p, reg=r) for d, b, p, r in ((1, 0, 0, 0), (2, 0, 0, 0), (2, 1, 0, 0), (3, 1, 1, 0), (2, 0, 1, 0), (2, 2, 0, 1), (3, 0, 0, 1))])
def whole_state(E):
    """bounded: after a warp, every training row is the old original-space point and value in the new
    coordinates, the new coordinates whiten the posterior, and nothing passed in is modified"""
    import copy

    import numpy as np

    D, reg = E.case["D"], E.case["reg"]
    lb, ub = np.full((1, D), -np.inf), np.full((1, D), np.inf)
    if E.case["bounds"]:
        lb[0, : E.case["bounds"]], ub[0, : E.case["bounds"]] = -3.0, 4.0
    plb, pub = np.full((1, D), -1.0), np.full((1, D), 2.0)
    PT = E.imp("pyvbmc.parameter_transformer.parameter_transformer").ParameterTransformer
    pt = PT(D, lb, ub, plb, pub)
    if E.case["prev"]:
        q, _ = np.linalg.qr(E.real("Q", D, D) + 3 * np.eye(D))
        q[:, 0] *= np.sign(np.linalg.det(q))
        pt.R_mat, pt.scale = q, E.pos("sc", D) + 0.3
    vp = any_vp(E, D, 2, normal=True, pt=pt)
    FL = E.imp("pyvbmc.function_logger.function_logger").FunctionLogger
    n = 4 + E.int("n", 0, 4)
    U = 0.4 * np.tanh(E.real("U", n, D)) + 0.1
    fl = FL(lambda x: float(-np.sum(x**2)), D, False, 0, 16, pt)
    for u in U:
        fl(u)
    off = E.int("off", 0, n - 1)
    fl.X_flag[off] = False
    corr = 0.4 if reg else 0.0
    state = dict(plb_orig=plb, pub_orig=pub, plb_tran=pt(plb), pub_tran=pt(pub), lb_search=np.full((1, D), -2.0), ub_search=np.full((1, D), 2.5), N=n, iter=5, warping_count=1, last_warping=0, last_successful_warping=0,
                 search_cache=E.real("cache", 3, D) if E.bool("cached") else [], run_mean=[1], run_cov=[2], last_run_avg=3, recompute_var_post=False, skip_active_sampling=False)
    if E.bool("hot"):
        state["temperature"] = 2.0
    opt = E.imp("pyvbmc.vbmc.options")
    opts = dict(warp_rotoscaling=True, warp_nonlinear=False, warp_roto_corr_thresh=corr, warp_cov_reg=0.3 if reg else 0.0)
    args = (vp, state, fl)
    before = copy.deepcopy(args)
    npt, ns, nf, act = E.imp(WH).warp_input(vp, state, fl, opts)
    for nm, a, b in (("mu", vp.mu, before[0].mu), ("X", fl.X, before[2].X), ("y", fl.y, before[2].y), ("flags", fl.X_flag, before[2].X_flag), ("scale", vp.parameter_transformer.mu, before[0].parameter_transformer.mu)):
        E.eq(f"{nm} passed in unchanged", a, b)
    E.ok("state passed in unchanged", state["warping_count"] == 1 and state["run_mean"] == [1] and np.array_equal(state["lb_search"], before[1]["lb_search"]))
    E.ok("transform passed in unchanged", vp.parameter_transformer == before[0].parameter_transformer and fl.parameter_transformer == before[2].parameter_transformer)
    E.ok("new transform everywhere", nf.parameter_transformer is npt)
    E.ok("same hard bounds", np.array_equal(npt.lb_orig, pt.lb_orig) and np.array_equal(npt.ub_orig, pt.ub_orig) and np.array_equal(npt.type, pt.type))
    E.eq("a rotation", npt.R_mat.T @ npt.R_mat, np.eye(D))
    E.eq("keeping orientation", np.linalg.det(npt.R_mat), 1.0)
    T = state.get("temperature", 1)
    for i in range(16):
        if not fl.X_flag[i]:
            E.eq(f"row {i} not in the training set", nf.X[i], fl.X[i])
            continue
        xi = npt(fl.X_orig[i : i + 1])
        E.eq(f"point {i}", nf.X[i : i + 1], xi)
        E.eq(f"value {i}", nf.y[i], fl.y_orig[i] + npt.log_abs_det_jacobian(xi) / T)
        E.eq(f"back to the original point {i}", npt.inverse(nf.X[i : i + 1]), fl.X_orig[i : i + 1])
    E.eq("original points kept", nf.X_orig, fl.X_orig)
    E.eq("original values kept", nf.y_orig, fl.y_orig)
    if not reg:
        # covariance of the posterior in the coordinates before shift, scale and rotation
        w = vp.w[0]
        m = (vp.mu * w).sum(axis=1)
        C = sum(w[k] * (np.diag((vp.sigma[0, k] * vp.lambd[:, 0]) ** 2) + np.outer(vp.mu[:, k] - m, vp.mu[:, k] - m)) for k in range(2))
        R0, s0 = (pt.R_mat if pt.R_mat is not None else np.eye(D)), (pt.scale if pt.scale is not None else np.ones(D))
        J0 = np.diag(pt.delta) @ R0 @ np.diag(s0)
        J1 = np.linalg.inv(npt.R_mat @ np.diag(npt.scale))
        if np.linalg.cond(C) < 1e6:
            E.eq("posterior whitened", J1 @ J0 @ C @ J0.T @ J1.T, np.eye(D), rtol=1e-4, atol=1e-6)
    E.ok("plausible box", ns["plb_tran"].shape == (1, D) and bool(np.all(ns["plb_tran"] < ns["pub_tran"])))
    mid = npt(pt.inverse(np.array([[0.25] * D])))
    E.ok("search box", ns["lb_search"].shape == (1, D) and bool(np.all(ns["lb_search"] < mid) and np.all(mid < ns["ub_search"])))
    E.ok("bookkeeping", ns["warping_count"] == 2 and ns["last_warping"] == 5 and ns["last_successful_warping"] == 5 and ns["recompute_var_post"] is True and ns["skip_active_sampling"] is True and ns["run_mean"] == [] and ns["run_cov"] == [])
    if np.size(state["search_cache"]):
        E.eq("search cache", ns["search_cache"], npt(pt.inverse(before[1]["search_cache"])))
