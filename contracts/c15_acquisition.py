import sys

from vc.harness import NS, contract
from contracts._common import named

AF = "pyvbmc.acquisition_functions"
SHAPES = [dict(D=1, Ns=1), dict(D=2, Ns=1), dict(D=1, Ns=2)]
TINY = sys.float_info.min


class BoxMap:
    """stand-in for a ParameterTransformer: elementwise increasing affine map"""

    def __init__(self, E, D):
        self.a, self.b = E.pos("pt_a", D), E.real("pt_b", D)

    def inverse(self, u):
        return u * self.a + self.b

    def __call__(self, x):
        return (x - self.b) / self.a


def parts(E, n, D, Ns):
    """predictions of the surrogate, density of the posterior and state, each any value allowed by the
    contract of the function that produces it"""
    np = E.np
    fm, fv = E.real("fm", n, Ns), E.pos("fv", n, Ns)
    p = E.nonneg("p", n, 1)
    calls = []

    def predict(*a, **k):
        g = named(("x_star", "y_star", "s2_star", "add_noise", "separate_samples", "return_lpd"), a, k, add_noise=False, separate_samples=False)
        calls.append(("predict", g.x_star.copy(), g.add_noise, g.separate_samples))
        return fm.copy(), fv.copy()

    def pdf(*a, **k):
        g = named(("x", "orig_flag", "log_flag"), a, k, orig_flag=True, log_flag=False)
        calls.append(("pdf", g.x.copy(), g.orig_flag))
        if g.log_flag:
            return np.log(p)
        return p.copy()

    lo, hi = E.real("lb_eps", 1, D), E.real("ub_eps", 1, D)
    state = dict(integer_vars=np.full(D, False), lb_eps_orig=lo, ub_eps_orig=hi)
    return NS(fm=fm, fv=fv, p=p, calls=calls, gp=NS(predict=predict, temporary_data={}), vp=NS(pdf=pdf, parameter_transformer=BoxMap(E, D)), lo=lo, hi=hi, state=state, z=E.real("y_max"))


def make(E, kind):
    return dict(plain=lambda: E.imp(AF + ".acq_fcn").AcqFcn(), log=lambda: E.imp(AF + ".acq_fcn_log").AcqFcnLog(), vanilla=lambda: E.imp(AF + ".acq_fcn_vanilla").AcqFcnVanilla(),
                noisy=lambda: E.imp(AF + ".acq_fcn_noisy").AcqFcnNoisy())[kind]()


@contract("C15", targets=["AbstractAcqFcn.__call__", "AcqFcn._compute_acquisition_function", "AcqFcnLog._compute_acquisition_function", "AcqFcnVanilla._compute_acquisition_function"],
          cases=[dict(kind=k, reg=0) for k in ("plain", "log", "vanilla")], shapes=SHAPES)
def acquisition_value(E):
    """for any surrogate prediction, posterior density and points: the value of every point is the documented
    one computed from that point alone, infinite outside the allowed box, with nothing modified"""
    value(E)


@contract("C15", targets=["AbstractAcqFcn.__call__"], cases=[dict(kind=k, reg=1) for k in ("plain", "log", "vanilla")], shapes=SHAPES[:2])
def regularised_value(E):
    """the same with the variance regularisation on, on either side of its threshold"""
    value(E)


def value(E):
    np = E.np
    kind = E.case["kind"]
    n, D, Ns = E.dim("n"), E.dim("D", 1, 3), E.dim("Ns", 1, 3)
    s = parts(E, n, D, Ns)
    tol = E.pos("tol_gp_var")
    s.state.update(tol_gp_var=tol, variance_regularized_acq_fcn=bool(E.case["reg"]))
    X = E.real("X", n, D)
    X0, lo0, hi0 = X.copy(), s.lo.copy(), s.hi.copy()
    f = make(E, kind)
    r = f(X, s.gp, s.vp, NS(y_max=s.z), s.state)
    E.same("points not modified", X, X0)
    E.same("bounds not modified", s.lo, lo0)
    E.same("bounds not modified (upper)", s.hi, hi0)
    E.ok("one value per point", r.shape == (n,))
    i = E.int("i", 0, n - 1)
    m = sum(s.fm[i, k] for k in range(Ns)) / Ns
    v = sum(s.fv[i, k] for k in range(Ns)) / Ns
    if Ns > 1:
        v = v + sum((s.fm[i, k] - m) ** 2 for k in range(Ns)) / (Ns - 1)
    xo = [X0[i, d] * s.vp.parameter_transformer.a[d] + s.vp.parameter_transformer.b[d] for d in range(D)]
    for c in s.calls:
        E.eq("asked at the points", c[1], X0)
        E.ok("asked as needed", (c[0] == "predict" and c[2] is False and c[3] is True) or (c[0] == "pdf" and c[2] is False))
    out = False
    for d in range(D):
        out = out or E.is_true(xo[d] < lo0[0, d]) or E.is_true(xo[d] > hi0[0, d])
    if out:
        E.eq("outside the allowed box", r[i], np.inf)
        return
    q = s.p[i, 0]
    low = E.is_true(q <= TINY)
    if kind == "log":
        lq = np.log(TINY) if low else np.log(q)
        a = -(np.log(v) + m - s.z + lq)
    else:
        q = TINY if low else q
        a = -v * np.exp(m - s.z) * q if kind == "plain" else -v * q * q
    if E.case["reg"] and E.is_true(v < tol):
        w = tol / v - 1
        a = a + w if kind == "log" else a * np.exp(-w)
    if E.is_true(a >= -sys.float_info.max):
        E.eq("documented value", r[i], a)
    else:
        E.eq("never minus infinity", r[i], -sys.float_info.max)


@contract("C15", targets=["AcqFcnNoisy._compute_acquisition_function", "AbstractAcqFcn._estimate_observation_noise"], cases=[dict()], shapes=[dict(D=1), dict(D=2)])
def noisy_acquisition(E):
    """with noisy targets: the noise at a point is that of a nearest training input (in GP length
    scales), and the value is the documented reduction of the variance"""
    np = E.np
    n, D, N = E.dim("n"), E.dim("D", 1, 2), E.dim("N")
    s = parts(E, n, D, 1)
    Xr, sn2 = E.real("Xr", N, D), E.pos("sn2", N)
    ell = E.pos("ell", D)
    s.gp.temporary_data = dict(X_rescaled=Xr, sn2_new=sn2)
    s.state.update(gp_length_scale=ell)
    X = E.real("X", n, D)
    f = make(E, "noisy")
    nb = f._estimate_observation_noise(X, s.gp, s.state)
    E.ok("one noise value per point", nb.shape == (n,))
    fmu = E.real("fbar", n)
    vt = E.pos("vtot", n)
    r = f._compute_acquisition_function(X, s.vp, s.gp, NS(y_max=s.z), s.state, s.fm, s.fv, fmu, vt)
    i = E.int("i", 0, n - 1)
    q = TINY if E.is_true(s.p[i, 0] <= TINY) else s.p[i, 0]
    d = np.sum((X[i : i + 1] / ell - Xr) ** 2, axis=1)
    E.ok("noise of a nearest training input", np.any((sn2 == nb[i]) & (d <= np.min(d) if E.sym else d <= np.min(d) * (1 + 1e-7) + 1e-9)))
    E.eq("documented value", r[i], -vt[i] * (1 - nb[i] / (vt[i] + nb[i])) * np.exp(fmu[i] - s.z) * q)


@contract("C15", targets=["AbstractAcqFcn._sq_dist"], cases=[dict()], shapes=[dict(D=1), dict(D=2)])
def squared_distance(E):
    """squared Euclidean distance of every pair, for all points"""
    np = E.np
    n, m, D = E.dim("n"), E.dim("m"), E.dim("D", 1, 2)
    A, B = E.real("A", n, D), E.real("B", m, D)
    A0, B0 = A.copy(), B.copy()
    c = E.imp(AF + ".abstract_acq_fcn").AbstractAcqFcn._sq_dist(A, B)
    i, j = E.int("i", 0, n - 1), E.int("j", 0, m - 1)
    E.ok("shape", c.shape == (n, m))
    E.eq("squared distance", c[i, j], sum((A0[i, d] - B0[j, d]) ** 2 for d in range(D)))
    E.same("first set unchanged", A, A0)
    E.same("second set unchanged", B, B0)


@contract("C15", targets=["AbstractAcqFcn._real2int"], cases=[dict(mask=k) for k in ((0, 0), (1, 0), (0, 1), (1, 1))] + [dict(mask=k, one=True) for k in ((1, 0), (1, 1))], shapes=[dict(n=1), dict(n=2)], trials=20)
def integer_inputs(E):
    """points move to the nearest integers in the integer coordinates only"""
    np = E.np
    n, D = E.dim("n", 1, 3), 2
    pt = BoxMap(E, D)
    mask = np.array([bool(v) for v in E.case["mask"]])
    X = E.real("X", n, D)
    X0 = X.copy()
    one = E.case.get("one", False)
    A = X[0] if one else X
    r = E.imp(AF + ".abstract_acq_fcn").AbstractAcqFcn._real2int(A, pt, mask)
    E.same("points not modified", X, X0)
    if one:
        E.ok("a single point stays a vector", r.shape == (D,))
        r = r.reshape((1, D))
    for i in range(1 if one else n):
        for d in range(D):
            if E.case["mask"][d]:
                o = r[i, d] * pt.a[d] + pt.b[d]
                E.ok(f"nearest integer [{i},{d}]", (np.abs(o - (X0[i, d] * pt.a[d] + pt.b[d])) <= 0.5 * (1 + 1e-9)) & (np.abs(o - np.floor(o + 0.5)) <= 1e-9 * (1 + np.abs(o))))
            else:
                E.eq(f"other coordinates [{i},{d}]", r[i, d], X0[i, d])


@contract("C15", targets=["AcqFcnVIQR._compute_acquisition_function", "AcqFcnIMIQR._compute_acquisition_function", "active_importance_sampling"], sym=False, trials=40,
          cases=[dict(kind=k, Ns=n) for k in ("viqr", "imiqr") for n in (1, 2)])
def integrated_acquisition(E):
    """bounded (real surrogates from gpyreg, random inputs): the value is the log of the average over
    surrogate samples of sum_j w_j 2 sinh(u s_j), with s_j the surrogate's standard deviation at the
    importance point j after an observation at the candidate; the cross-covariances are those of the surrogate"""
    import gpyreg as gpr
    import numpy as np

    kind, Ns = E.case["kind"], E.case["Ns"]
    D, N, n, Na = E.dim("D", 1, 3), 3 + E.int("N", 0, 5), E.int("n", 1, 4), E.int("Na", 1, 6)
    X, y = 2 * E.real("X", N, D), E.real("y", N, 1)
    hyp = np.hstack([0.3 * E.real("ell", Ns, D), 0.3 * E.real("sf", Ns, 1), -1 + 0.3 * E.real("sn", Ns, 1), E.real("m0", Ns, 1)])
    gp = gpr.GP(D=D, covariance=gpr.covariance_functions.SquaredExponential(), mean=gpr.mean_functions.ConstantMean(), noise=gpr.noise_functions.GaussianNoise(constant_add=True))
    gp.update(X_new=X, y_new=y, hyp=hyp)
    Xs, Xa = 2 * E.real("Xs", n, D), 2 * E.real("Xa", Na, D)
    sn2 = np.exp(2 * hyp[:, D + 1])

    def k(s, A, B):
        d = (A[:, None, :] - B[None, :, :]) / np.exp(hyp[s, :D])
        return np.exp(2 * hyp[s, D]) * np.exp(-0.5 * np.sum(d**2, axis=2))

    def post(s, A, B):
        return k(s, A, B) - k(s, A, X) @ np.linalg.solve(k(s, X, X) + sn2[s] * np.eye(N), k(s, X, B))

    f = E.imp(AF + ".acq_fcn_" + kind)
    f = f.AcqFcnVIQR() if kind == "viqr" else f.AcqFcnIMIQR()
    ais = E.imp("pyvbmc.vbmc.active_importance_sampling").active_importance_sampling
    vp = NS(K=1, sample=lambda *a, **kw: (Xa.copy(), None))
    opt = NS(eval=lambda key, d: Na, get=lambda *a: None)
    info = dict(f.acq_info)
    f.acq_info = dict(info, variational_importance_sampling=True, mcmc_importance_sampling=False)
    if kind == "viqr":
        st = ais(vp, gp, f, opt)
        E.eq("importance points", st["X"], Xa)
    else:
        st = dict(X=Xa, f_s2=np.stack([np.diag(post(s, Xa, Xa)) for s in range(Ns)], axis=1), K_Xa_X=np.stack([k(s, Xa, X) for s in range(Ns)]), ln_weights=E.real("lw", Ns, Na))
    f.acq_info = info
    for s in range(Ns):
        E.eq("kernel between importance points and data", st["K_Xa_X"][s], k(s, Xa, X))
        E.eq("variance at the importance points", st["f_s2"][:, s], np.diag(post(s, Xa, Xa)), rtol=1e-5)
        if kind == "viqr":
            E.eq("solved kernel", st["C_tmp"][s], np.linalg.solve(k(s, X, X) + sn2[s] * np.eye(N), k(s, X, Xa)), rtol=1e-5)
    lw = st["ln_weights"] if kind == "imiqr" else np.zeros((Ns, Na))
    obs = E.pos("obs_noise", N)
    ell = np.exp(hyp[:, :D]).mean(axis=0)
    gp.temporary_data = dict(X_rescaled=X / ell, sn2_new=obs)
    near = np.array([np.argmin(np.sum(((x - X) / ell) ** 2, axis=1)) for x in Xs])
    fm, fv = gp.predict(Xs, separate_samples=True)
    keep = Xs.copy(), Xa.copy()
    r = f._compute_acquisition_function(Xs, vp, gp, None, dict(active_importance_sampling=st, gp_length_scale=ell), fm, fv, None, None)
    E.same("candidates unchanged", Xs, keep[0])
    E.same("importance points unchanged", Xa, keep[1])
    u = 0.6744897501960817
    want = np.zeros((n, Ns))
    for s in range(Ns):
        c = post(s, Xs, Xa)
        s2 = np.diag(post(s, Xa, Xa))[None, :] - c**2 / (fv[:, [s]] + obs[near][:, None])
        if np.min(s2) < 1e-5:
            E.assume(False)
        want[:, s] = np.sum(np.exp(lw[s]) * 2 * np.sinh(u * np.sqrt(s2)), axis=1)
    E.eq("documented value", np.ravel(r), np.log(np.mean(want, axis=1)), rtol=1e-4)
    tol = 10.0 ** E.int("logtol", -3, 3)
    lo, hi = np.full((1, D), -np.inf), np.full((1, D), np.inf)
    lo[0, 0] = np.median(Xs[:, 0]) - 1.0
    full = dict(active_importance_sampling=st, gp_length_scale=ell, integer_vars=np.full(D, False), variance_regularized_acq_fcn=True, tol_gp_var=tol, lb_eps_orig=lo, ub_eps_orig=hi)
    vp.parameter_transformer = NS(inverse=lambda v: v.copy())
    r2 = f(Xs, gp, vp, None, full)
    tot = fv.mean(axis=1) + (fm.var(axis=1, ddof=1) if Ns > 1 else 0)
    reg = np.where(tot < tol, tol / tot - 1, 0)
    E.eq("regularised, bounded and one value per point", r2, np.where(Xs[:, 0] < lo[0, 0], np.inf, np.ravel(r) + reg))


@contract("C15", targets=["VBMC._init_optim_state", "AbstractAcqFcn.__call__"], sym=False, trials=6, cases=[dict(D=d) for d in (1, 2)])
def default_regularisation(E):
    """bounded: in a freshly set-up run, points where the surrogate is more certain than tol_gp_var are
    penalised, as documented, and points within the bound margin are discarded"""
    import numpy as np

    D = E.case["D"]
    tol = float(E.pos("tol"))
    lb, ub = np.full((1, D), -1.0), np.full((1, D), 2.0)
    vb = E.imp("pyvbmc.vbmc.vbmc").VBMC(lambda x: -np.sum(x**2), np.zeros((1, D)), lb, ub, lb + 0.5, ub - 0.5, options=dict(tol_gp_var=tol, display="off"))
    vb.vp.sigma = np.ones_like(vb.vp.sigma)
    X = np.vstack([0.3 * np.tanh(E.real("X", 4, D)), vb.parameter_transformer(np.full((1, D), -1 + 1e-12)), vb.parameter_transformer(np.full((1, D), 2 - 1e-12))])
    n = len(X)
    fm, fv = E.real("fm", n, 2), E.pos("fv", n, 2)
    m, v = fm.mean(axis=1), fv.mean(axis=1) + fm.var(axis=1, ddof=1)
    gp = NS(predict=lambda *a, **k: (fm, fv))
    p = vb.vp.pdf(X, orig_flag=False).ravel()
    got = E.imp(AF + ".acq_fcn").AcqFcn()(X, gp, vb.vp, NS(y_max=0.3), vb.optim_state)
    want = -v * np.exp(m - 0.3) * np.maximum(p, TINY) * np.where(v < tol, np.exp(-(tol / v - 1)), 1)
    want[4:] = np.inf
    E.eq("value in a fresh run", got, want)
