from vc.harness import contract
from contracts._common import AffineTransform, any_vp
from contracts.c01_transform import CODE, any_transformer

DF = ("inf", "zero", "pos", "neg")


def dof(E):
    """any degrees of freedom of the given class"""
    k = E.case["df"]
    if k in ("inf", "zero"):
        return float("inf") if k == "inf" else 0.0
    v = E.pos("df") if E.sym else E.choice("df", [0.5, 1.0, 3.0, 7.5, 40.0])
    return v if k == "pos" else -v


SH = [dict(D=1), dict(D=2), dict(D=3)]
T = ["VariationalPosterior.pdf"]


def comp_density(E, vp, x, N, D, K, df):
    """(N, K) component densities, from the documented formulas"""
    np = E.np
    z = (x.reshape(N, D, 1) - vp.mu.reshape(1, D, K)) / (vp.sigma.reshape(1, 1, K) * vp.lambd.reshape(1, D, 1))
    sc = np.prod(vp.sigma.reshape(1, 1, K) * vp.lambd.reshape(1, D, 1), axis=1)
    if E.case.get("df", "inf") in ("inf", "zero"):
        return np.exp(-0.5 * np.sum(z**2, axis=1)) / (2 * np.pi) ** (D / 2) / sc
    G = E.gammaln
    if E.case["df"] == "pos":
        c = np.exp(G((df + D) / 2) - G(df / 2)) / (df * np.pi) ** (D / 2)
        return c / sc * (1 + np.sum(z**2, axis=1) / df) ** (-(df + D) / 2)
    a = -df
    c = np.exp(G((a + 1) / 2) - G(a / 2)) / np.sqrt(a * np.pi)
    return c**D / sc * np.prod((1 + z**2 / a) ** (-(a + 1) / 2), axis=1)


def mix(E, vp, x, N, D, K, df):
    np = E.np
    return np.sum(vp.w.reshape(1, K) * comp_density(E, vp, x, N, D, K, df), axis=1).reshape(N, 1)


@contract("C08", targets=T, cases=[dict(df=d) for d in DF], shapes=SH)
def density(E):
    """pdf in inference space is the documented mixture density, for Gaussian and both
    heavy-tailed forms; the points are not modified"""
    N, D, K = E.dim("N"), E.dim("D", 1, 4), E.dim("K")
    df = dof(E)
    vp = any_vp(E, D, K)
    x = E.real("x", N, D)
    x0 = x.copy()
    y = vp.pdf(x, orig_flag=False, df=df)
    E.eq("pdf == sum_k w_k q_k", y, mix(E, vp, x0, N, D, K, df), atol=0)
    E.same("points unchanged", x, x0)


@contract("C08", targets=T + ["VariationalPosterior.log_pdf"], cases=[dict(df=d) for d in DF], shapes=SH[:2])
def log_density(E):
    """log form is the logarithm of the density; -inf exactly where the density is zero"""
    np = E.np
    N, D, K = E.dim("N"), E.dim("D", 1, 4), E.dim("K")
    df = dof(E)
    vp = any_vp(E, D, K)
    x = E.real("x", N, D)
    n = E.int("n", 0, N - 1)
    q = vp.pdf(x, orig_flag=False, df=df)[n, 0]
    y = vp.pdf(x, orig_flag=False, log_flag=True, df=df)[n, 0]
    if E.is_true(q == 0):
        E.eq("log of zero", y, -np.inf)
    else:
        E.assume(q > (0 if E.sym else 1e-290))
        E.eq("log form", y, np.log(q))
    E.eq("log_pdf", vp.log_pdf(x, orig_flag=False, df=df)[n, 0], y)


@contract("C08", targets=T, cases=[dict(log=l) for l in (0, 1)], shapes=SH)
def gradient(E):
    """returned gradient is the derivative of the returned (log) density"""
    np = E.np
    N, D, K = E.dim("N"), E.dim("D", 1, 4), E.dim("K")
    vp = any_vp(E, D, K)
    lg = bool(E.case["log"])
    x = E.real("x", N, D)
    n = E.int("n", 0, N - 1)
    z0 = E.real("z", D)
    x[n] = z0
    q0 = vp.pdf(x, orig_flag=False)[n, 0]
    E.assume(q0 > (0 if E.sym else 1e-250))
    y, dy = vp.pdf(x, orig_flag=False, log_flag=lg, grad_flag=True)
    E.eq("value with gradient == value without", y[n, 0], vp.pdf(x, orig_flag=False, log_flag=lg)[n, 0])
    J = E.jac(lambda z: vp.pdf(z.reshape(1, -1), orig_flag=False)[0, 0], z0)
    E.eq("gradient", dy[n] * (q0 if lg else 1), J, rtol=1e-3, atol=1e-5)


@contract("C08", targets=T, cases=[dict(log=l, df=d, bnd=b) for l in (0, 1) for d in ("inf", "pos", "neg") for b in ((0, 1) if d == "inf" else (1,))], shapes=SH[:2])
def original_space(E):
    """in the original space: density of the transformed point divided by the volume change inside
    the hard bounds, exactly zero (log: -inf) outside them; the caller's points are not modified.
    The transform enters by its contract."""
    np = E.np
    N, D, K = E.dim("N"), E.dim("D", 1, 4), E.dim("K")
    df = dof(E)
    lg = bool(E.case["log"])
    pt = AffineTransform(E, D)
    if E.case["bnd"]:
        pt.lb_orig, w = E.real("lb", 1, D), E.pos("width", 1, D)
        pt.ub_orig = pt.lb_orig + w
    else:
        pt.lb_orig, pt.ub_orig = np.full((1, D), -np.inf), np.full((1, D), np.inf)
    vp = any_vp(E, D, K, not E.sym, pt)
    x = E.real("x", N, D)
    x0 = x.copy()
    y = vp.pdf(x, orig_flag=True, log_flag=lg, df=df)
    E.same("points unchanged", x, x0)
    n = E.int("n", 0, N - 1)
    if not E.is_true(np.all((x0[n] > pt.lb_orig) & (x0[n] < pt.ub_orig))):
        E.eq("zero outside the hard bounds", y[n, 0], -np.inf if lg else 0.0)
        return
    u = pt(x0[n].reshape(1, D))
    q = vp.pdf(u, orig_flag=False, df=df, log_flag=lg)[0, 0]
    J = pt.log_abs_det_jacobian(u)[0]
    E.eq("density / |det J|", y[n, 0], q - J if lg else q / np.exp(J))


@contract("C08", targets=T, sym=False, cases=[dict(t=t, log=l, df=d) for t in CODE for l in (0, 1) for d in DF], trials=15)
def original_space_real_transform(E):
    """the same with the real transform"""
    np = E.np
    N, D, K = E.dim("N"), E.dim("D", 1, 4), E.dim("K")
    df = dof(E)
    lg = bool(E.case["log"])
    pt, m, lbf, w = any_transformer(E, D, E.case["t"])
    vp = any_vp(E, D, K, not E.sym, pt)
    x = E.real("x", N, D)
    if E.bool("whole"):
        x = np.round(x).astype(int)
    inside = np.all((x > pt.lb_orig) & (x < pt.ub_orig), axis=1)
    y = vp.pdf(x, orig_flag=True, log_flag=lg, df=df)
    for n in range(N):
        if not inside[n]:
            E.eq("zero outside the hard bounds", y[n, 0], -np.inf if lg else 0.0)
            continue
        u = pt(x[n].reshape(1, D).astype(float))
        q = mix(E, vp, u, 1, D, K, df)[0, 0]
        if q > 1e-250:
            J = pt.log_abs_det_jacobian(u)[0]
            E.eq("density / |det J|", y[n, 0], np.log(q) - J if lg else q / np.exp(J))


@contract("C08", targets=["VariationalPosterior.sample"], sym=False, cases=[dict(bal=b, orig=o) for b in (0, 1) for o in (0, 1)], trials=15)
def samples(E):
    """samples: right shape, inside the hard bounds, standardised residuals of each component have
    zero mean and unit variance (6 sigma), components drawn with the mixture weights (balanced:
    within one draw of N w, plus the remainder)"""
    np = E.np
    D, K = E.dim("D", 1, 3), E.dim("K", 1, 4)
    pt, m, lbf, w = any_transformer(E, D, "logit")
    E.assume(np.all(w > 1e-6 * (1 + np.abs(lbf))))
    vp = any_vp(E, D, K, True, pt)
    pt.lb_orig, pt.ub_orig = np.where(m, pt.lb_orig, -np.inf), np.where(m, pt.ub_orig, np.inf)
    N = E.choice("n_samples", [1, 7, 1000, 4000])
    X, i = vp.sample(N, orig_flag=bool(E.case["orig"]), balance_flag=bool(E.case["bal"]))
    i = np.asarray(i).ravel().astype(int)
    E.ok("shape", X.shape == (N, D) and i.shape == (N,))
    if E.case["orig"]:
        E.ok("inside the hard bounds", bool(np.all((X >= pt.lb_orig) & (X <= pt.ub_orig))))
        return
    n = np.bincount(i, minlength=K)
    Nw = N * vp.w.ravel()
    if E.case["bal"] and K > 1:
        E.ok("balanced: counts", bool(np.all(n >= np.floor(Nw) - 1) and np.all(n <= np.floor(Nw) + K)))
    elif K > 1:
        E.ok("components drawn with the weights", bool(np.all(np.abs(n - Nw) <= 6 * np.sqrt(Nw * (1 - vp.w.ravel())) + 6)))
    z = (X - vp.mu.T[i]) / (vp.lambd.reshape(1, -1) * vp.sigma.ravel()[i][:, None])
    s = 6 / np.sqrt(N)
    E.ok("residual mean", bool(np.all(np.abs(z.mean(0)) <= s + 1e-6)))
    if N >= 1000:
        E.ok("residual variance", bool(np.all(np.abs(z.var(0) - 1) <= s * 1.5)))


@contract("C08", targets=["VariationalPosterior.mode"], sym=False, cases=[dict(orig=o) for o in (0, 1)], trials=2)
def mode(E):
    """the reported mode lies inside the hard bounds and has at least the density of every
    component mean (up to the optimiser's tolerance); asking again gives the same point"""
    np = E.np
    D, K = E.dim("D", 1, 2), E.dim("K", 1, 3)
    pt, m, lbf, w = any_transformer(E, D, "logit", m=np.zeros(D, dtype=bool))
    vp = any_vp(E, D, K, not E.sym, pt)
    pt.lb_orig, pt.ub_orig = np.full((1, D), -np.inf), np.full((1, D), np.inf)
    o = bool(E.case["orig"])
    x = np.atleast_1d(vp.mode(o))
    E.ok("shape", x.shape == (D,))
    mu = pt.inverse(vp.mu.T.copy()) if o else vp.mu.T
    best = np.max(vp.pdf(mu, orig_flag=o, log_flag=True))
    E.ok("density at least that of the component means", float(vp.pdf(x.reshape(1, -1), orig_flag=o, log_flag=True)[0, 0]) >= best - 1e-3)
    if o:
        E.eq("cached", np.atleast_1d(vp.mode(o)), x)
