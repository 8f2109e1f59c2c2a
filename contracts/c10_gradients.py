from vc.harness import NS, contract
from contracts._common import any_vp, named

VO = "pyvbmc.vbmc.variational_optimization"
DK = [dict(D=1, K=1), dict(D=2, K=1), dict(D=1, K=2), dict(D=2, K=2)]
GR = ("mu", "s", "l", "w")


def free(E, vp, D, K):
    """free parameter arrays of the four groups: mu, sigma, lambda, w"""
    return dict(mu=vp.mu, s=E.pos("sg", K), l=E.pos("lm", D), w=E.pos("wt", K))


def put(vp, D, K, mu, s, l, w):
    vp.mu, vp.sigma, vp.lambd, vp.w = mu, s.reshape(1, K), l.reshape(D, 1), w.reshape(1, K)


def check_grad(E, f, vp, D, K, P, dF, group, rtol=1e-3, atol=2e-5):
    """dF[group] is the derivative of f (a scalar read off vp) with respect to that group"""
    size = dict(mu=D * K, s=K, l=D, w=K)
    E.eq("length of the gradient", dF.size, sum(size.values()))
    o = 0
    for g in GR:
        if g == group:
            break
        o += size[g]

    def h(z):
        put(vp, D, K, **{**P, group: z})
        return f()

    J = E.jac(h, P[group])
    put(vp, D, K, **P)
    if group == "mu":
        J = J.ravel(order="F")
    E.eq(f"derivative with respect to {group}", dF[o:o + size[group]], J, rtol=rtol, atol=atol)


def check_chain(E, vp, D, K, d1, d0, eta):
    """d1 (log/softmax parameters) follows from d0 (plain parameters) by the chain rule"""
    np = E.np
    s, l = vp.sigma.ravel(), vp.lambd.ravel()
    sm = E.jac(lambda z: np.exp(z) / np.sum(np.exp(z)), eta)
    o = D * K
    E.eq("means: unchanged", d1[:o], d0[:o])
    E.eq("log scales", d1[o:o + K], d0[o:o + K] * s)
    o += K
    E.eq("log lengths", d1[o:o + D], d0[o:o + D] * l)
    o += D
    E.eq("softmax weights", d1[o:], np.sum(sm * d0[o:].reshape(K, 1), axis=0))


@contract("C10", name="entropy_lower_bound_K3", targets=["entlb_vbmc"], cases=[dict(grad=g) for g in ("mu", "l", "w")], shapes=[dict(D=1, K=3)], conc=False)
@contract("C10", targets=["entlb_vbmc"], cases=[dict(grad=g) for g in GR], shapes=DK, trials=25)
def entropy_lower_bound(E):
    """deterministic entropy bound: value is the documented bound, gradient is its derivative"""
    np = E.np
    D, K = E.dim("D", 1, 3), E.dim("K", 1, 4)
    M = E.imp("pyvbmc.entropy.entlb_vbmc")
    vp = any_vp(E, D, K)
    P = free(E, vp, D, K)
    put(vp, D, K, **P)
    H, dH = M.entlb_vbmc(vp, (True,) * 4, False)
    if K > 1:
        sg = np.sqrt(vp.sigma.reshape(1, K) ** 2 + vp.sigma.reshape(K, 1) ** 2).reshape(K, K, 1) * vp.lambd.reshape(1, 1, D)
        d = vp.mu.T.reshape(K, 1, D) - vp.mu.T.reshape(1, K, D)
        g = np.prod(1 / (np.sqrt(2 * np.pi) * sg), axis=2) * np.exp(-0.5 * np.sum((d / sg) ** 2, axis=2))
        E.eq("value", H, -np.sum(vp.w.ravel() * np.log(np.sum(vp.w.reshape(1, K) * g, axis=1))))
    else:
        E.eq("value (exact for one component)", H, np.sum(0.5 * np.log(2 * np.pi * vp.sigma.reshape(1, 1) ** 2 * vp.lambd**2)) + 0.5 * D)
    if K > 1 or E.case["grad"] != "w":
        check_grad(E, lambda: M.entlb_vbmc(vp, (False,) * 4, False)[0], vp, D, K, P, dH, E.case["grad"])


@contract("C10", targets=["entlb_vbmc", "entmc_vbmc"], cases=[dict(which="lb"), dict(which="mc")], shapes=DK, trials=40)
def entropy_chain(E):
    """gradient in log scales, log lengths and softmax weights follows by the chain rule; each group on its own"""
    np = E.np
    D, K = E.dim("D", 1, 3), E.dim("K", 1, 4)
    mc = E.case["which"] == "mc"
    f = E.imp("pyvbmc.entropy.entmc_vbmc").entmc_vbmc if mc else E.imp("pyvbmc.entropy.entlb_vbmc").entlb_vbmc
    vp = any_vp(E, D, K)
    eta = E.real("eta1", K)
    vp.eta = eta.reshape(1, K)
    rec = E.rng_log() if mc else None

    def run(fl, jac):
        if mc:
            r = f(vp, 2, fl, jac)
            E.rng_replay(rec)
            return r
        return f(vp, fl, jac)

    H1, d1 = run((True,) * 4, True)
    H0, d0 = run((True,) * 4, False)
    E.eq("same value", H1, H0)
    check_chain(E, vp, D, K, d1, d0, eta)
    o = [0, D * K, D * K + K, D * K + K + D, D * K + 2 * K + D]
    for i in range(4):
        E.eq("one group on its own", run(tuple(j == i for j in range(4)), True)[1], d1[o[i]:o[i + 1]])


@contract("C10", targets=["_soft_bound_loss"], trials=40)
def soft_bound_loss(E):
    """zero inside the bounds, quadratic outside, gradient is the derivative"""
    np = E.np
    M = E.imp(VO)
    n = E.dim("n")
    x, lb, w, tol = E.real("x", n), E.real("lb", n), E.pos("width", n), E.pos("tol")
    ub = lb + w
    y, dy = M._soft_bound_loss(x, lb, ub, tol, True)
    E.eq("value without gradient", M._soft_bound_loss(x, lb, ub, tol), y)
    ell = w * tol
    under, over = np.where(x < lb, lb - x, 0.0), np.where(x > ub, x - ub, 0.0)
    E.eq("value", y, 0.5 * np.sum((under / ell) ** 2) + 0.5 * np.sum((over / ell) ** 2))
    E.eq("gradient", dy, over / ell**2 - under / ell**2)


FL = [dict(mu=m, s=s, l=l, w=w) for m in (0, 1) for s in (0, 1) for l in (0, 1) for w in (0, 1) if m or s or l or w]


@contract("C10", targets=["_vp_bound_loss", "_soft_bound_loss"], cases=FL, shapes=DK + [dict(D=2, K=3)], trials=15)
def bound_loss(E):
    """the bound penalty is that of the means, the log scales sigma*lambda and the log weights,
    whichever groups are optimised, and its gradient is its derivative"""
    np = E.np
    M = E.imp(VO)
    D, K = E.dim("D", 1, 3), E.dim("K", 1, 3)
    c = E.case
    vp = any_vp(E, D, K, **c)
    mu, ls, ll, eta = E.real("t_mu", D, K), E.real("t_s", K), E.real("t_l", D), E.real("t_w", K)
    parts, ext = [], []
    if c["mu"]:
        parts.append(mu.ravel(order="F"))
        ext.append(mu.ravel(order="F"))
    if c["s"]:
        parts.append(ls)
    if c["l"]:
        parts.append(ll)
    L0, S0 = (ll if c["l"] else np.log(vp.lambd.ravel())), (ls if c["s"] else np.log(vp.sigma.ravel()))
    sc = L0.reshape(D, 1) + S0.reshape(1, K)
    if c["s"] or c["l"]:
        ext.append(sc.ravel(order="F"))
    if c["w"]:
        parts.append(eta)
        ext.append(eta)
    th, ex = np.concatenate(parts), np.concatenate(ext)
    n = ex.size
    lb = E.real("lb", n)
    ub = lb + E.pos("width", n)
    tol = E.pos("tol")
    y, dy = M._soft_bound_loss(ex, lb, ub, tol, True)
    keep = th.copy()
    L, dL = M._vp_bound_loss(vp, th, dict(lb=lb, ub=ub), tol, True)
    E.eq("value", L, y)
    E.eq("value without gradient", M._vp_bound_loss(vp, th, dict(lb=lb, ub=ub), tol, False), y)
    E.eq("vector unchanged", th, keep)
    o, q = 0, 0
    g = []
    if c["mu"]:
        g.append(dy[:D * K])
        q = D * K
    if c["s"] or c["l"]:
        ds = dy[q:q + D * K].reshape(K, D)
        if c["s"]:
            g.append(np.sum(ds, axis=1))
        if c["l"]:
            g.append(np.sum(ds, axis=0))
        q += D * K
    if c["w"]:
        g.append(dy[q:])
    E.eq("gradient (chain rule)", dL, np.concatenate(g))


def any_gp(E, M, D, N, Ns, mean, chol=False):
    """arbitrary GP posterior with squared exponential covariance and Ns hyperparameter samples;
    alpha, L, sW are whatever the GP library computed (arbitrary arrays)"""
    np = E.np
    mf = M.gpr.mean_functions
    nm = dict(zero=0, const=1, quad=1 + 2 * D)[mean]
    post = []
    for s in range(Ns):
        post.append(NS(hyp=E.real("hyp", D + 2 + nm), alpha=E.real("alpha", N, 1), L=E.real("L", N, N), L_chol=bool(chol), sW=E.pos("sW", N)))
    return NS(X=E.real("X", N, D), D=D, posteriors=post, covariance=NS(hyperparameter_count=lambda D: D + 1),
              noise=NS(hyperparameter_count=lambda: 1),
              mean=dict(zero=mf.ZeroMean, const=mf.ConstantMean, quad=mf.NegativeQuadratic)[mean]())


def z_spec(E, gp, h, m, v, D):
    """integral of the covariance k(x, X_n) against N(x; m, diag v):  [N]"""
    np = E.np
    ell = np.exp(h[:D])
    tau = np.sqrt(v + ell**2)
    return np.exp(2 * h[D]) * np.prod(ell / tau) * np.exp(-0.5 * np.sum(((m - gp.X) / tau) ** 2, axis=1))


def mean_spec(E, h, m, v, D, mean):
    """integral of the GP mean function against N(x; m, diag v)"""
    np = E.np
    if mean == "zero":
        return 0.0
    if mean == "const":
        return h[D + 2]
    xm, om = h[D + 3:2 * D + 3], np.exp(h[2 * D + 3:3 * D + 3])
    return h[D + 2] - 0.5 * np.sum(((m - xm) ** 2 + v) / om**2)


@contract("C10", targets=["_gp_log_joint"], cases=[dict(mean=m, grad=g) for m in ("zero", "const", "quad") for g in GR],
          shapes=[dict(D=1, K=1, Ns=1), dict(D=1, K=2, Ns=1), dict(D=2, K=1, Ns=1), dict(D=2, K=2, Ns=2)], trials=20)
def expected_log_joint(E):
    """value is the exact expectation of the GP under the mixture; gradient is its derivative"""
    np = E.np
    M = E.imp(VO)
    D, K, N, Ns = E.dim("D", 1, 3), E.dim("K", 1, 3), E.dim("N"), E.dim("Ns", 1, 2)
    vp = any_vp(E, D, K)
    P = free(E, vp, D, K)
    put(vp, D, K, **P)
    mean, g = E.case["mean"], E.case["grad"]
    gp = any_gp(E, M, D, N, Ns, mean)

    def spec():
        r = 0.0
        for p in gp.posteriors:
            for k in range(K):
                m, v = vp.mu[:, k], vp.sigma[0, k] ** 2 * vp.lambd.ravel() ** 2
                r = r + vp.w[0, k] * (np.sum(z_spec(E, gp, p.hyp, m, v, D) * p.alpha.ravel()) + mean_spec(E, p.hyp, m, v, D, mean))
        return r / Ns

    vp.eta = E.real("eta1", K).reshape(1, K)
    fl = tuple(x == g for x in GR)
    G, dG, _, _, ss = M._gp_log_joint(vp, gp, fl, True, True, False)
    E.eq("value", G, spec())
    E.eq("no sampling variance without variances", ss, 0.0)
    E.eq("value without gradient", M._gp_log_joint(vp, gp, False, True, True, False)[0], G)

    def h(z):
        put(vp, D, K, **{**P, g: z})
        return spec()

    J = E.jac(h, P[g])
    put(vp, D, K, **P)
    if g == "mu":
        J = J.ravel(order="F")
    elif g == "s":
        J = J * vp.sigma.ravel()
    elif g == "l":
        J = J * vp.lambd.ravel()
    else:
        e = np.exp(vp.eta.ravel())
        sm = np.diag(e) / np.sum(e) - e.reshape(K, 1) * e.reshape(1, K) / np.sum(e) ** 2
        J = np.sum(sm * J.reshape(1, K), axis=1)
    E.eq(f"derivative with respect to {g} (chain rule to log/softmax parameters)", dG, J, rtol=1e-3, atol=2e-5)


@contract("C10", targets=["_gp_log_joint"], shapes=[dict(D=2, K=2, Ns=1), dict(D=1, K=2, Ns=2), dict(D=1, K=1, Ns=2)], trials=25)
def log_joint_all_groups(E):
    """the gradient lists the requested groups in order and the sample average is the mean over samples"""
    np = E.np
    M = E.imp(VO)
    D, K, N, Ns = E.dim("D", 1, 3), E.dim("K", 1, 3), E.dim("N"), E.dim("Ns", 1, 3)
    vp = any_vp(E, D, K)
    gp = any_gp(E, M, D, N, Ns, "quad")
    G, dG, _, _, _ = M._gp_log_joint(vp, gp, True, True, True, False)
    parts = [M._gp_log_joint(vp, gp, tuple(i == j for i in range(4)), True, True, False) for j in range(4)]
    E.eq("order of the groups", dG, np.concatenate([p[1] for p in parts]))
    R = M._gp_log_joint(vp, gp, True, False, True, False)
    if Ns > 1:
        E.eq("average over samples", G, np.sum(R[0]) / Ns)
        E.eq("average gradient", dG, np.sum(R[1], axis=1) / Ns)


def inverse(E, A, N):
    """an upper-triangular matrix and its inverse (symbolically: an opaque handle for the latter)"""
    if E.sym:
        return A, NS(handle=A)
    np = E.np
    A = np.triu(A) * 0.1
    A = A - np.diag(np.diag(A)) + np.eye(N)
    return A, np.linalg.inv(A)


@contract("C10", targets=["_gp_log_joint"], cases=[dict(chol=0), dict(chol=1)],
          trusted=["scipy.linalg.solve_triangular(L, b, trans): L^-1 b or L^-T b (assumed contract)"],
          shapes=[dict(D=1, K=1, Ns=1), dict(D=1, K=2, Ns=1), dict(D=2, K=2, Ns=1), dict(D=1, K=1, Ns=2), dict(D=1, K=2, Ns=2)], trials=20)
def log_joint_variance(E):
    """variance is that of the Bayesian quadrature; several samples add the spread of their means"""
    np = E.np
    M = E.imp(VO)
    D, K, N, Ns = E.dim("D", 1, 3), E.dim("K", 1, 3), E.dim("N"), E.dim("Ns", 1, 2)
    vp = any_vp(E, D, K)
    gp = any_gp(E, M, D, N, Ns, "const", E.case["chol"])
    tiny = np.spacing(1)
    vs, inv, chol = [], {}, E.case["chol"]
    if chol and E.sym:
        E.patch(M, "sp", NS(linalg=NS(solve_triangular=lambda L, b, trans=0, check_finite=True: (inv[id(L)].T if trans else inv[id(L)]) @ b)))
    for p in gp.posteriors:
        h = p.hyp
        ell = np.exp(h[:D])
        if chol:
            Q, p.L = inverse(E, p.L, N)
            inv[id(p.L)] = Q
            Q = -np.sum(Q.reshape(N, 1, N) * Q.reshape(1, N, N), axis=2) * p.sW[0] ** 2
        else:
            p.L = p.L + p.L.T
            Q = p.L
        V = 0.0
        zs = []
        for k in range(K):
            zs.append(z_spec(E, gp, h, vp.mu[:, k], vp.sigma[0, k] ** 2 * vp.lambd.ravel() ** 2, D))
        for k in range(K):
            for j in range(K):
                tau = np.sqrt((vp.sigma[0, j] ** 2 + vp.sigma[0, k] ** 2) * vp.lambd.ravel() ** 2 + ell**2)
                J = np.exp(2 * h[D]) * np.prod(ell / tau) * np.exp(-0.5 * np.sum(((vp.mu[:, j] - vp.mu[:, k]) / tau) ** 2))
                J = J + np.sum(zs[k].reshape(N, 1) * Q * zs[j].reshape(1, N))
                if j == k:
                    J = np.maximum(tiny, J)
                V = V + vp.w[0, j] * vp.w[0, k] * J
        vs.append(np.maximum(V, tiny))
    G, _, V, _, ss = M._gp_log_joint(vp, gp, False, True, True, True)
    Gs = [M._gp_log_joint(vp, NS(**{**gp.__dict__, "posteriors": [p]}), False, True, True, True)[0] for p in gp.posteriors]
    if Ns == 1:
        E.eq("variance", np.sum(V), vs[0])
        E.eq("no spread", ss, 0.0)
    else:
        gb = sum(Gs) / Ns
        sp = sum((g - gb) ** 2 for g in Gs) / (Ns - 1)
        E.eq("variance", np.sum(V), sum(vs) / Ns + sp)


def flagset(f):
    return tuple(bool(x) for x in f) if isinstance(f, (tuple, list)) else (bool(f),) * 4


@contract("C10", targets=["_neg_elcbo"], cases=[dict(mu=m, s=s, l=l, w=w, bnd=b) for m in (0, 1) for s in (0, 1) for l in (0, 1) for w in (0, 1)
                                                if m or s or l or w for b in (0, 1)],
          shapes=[dict(D=1, K=1), dict(D=2, K=2)], trials=10,
          trusted=["_gp_log_joint, entlb_vbmc, entmc_vbmc, _vp_bound_loss used by contract in the composition (own contracts in C10)"])
def negative_elcbo(E):
    """objective = -(expected log joint + entropy) + penalties and its gradient is the sum of theirs,
    in the caller's parameter order; the caller's vector is not changed"""
    np = E.np
    c = E.case
    M = E.imp(VO)
    D, K = E.dim("D", 1, 3), E.dim("K", 1, 3)
    vp = any_vp(E, D, K, **{k: c[k] for k in ("mu", "s", "l", "w")})
    flags = tuple(bool(c[k]) for k in ("mu", "s", "l", "w"))
    n = (D * K if c["mu"] else 0) + (K if c["s"] else 0) + (D if c["l"] else 0) + (K if c["w"] else 0)
    th = E.real("theta", n)
    keep = th.copy()
    G, dG, H, dH, L, dL = E.real("G"), E.real("dG", n), E.real("H"), E.real("dH", n), E.real("Lb"), E.real("dL", n)
    calls = []

    def glj(*a, **k):
        p = named(("vp", "gp", "grad_flags", "avg_flag", "jacobian_flag", "compute_var", "separate_K"), a, k, avg_flag=True, jacobian_flag=True)
        calls.append(("joint", flagset(p.grad_flags), bool(p.avg_flag), bool(p.jacobian_flag), p.vp.mu.copy(), p.vp.sigma.copy(), p.vp.w.copy()))
        return G, (dG.copy() if any(flagset(p.grad_flags)) else None), None, None, 0

    def ent(which):
        def f(*a, **k):
            names = ("vp",) + (("Ns",) if which == "mc" else ()) + ("grad_flags", "jacobian_flag")
            p = named(names, a, k, Ns=0, grad_flags=True, jacobian_flag=True)
            calls.append((which, flagset(p.grad_flags), p.Ns, bool(p.jacobian_flag), p.vp.mu.copy(), p.vp.sigma.copy(), p.vp.w.copy()))
            return H, (dH.copy() if any(flagset(p.grad_flags)) else None)
        return f

    def bl(*a, **k):
        p = named(("vp", "theta", "theta_bnd", "tol_con", "compute_grad"), a, k, tol_con=1e-3, compute_grad=True)
        calls.append(("bound", p.theta.copy(), p.theta_bnd, p.tol_con))
        return (L, dL.copy()) if p.compute_grad else L

    E.patch(M, "_gp_log_joint", glj)
    E.patch(M, "entlb_vbmc", ent("lb"))
    E.patch(M, "entmc_vbmc", ent("mc"))
    E.patch(M, "_vp_bound_loss", bl)
    thr, pen = E.pos("thr"), E.pos("pen")
    bnd = dict(tol_con=E.pos("tol"), weight_threshold=thr, weight_penalty=pen, lb=None, ub=None) if c["bnd"] else None
    Ns = E.choice("Ns", [0, 4])
    F, dF, G1, H1, vF = M._neg_elcbo(th, "gp", vp, 0.0, Ns, True, False, bnd)
    E.eq("vector unchanged", th, keep)
    names = [x[0] for x in calls]
    E.ok("terms used", names == ["joint", "mc" if Ns else "lb"] + (["bound"] if c["bnd"] else []))
    E.ok("gradients of the optimised groups, in log/softmax parameters", all(x[1] == flags and x[3] is True for x in calls[:2]))
    E.ok("averaged over samples", calls[0][2] is True)
    if c["bnd"]:
        E.eq("bound loss of the vector", calls[2][1], keep)
        E.ok("bound loss arguments", calls[2][2] is bnd)
        E.eq("bound loss tolerance", calls[2][3], bnd["tol_con"])
    if c["mu"]:
        E.eq("means from the vector", calls[0][4], keep[:D * K].reshape(D, K, order="F"))
    for i in (4, 5, 6):
        E.eq("all terms at the same posterior", calls[1][i], calls[0][i])
    F0, g0 = -G - H, -dG - dH
    if c["bnd"]:
        F0, g0 = F0 + L, g0 + dL
        if c["w"]:
            wv = calls[0][6].ravel()
            F0 = F0 + pen * np.sum(np.where(wv < thr, wv, thr))
            q = np.where(wv < thr, pen, 0.0)
            g0 = g0 + np.concatenate([np.zeros(n - K), wv * q - wv * np.sum(wv * q)])
    E.eq("objective", F, F0)
    E.eq("gradient", dF, g0)
    E.eq("expected log joint returned", G1, G)
    E.eq("entropy returned", H1, H)
    F2, dF2, _, _, _ = M._neg_elcbo(th, "gp", vp, 0.0, Ns, False, False, bnd)
    E.eq("objective without gradient", F2, F0)
    E.eq("vector unchanged", th, keep)


@contract("C10", targets=["entmc_vbmc (score used below)"], shapes=[dict(D=1, K=1), dict(D=2, K=1), dict(D=1, K=2), dict(D=2, K=2)], trials=20)
def score_lemma(E):
    """ghost lemma: score(x) is the derivative of the log mixture density at x"""
    np = E.np
    D, K = E.dim("D", 1, 3), E.dim("K", 1, 3)
    vp = any_vp(E, D, K)
    x = E.real("x", D)
    E.eq("score", mix(E, vp, D, K, x)[1], E.jac(lambda z: np.log(mix(E, vp, D, K, z)[0]), x), rtol=1e-3, atol=1e-5)


def mix(E, vp, D, K, x):
    """density of the mixture at x [D], its score [D], component densities [K]"""
    np = E.np
    l = vp.lambd.ravel()
    q, g, cs = 0.0, 0.0, []
    for k in range(K):
        s, m = vp.sigma[0, k], vp.mu[:, k]
        n = (1 / (2 * np.pi) ** (D / 2)) / np.prod(s * l) * np.exp(-0.5 * np.sum(((x - m) / (s * l)) ** 2))
        cs.append(n)
        q = q + vp.w[0, k] * n
        g = g - vp.w[0, k] * n * (x - m) / (s * l) ** 2
    return q, g / q, cs


@contract("C10", targets=["entmc_vbmc"], cases=[dict(grad=g) for g in GR] + [dict(grad="odd")],
          shapes=[dict(D=1, K=1), dict(D=2, K=1), dict(D=1, K=2)], trials=20,
          note="Monte Carlo entropy: value is the average of -log q over antithetic draws mu_k + sigma_k lambda eps from every component, "
               "gradient is its derivative along the reparametrised draws (the score term of mean zero is left out), full derivative for the weights")
def entropy_monte_carlo(E):
    np = E.np
    D, K = E.dim("D", 1, 3), E.dim("K", 1, 3)
    M = E.imp("pyvbmc.entropy.entmc_vbmc")
    vp = any_vp(E, D, K)
    P = free(E, vp, D, K)
    put(vp, D, K, **P)
    g = E.case["grad"]
    Ns = 3 if g == "odd" else 2
    half = (Ns + 1) // 2
    if g == "odd":
        g = "mu"
    fl = tuple(x == g for x in GR)
    rec = E.rng_log()
    H, dH = M.entmc_vbmc(vp, Ns, fl, False)
    E.assume(len(rec) == K and all(r.shape == (half, D) for r in rec))  # antithetic half-set per component
    N = 2 * half
    val = 0.0
    gm, gs, gl, gw = [0.0] * K, [0.0] * K, 0.0, [0.0] * K
    l = vp.lambd.ravel()
    for j in range(K):
        for i in range(half):
            for sg in (1, -1):
                e = sg * rec[j][i]
                x = vp.mu[:, j] + vp.sigma[0, j] * l * e
                q, sc, cs = mix(E, vp, D, K, x)
                wj = vp.w[0, j]
                val = val - wj * np.log(q) / N
                gm[j] = gm[j] - wj * sc / N
                gs[j] = gs[j] - wj * np.sum(sc * l * e) / N
                gl = gl - wj * sc * vp.sigma[0, j] * e / N
                gw[j] = gw[j] - np.log(q) / N
                for k in range(K):
                    gw[k] = gw[k] - wj * cs[k] / q / N
    E.eq("value", H, val)
    want = dict(mu=lambda: np.concatenate(gm), s=lambda: np.array(gs), l=lambda: gl, w=lambda: np.array(gw))[g]()
    E.eq(f"gradient with respect to {g}", dH, want)
