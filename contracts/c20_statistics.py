from vc.harness import NS, contract
from contracts._common import VPM, AffineTransform, any_vp, named

KM = "pyvbmc.stats.kl_div_mvn"


def spd(E, tag, D):
    """arbitrary symmetric positive definite matrix L L^T, its inverse and log-determinant"""
    np = E.np
    L = np.zeros((D, D))
    if E.sym:
        L = E.real("L" + tag, D, D) * np.tril(np.ones((D, D)), -1) + np.diag(E.pos("l" + tag, D))
    else:
        L = np.tril(E.real("L" + tag, D, D), -1) * 0.1 + np.diag(0.5 + E.pos("l" + tag, D))
    d = np.diag(L)
    # inverse of the triangular factor
    M = [[0.0] * D for _ in range(D)]
    for i in range(D):
        M[i][i] = 1 / d[i]
        for j in range(i):
            M[i][j] = -sum(L[i, k] * M[k][j] for k in range(j, i)) / d[i]
    Li = np.array(M)
    return L @ L.T, Li.T @ Li, 2 * np.sum(np.log(d))


def kl(E, m1, S1, l1, m2, P2, l2, D):
    np = E.np
    d = (m2 - m1).reshape(D)
    return 0.5 * (np.trace(P2 @ S1) + np.sum(d * (P2 @ d.reshape(D, 1)).reshape(D)) - D + l2 - l1)


@contract("C20", targets=["kl_div_mvn"], shapes=[dict(D=1), dict(D=2)])
def gaussian_kl(E):
    """both directed divergences between two Gaussians, for all means and covariances"""
    f = E.imp(KM).kl_div_mvn
    D = E.dim("D", 1, 3)
    m1, m2 = E.real("m1", 1, D), E.real("m2", 1, D)
    (S1, P1, l1), (S2, P2, l2) = spd(E, "1", D), spd(E, "2", D)
    keep = m1.copy(), S1.copy(), m2.copy(), S2.copy()
    r = f(m1, S1, m2, S2)
    E.eq("KL(1 || 2)", r[0], kl(E, m1, S1, l1, m2, P2, l2, D))
    E.eq("KL(2 || 1)", r[1], kl(E, m2, S2, l2, m1, P1, l1, D))
    for n, a, b in zip(("mu1", "sigma1", "mu2", "sigma2"), (m1, S1, m2, S2), keep):
        E.same(f"{n} unchanged", a, b)
    q = f(m2, S2, m1, S1)
    E.eq("swapping the arguments swaps the divergences", q[0], r[1])
    z = f(m1, S1, m1, S1)
    E.eq("zero against itself", z[0], 0)
    E.eq("zero against itself (reverse)", z[1], 0)


@contract("C20", targets=["kl_div_mvn"], shapes=[dict(D=2)], cases=[dict(which=1), dict(which=2)])
def degenerate_kl(E):
    """a singular covariance gives infinite divergences"""
    np = E.np
    f = E.imp(KM).kl_div_mvn
    D = E.dim("D", 2, 2)
    m1, m2 = E.real("m1", 1, D), E.real("m2", 1, D)
    S, _, _ = spd(E, "1", D)
    Z = np.zeros((D, D))
    Z[0, 0] = E.pos("v") if E.sym else float(E.pos("v"))
    r = f(m1, Z, m2, S) if E.case["which"] == 1 else f(m1, S, m2, Z)
    E.eq("KL(1 || 2) infinite", r[0], np.inf)
    E.eq("KL(2 || 1) infinite", r[1], np.inf)


@contract("C20", targets=["get_hpd"], cases=[dict(frac=f, y=y) for f in (0.1, 0.5, 0.8, 1.0) for y in ("col", "flat")], shapes=[dict(D=1), dict(D=2)])
def high_posterior_density(E):
    """the returned subset is the requested share of points, every one of them at least as high as
    every point left out, with matching values, indices and range"""
    np = E.np
    f = E.imp("pyvbmc.stats.get_hpd").get_hpd
    N, D = E.dim("N"), E.dim("D", 1, 3)
    X = E.real("X", N, D)
    y = E.real("y", N, 1) if E.case["y"] == "col" else E.real("y", N)
    X0, y0 = X.copy(), y.copy()
    fr = E.case["frac"]
    hX, hy, rg, ix = f(X, y, fr)
    E.same("points unchanged", X, X0)
    E.same("values unchanged", y, y0)
    n = ix.shape[0]
    E.ok("size within half a point of the requested share", (n <= fr * N + 0.5) & (n >= fr * N - 0.5))
    E.eq("points are those of the indices", hX, X0[ix])
    E.eq("values are those of the indices", hy, y0[ix])
    E.ok("indices in range", (ix >= 0) & (ix < N))
    yf = y0.ravel()
    i = E.int("i", 0, N - 1)
    if E.is_true(n >= 1):
        j, k = E.int("j", 0, n - 1), E.int("k", 0, n - 1)
        if not E.is_true(j == k):
            E.ok("indices distinct", ix[j] != ix[k])
        if not E.is_true(np.any(ix == i)):
            r = E.rank_of(i)
            E.hint(r, N - 1 - r, j, N - 1 - j)
            E.ok("no excluded point is higher than an included one", yf[i] <= yf[ix[j]])
        E.eq("range", rg, np.max(hX, axis=0) - np.min(hX, axis=0))
    else:
        E.ok("range undefined for an empty subset", np.isnan(rg))


@contract("C20", targets=["VariationalPosterior.kl_div"], shapes=[dict(D=1), dict(D=2)])
def sampled_kl(E):
    """the sampled divergence is the mean log-density ratio under each posterior's own draws,
    clipped at zero (densities and draws enter by their contracts)"""
    np = E.np
    V = E.imp(VPM).VariationalPosterior
    D, N = E.dim("D", 1, 2), E.dim("N")
    X1, X2 = E.real("X1", N, D), E.real("X2", N, D)
    qs = {(a, b): E.pos(f"q{a}{b}", N, 1) for a in (1, 2) for b in (1, 2)}
    seen = []

    def stub(i):
        vp = E.new(V, D=D, K=1)

        def sample(*a, **k):
            g = named(("N", "orig_flag", "balance_flag", "df"), a, k, orig_flag=True, balance_flag=False, df=np.inf)
            seen.append((i, g.N, g.orig_flag))
            return (X1 if i == 1 else X2), None

        def pdf(*a, **k):
            g = named(("x", "orig_flag", "log_flag"), a, k, orig_flag=True, log_flag=False)
            j = 1 if g.x is X1 else 2
            assert g.x is X1 or g.x is X2
            seen.append((i, g.orig_flag))
            q = qs[i, j].copy()
            return np.log(q) if g.log_flag else q

        def log_pdf(*a, **k):
            k["log_flag"] = True
            return pdf(*a, **k)

        vp.sample, vp.pdf, vp.log_pdf = sample, pdf, log_pdf
        return vp

    a, b = stub(1), stub(2)
    r = a.kl_div(vp2=b, N=7)
    E.eq("forward divergence", r[0], np.maximum(0, np.mean(np.log(qs[1, 1] / qs[2, 1]))))
    E.eq("reverse divergence", r[1], np.maximum(0, np.mean(np.log(qs[2, 2] / qs[1, 2]))))
    E.ok("draws: requested number, original space", all(s[1:] == (7, True) for s in seen if len(s) == 3))
    E.ok("densities in the original space", all(s[1] is True for s in seen if len(s) == 2))


@contract("C20", targets=["VariationalPosterior.kl_div"], shapes=[dict(D=1), dict(D=2)])
def gaussianized_kl(E):
    """the Gaussianized divergence is that of the moment-matched Gaussians (moments by contract)"""
    np = E.np
    V = E.imp(VPM).VariationalPosterior
    D = E.dim("D", 1, 3)
    m = E.real("m1", 1, D), E.real("m2", 1, D)
    S = spd(E, "1", D), spd(E, "2", D)
    seen = []

    def stub(i):
        vp = E.new(V, D=D, K=1)

        def moments(*a, **k):
            g = named(("N", "orig_flag", "cov_flag"), a, k, orig_flag=True, cov_flag=False)
            seen.append((g.N, g.orig_flag))
            return (m[i], S[i][0]) if g.cov_flag else m[i]

        vp.moments = moments
        return vp

    r = stub(0).kl_div(vp2=stub(1), N=9, gauss_flag=True)
    for n, i, j in (("forward", 0, 1), ("reverse", 1, 0)):
        v = kl(E, m[i], S[i][0], S[i][2], m[j], S[j][1], S[j][2], D)
        E.eq(n, r[0 if n == "forward" else 1], np.maximum(0, v))
    E.ok("original-space moments", all(s == (9, True) for s in seen))


@contract("C20", targets=["VariationalPosterior.kl_div", "VariationalPosterior.mtv"], sym=False, trials=12)
def distances(E):
    """run-time evaluation on real mixtures: finite non-negative pairs; near zero against itself;
    marginal total variation in [0, 1] and near zero against itself; arguments required"""
    np = E.np
    D, K = E.int("D", 1, 3), E.int("K", 1, 3)
    PT = E.imp("pyvbmc.parameter_transformer").ParameterTransformer
    V = E.imp("pyvbmc.variational_posterior").VariationalPosterior
    b = E.bool("bounded")
    pt = PT(D, np.full((1, D), -10.0), np.full((1, D), 10.0)) if b else PT(D)
    vps = []
    for t in "ab":
        vp = V(D, K, parameter_transformer=pt)
        vp.mu, vp.sigma = E.real("mu" + t, D, K), 0.3 + E.unit("s" + t, 1, K)
        vp.lambd = np.ones((D, 1))
        w = 0.1 + E.unit("w" + t, 1, K)
        vp.w = w / w.sum()
        vps.append(vp)
    a, c = vps
    for g in (False, True):
        r = a.kl_div(vp2=c, N=2000, gauss_flag=g)
        E.ok("a pair of non-negative numbers", r.shape == (2,) and bool(np.all(r >= 0)))
        r = a.kl_div(vp2=a, N=20000, gauss_flag=g)
        E.ok("small against itself", bool(np.all(r < 0.02)), str(r))
    t = a.mtv(vp2=c, N=2000)
    E.ok("total variation in [0, 1]", t.shape == (1, D) and bool(np.all((t >= 0) & (t <= 1.02))), str(t))
    t = a.mtv(vp2=a, N=20000)
    E.ok("total variation small against itself", bool(np.all(t < 0.15)), str(t))
    E.raises("needs a second posterior or samples", ValueError, lambda: a.kl_div())
    E.raises("needs a second posterior or samples (mtv)", ValueError, lambda: a.mtv())
    E.raises("sampled divergence needs a posterior", ValueError, lambda: a.kl_div(samples=np.zeros((5, D))))
