from vc.harness import contract
from contracts._common import VPM, AffineTransform, any_vp, named

T = ["VariationalPosterior.moments"]


@contract("C09", targets=T, cases=[dict(cov=c) for c in (0, 1)], shapes=[dict(D=1), dict(D=2), dict(D=3)])
def transformed_moments(E):
    """mean and covariance of the mixture in inference space, for every number of components and all
    parameters; asking changes nothing"""
    np = E.np
    D, K = E.dim("D", 1, 4), E.dim("K")
    vp = any_vp(E, D, K)
    vp.w = vp.w / np.sum(vp.w)
    keep = {k: getattr(vp, k).copy() for k in ("mu", "sigma", "lambd", "w", "eta")}
    mean = np.sum(vp.w * vp.mu, axis=1)
    if E.case["cov"]:
        r, C = vp.moments(orig_flag=False, cov_flag=True)
        d = vp.mu - mean.reshape(D, 1)
        ref = np.sum(vp.w * vp.sigma**2) * np.diag(vp.lambd.ravel() ** 2)
        for i in range(D):
            for j in range(D):
                E.eq(f"covariance {i},{j}", C[i, j], ref[i, j] + np.sum(vp.w.ravel() * d[i] * d[j]))
        E.eq("symmetric", C, C.T)
    else:
        r = vp.moments(orig_flag=False)
    E.eq("mean", r, mean.reshape(1, D))
    for k in keep:
        E.same(f"{k} unchanged", getattr(vp, k), keep[k])


@contract("C09", targets=T, cases=[dict(cov=c) for c in (0, 1)], shapes=[dict(D=1), dict(D=2), dict(D=3)])
def original_moments(E):
    """in the original space: sample mean and covariance of the requested number of balanced draws
    taken in the original space (sampling enters by contract)"""
    np = E.np
    V = E.imp(VPM).VariationalPosterior
    D, N = E.dim("D", 1, 3), E.dim("N", 2, 8)
    E.assume(N >= 2)
    X = E.real("X", N, D)
    vp = E.new(V, D=D, K=2)
    seen = []

    def sample(*a, **k):
        g = named(("N", "orig_flag", "balance_flag", "df"), a, k, orig_flag=True, balance_flag=False, df=np.inf)
        seen.append((int(g.N), bool(g.orig_flag), bool(g.balance_flag), g.df == np.inf))
        return X.copy(), None

    vp.sample = sample
    r = vp.moments(N=11.0, orig_flag=True, cov_flag=bool(E.case["cov"]))
    m = np.mean(X, axis=0)
    if E.case["cov"]:
        r, C = r
        d = X - m
        C = np.asarray(C).reshape(D, D) if not E.sym or D > 1 else C
        for i in range(D):
            for j in range(D):
                c = C if E.sym and D == 1 else C[i, j]
                E.eq(f"covariance {i},{j}", c, np.sum(d[:, i] * d[:, j]) / (N - 1))
    E.eq("mean", r, m.reshape(1, D))
    E.ok("drawn once: requested number, original space, balanced, Gaussian", seen == [(11, True, True, True)], str(seen))


@contract("C09", targets=T + ["VariationalPosterior.sample"], sym=False, trials=25)
def sampled_moments(E):
    """run-time evaluation on real mixtures: moments of many draws agree with the analytical ones"""
    np = E.np
    D, K = E.int("D", 1, 3), E.int("K", 1, 4)
    V = E.imp("pyvbmc.variational_posterior").VariationalPosterior
    vp = V(D, K)
    vp.mu, vp.sigma, vp.lambd = E.real("mu", D, K), 0.2 + E.unit("s", 1, K), 0.5 + E.unit("l", D, 1)
    w = 0.1 + E.unit("w", 1, K)
    vp.w = w / w.sum()
    n = 40000
    m, C = vp.moments(orig_flag=False, cov_flag=True)
    ms, Cs = vp.moments(n, orig_flag=True, cov_flag=True)
    sd = np.sqrt(np.diag(C))
    E.ok("mean", m.shape == (1, D) and ms.shape == (1, D) and bool(np.all(np.abs(m - ms) < 6 * sd / np.sqrt(n) + 1e-9)), f"{m} {ms}")
    E.ok("covariance", bool(np.all(np.abs(np.reshape(Cs, (D, D)) - C) < 0.1 * np.outer(sd, sd) + 1e-9)), f"{C} {Cs}")
    E.ok("positive semidefinite", bool(np.all(np.linalg.eigvalsh(C) > 0)))
