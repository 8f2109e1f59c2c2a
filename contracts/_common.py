"""shared builders used by several contract files"""
from vc.harness import NS


VPM = "pyvbmc.variational_posterior.variational_posterior"


def any_vp(E, D, K, normal=False, pt=None, **flags):
    """arbitrary mixture posterior; normal: scale normalisation (mean squared lambda 1) and
    weights already on the simplex"""
    np = E.np
    V = E.imp(VPM).VariationalPosterior
    vp = E.new(V, D=D, K=K)
    vp.mu = E.real("mu", D, K)
    vp.sigma = E.pos("sigma", 1, K)
    vp.lambd = E.pos("lambd", D, 1)
    vp.w = E.pos("w", 1, K)
    if normal:
        vp.lambd = vp.lambd / np.sqrt(np.sum(vp.lambd**2) / D)
        vp.w = vp.w / np.sum(vp.w)
    vp.eta = E.real("eta", 1, K)
    vp.optimize_weights, vp.optimize_mu = bool(flags.get("w", 1)), bool(flags.get("mu", 1))
    vp.optimize_sigma, vp.optimize_lambd = bool(flags.get("s", 1)), bool(flags.get("l", 1))
    vp._mode = None
    vp.parameter_transformer = pt
    vp.bounds = None
    vp.stats = None
    return vp


def named(names, a, k, **default):
    """arguments of a call by parameter name, however they were passed"""
    d = dict(default)
    d.update(zip(names, a))
    d.update(k)
    return NS(**d)


class AffineTransform:
    """stand-in for a ParameterTransformer, described by its contract: a deterministic
    invertible map with a log-Jacobian that depends on the point; flat in -> flat out"""

    def __init__(self, E, D, tag=""):
        self.E = E
        self.a, self.b, self.c = E.pos("pt_a" + tag, D), E.real("pt_b" + tag, D), E.real("pt_c" + tag, D)
        self.lb_orig = self.ub_orig = None

    def inverse(self, u):
        return u * self.a + self.b

    def __call__(self, x):
        return (x - self.b) / self.a

    def log_abs_det_jacobian(self, u):
        np = self.E.np
        if u.ndim == 1:
            return np.sum(u * self.c)
        return np.sum(u * self.c, axis=1)


def any_logger(E, D, noise=0, pt=None, fun=None, dup_of=None, room=None):
    """arbitrary FunctionLogger holding n recorded points in a table of C >= n rows
    (class invariant: rows < n filled, X_flag/n_evals agree, the rest nan; y = y_orig +
    log-Jacobian; y_max = max of the stored y)"""
    np = E.np
    M = E.imp("pyvbmc.function_logger.function_logger")
    C = E.dim("C")
    n = E.int("n", 0, C)
    if room is True:
        E.assume(n < C)
    elif room is False:
        n = C
    L = M.FunctionLogger(fun, D, bool(noise), noise, C, pt)
    used = np.arange(C) < n
    uc = used.reshape(-1, 1)
    X = E.real("X", C, D)
    L.X = np.where(uc, X, np.nan)
    L.X_orig = np.where(uc, pt.inverse(X) if pt else X, np.nan)
    yo = E.real("y", C, 1)
    L.y_orig = np.where(uc, yo, np.nan)
    L.y = np.where(uc, yo + pt.log_abs_det_jacobian(X).reshape(-1, 1) if pt else yo, np.nan)
    L.X_flag = used + False if not E.sym else used.copy()
    ne = E.pos("n_evals", C, 1) if E.sym else 1 + np.floor(E.pos("n_evals", C, 1))
    L.n_evals = np.where(uc, ne, np.zeros((C, 1)))
    L.fun_eval_time = np.where(uc, E.nonneg("t", C, 1), np.nan)
    if noise:
        L.S = np.where(uc, E.pos("S", C, 1), np.nan)
    L.Xn = n - 1
    L.func_count = E.int("func_count", 0, 50)
    L.cache_count = E.int("cache_count", 0, 50)
    return L, n, C
