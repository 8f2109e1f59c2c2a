import math

from vc.harness import NS, contract

VB = "pyvbmc.vbmc.vbmc"
IH = "pyvbmc.vbmc.iteration_history"


def history(E, N, **cols):
    """a real IterationHistory with the given columns recorded (N iterations)"""
    h = E.imp(IH).IterationHistory(["iter", "elbo", "elbo_sd", "sKL", "r_index", "elcbo_impro", "stable", "vp", "func_count", "n_eff", "N", "lcb_max"])
    for k, v in cols.items():
        for i in range(N):
            h.record(k, v[i], i)
    return h


def reals(E, name, n):
    return [E.real(f"{name}{i}") for i in range(n)]


FLAGS = [dict(N=n, stable=m) for n in (1, 2, 3) for m in range(2**n)]
FLAGS4 = [dict(N=4, stable=m) for m in (0, 1, 2, 5)]


class Snap:
    """stands for a stored posterior"""

    def __init__(self, i):
        self.i, self.stats = i, {"stable": None}

    def __deepcopy__(self, memo):
        return Snap(self.i)


@contract("C13", targets=["VBMC.determine_best_vp"], cases=FLAGS + FLAGS4, trials=15, budget=200)
def best_iteration(E):
    """the chosen iteration: the last one if it is stable, else the best lower confidence bound among
    the iterations since the last stable one (or the recent quarter); values belong to that iteration"""
    N, m = E.case["N"], E.case["stable"]
    st = [bool(m >> i & 1) for i in range(N)]
    elbo, sd = reals(E, "elbo", N), reals(E, "sd", N)
    safe = E.real("safe_sd")
    h = history(E, N, iter=list(range(N)), elbo=elbo, elbo_sd=sd, stable=st, vp=[Snap(i) for i in range(N)], r_index=reals(E, "r", N))
    vb = E.new(E.imp(VB).VBMC, iteration_history=h)
    frac = E.choice("frac", [0.25, 0.5, 1.0, 0.0])
    upto = E.choice("max_idx", [None] + list(range(N)))
    kw = {} if upto is None else dict(max_idx=upto)
    vp, e, s, i = vb.determine_best_vp(safe_sd=safe, frac_back=frac, **kw)
    last = N - 1 if upto is None else upto
    if st[last]:
        E.ok("a stable last iteration is returned", i == last)
    else:
        stable = [j for j in range(last + 1) if st[j]]
        first = stable[-1] if stable else max(0, int(math.ceil(last - last * frac)))
        E.ok("recent enough", first <= i <= last)
        for j in range(first, last + 1):
            E.le(f"no better recent iteration {j}", elbo[j] - safe * sd[j], elbo[i] - safe * sd[i], tol=1e-12)
    E.ok("posterior of that iteration", vp is h["vp"][i] and vp.i == i)
    E.eq("elbo of that iteration", e, elbo[i])
    E.eq("elbo_sd of that iteration", s, sd[i])
    E.ok("its stability is reported", vp.stats["stable"] == st[i])


@contract("C13", targets=["VBMC.determine_best_vp"], cases=[c for c in FLAGS if c["N"] > 1], trials=15, budget=200)
def best_iteration_by_rank(E):
    """ranking: total of position, lower confidence bound, reliability and stability ranks is minimal"""
    np = E.np
    N, m = E.case["N"], E.case["stable"]
    st = [bool(m >> i & 1) for i in range(N)]
    elbo, sd, r = reals(E, "elbo", N), reals(E, "sd", N), reals(E, "r", N)
    safe = E.real("safe_sd")
    for i in range(N):
        for j in range(i):
            E.assume((elbo[i] - safe * sd[i] < elbo[j] - safe * sd[j]) | (elbo[i] - safe * sd[i] > elbo[j] - safe * sd[j]))
            E.assume((r[i] < r[j]) | (r[i] > r[j]))
    h = history(E, N, iter=list(range(N)), elbo=elbo, elbo_sd=sd, stable=st, vp=[Snap(i) for i in range(N)], r_index=r)
    vb = E.new(E.imp(VB).VBMC, iteration_history=h)
    vp, e, s, i = vb.determine_best_vp(safe_sd=safe, rank_criterion_flag=True)
    i = int(i)
    last = N - 1
    if st[last]:
        E.ok("a stable last iteration is returned", i == last)
    else:
        c = [elbo[j] - safe * sd[j] for j in range(N)]
        one = lambda b: np.where(b, 1.0, 0.0)
        tot = []
        for j in range(N):
            better = sum((one(c[k] > c[j]) for k in range(N) if k != j), 0.0)
            surer = sum((one(r[k] < r[j]) for k in range(N) if k != j), 0.0)
            tot.append((N - j) + better + 1 + surer + 1 + (1 if st[j] else last))
        for j in range(N):
            E.le(f"rank total minimal {j}", tot[i], tot[j])
    E.eq("elbo of that iteration", e, elbo[i])
    E.eq("elbo_sd of that iteration", s, sd[i])
    E.ok("posterior of that iteration", vp.i == i)


class Opt(dict):
    pass


@contract("C13", targets=["VBMC._check_termination_conditions"], cases=[dict(it=i, T=t, sw=w, frac=f) for i, t in ((0, 1), (0, 2), (1, 2), (2, 3), (3, 3), (3, 4), (1, 4)) for w in (False, True) for f in (0.2, 0.5)],
          trials=20, budget=200)
def termination(E):
    """optimization ends exactly when the evaluation budget or iteration limit is reached or the solution
    is stable, never before the minima; the recorded reliability and stability are those of the iteration"""
    import types

    it, T, sw, frac = (E.case[k] for k in ("it", "T", "sw", "frac"))
    fc, mx, mn = E.int("func_count", 0, 1000), E.int("max_fun_evals", 0, 1000), E.int("min_fun_evals", 0, 1000)
    mi, mni = E.int("max_iter", 0, 50), E.int("min_iter", 0, 50)
    r, imp, tol = E.real("r"), E.real("impro"), E.pos("tol_impro")
    past = reals(E, "r_past", it)
    lw = E.int("last_warp", -50, 50)
    opts = dict(max_fun_evals=mx, min_fun_evals=mn, max_iter=mi, min_iter=mni, tol_improvement=tol, tol_stable_excpt_frac=frac,
                tol_stable_entropy_iters=T if sw else 99, tol_stable_count=4 * T - 1 if not sw else 777, fun_evals_per_iter=4)
    h = history(E, it, r_index=past)
    state = dict(iter=it, entropy_switch=sw, last_successful_warping=lw)
    vb = E.new(E.imp(VB).VBMC, options=opts, iteration_history=h, optim_state=state, function_logger=NS(func_count=fc), logging_action=[])
    got = []
    vb._compute_reliability_index = lambda n: (got.append(n), (r, imp))[1]
    fin, msg = vb._check_termination_conditions()
    E.ok("window of the stability check", got == [T], str(got))
    good = sum((E.np.where(p < 1, 1, 0) for p in past[max(0, it - T + 1):]), 0)
    stable = (r < 1) & (imp < tol) & (good >= T - math.floor(T * frac) - 1) if it + 1 >= T else E.np.bool_(False)
    stable = E.is_true(stable)
    maxed, itmax = E.is_true(fc >= mx), E.is_true(it + 1 >= mi)
    early = E.is_true(fc < mn) or E.is_true(it < mni)
    quiet = E.is_true(3 * (it - lw) >= T)
    want = (maxed or itmax or (stable and not sw and quiet)) and not early
    E.ok("ends exactly when it should", bool(fin) == want, f"{fin} {want}")
    E.ok("reason given when ended", bool(msg) or not want)
    if want and not (stable and not sw and quiet):
        E.ok("reason names the limit", ("max_iter" in msg) if itmax else ("max_fun_evals" in msg), msg)
    if want and stable and not sw and quiet:
        E.ok("reason is stability", "stable" in msg, msg)
    E.ok("stability recorded", h["stable"][it] == (stable and not sw) and len(h["stable"]) == it + 1)
    E.eq("reliability recorded", h["r_index"][it], r)
    E.eq("improvement recorded", h["elcbo_impro"][it], imp)
    for j in range(it):
        E.eq(f"past reliability {j}", h["r_index"][j], past[j])
    E.ok("entropy switch", state["entropy_switch"] == (sw and not stable))
    E.eq("current reliability", state["R"], r)


@contract("C13", targets=["VBMC._compute_reliability_index"], cases=[dict(it=i, T=t) for i, t in ((0, 4), (1, 4), (2, 3), (2, 4), (3, 4), (4, 6), (3, 9))], trials=20)
def reliability(E):
    """mean of the ELBO change, its uncertainty and the symmetrized divergence, each relative to its
    tolerance; improvement is the least-squares slope of the ELCBO over recent evaluations"""
    np = E.np
    it, T = E.case["it"], E.case["T"]
    elbo, sd, skl = reals(E, "elbo", it + 1), [E.pos(f"sd{i}") for i in range(it + 1)], [E.nonneg(f"skl{i}") for i in range(it + 1)]
    w, tol, tskl, s2 = E.nonneg("w"), E.pos("tol_sd"), E.pos("tol_skl"), E.nonneg("sn2")
    n0 = E.int("n0", 1, 10)
    fcs = [n0 + 5 * i + (i * i) % 3 for i in range(it + 1)]
    h = history(E, it + 1, elbo=elbo, elbo_sd=sd, sKL=skl, func_count=fcs)
    vb = E.new(E.imp(VB).VBMC, options=dict(tol_sd=tol, tol_skl=tskl, elcbo_impro_weight=w), iteration_history=h,
               optim_state=dict(iter=it, sn2_hpd=s2))
    if E.sym:
        E.patch(E.imp(VB), "float", lambda x: x)
    r, imp = vb._compute_reliability_index(T)
    if it < 2:
        E.ok("not reliable in the first iterations", r == math.inf and imp != imp)
        return
    t = np.minimum(np.maximum(tol, np.sqrt(np.sqrt(s2) * tol)), 10 * tol)
    E.eq("reliability index", r, (np.abs(elbo[it] - elbo[it - 1]) / t + sd[it] / t + skl[it] / tskl) / 3, rtol=1e-9)
    a = max(0, it - math.ceil(0.5 * T) + 1)
    x, y = fcs[a:], [elbo[i] - w * sd[i] for i in range(a, it + 1)]
    n = len(x)
    xb, yb = sum(x) / n, sum(y) / n
    E.eq("least-squares slope", imp, sum((x[i] - xb) * (y[i] - yb) for i in range(n)) / sum((x[i] - xb) ** 2 for i in range(n)), rtol=1e-6, atol=1e-9)


@contract("C13", targets=["VBMC._create_result_dict"], cases=[dict(st=s, b=b) for s in (0, 1) for b in (0, 1, 2)], trials=3)
def result_fields(E):
    """every field of the results is the corresponding quantity of the best iteration / the run"""
    np = E.np
    N, idx = 3, E.choice("idx", [0, 1, 2])
    st = [bool(E.case["st"])] * N
    r = reals(E, "r", N)
    ne = [E.int(f"ne{i}", 0, 100) for i in range(N)]
    h = history(E, N, r_index=r, stable=st, n_eff=ne)
    D = 2
    lo, hi = np.full((1, D), -np.inf), np.full((1, D), np.inf)
    if E.case["b"] == 1:
        lo = np.concatenate([np.full((1, 1), -np.inf), E.real("lo", 1, 1)], axis=1)
    elif E.case["b"] == 2:
        lo, hi = E.real("lo", 1, D), E.real("hi", 1, D)
    fc, it, K, e, s = E.int("fc", 0, 1000), E.int("iter", 0, 100), E.int("K", 1, 60), E.real("e"), E.real("s")
    f = lambda x: x
    vb = E.new(E.imp(VB).VBMC, iteration_history=h, function_logger=NS(fun=f, func_count=fc), optim_state=dict(lb_tran=lo, ub_tran=hi, iter=it),
               vp=NS(K=K, stats=dict(elbo=e, elbo_sd=s)))
    msg, ok = "why it ended", E.choice("ok", [True, False])
    o = vb._create_result_dict(idx, msg, ok)
    E.eq("elbo", o["elbo"], e)
    E.eq("elbo_sd", o["elbo_sd"], s)
    E.eq("r_index", o["r_index"], r[idx])
    E.eq("train_set_size", o["train_set_size"], ne[idx])
    E.eq("func_count", o["func_count"], fc)
    E.eq("iterations", o["iterations"], it)
    E.eq("components", o["components"], K)
    E.ok("best_iter, message, success flag", o["best_iter"] == idx and o["message"] == msg and o["success_flag"] is ok)
    E.ok("convergence status", o["convergence_status"] == ("probable" if st[idx] else "no"))
    E.ok("problem type", o["problem_type"] == ("unconstrained" if E.case["b"] == 0 else "bounded"))


@contract("C13", targets=["VBMC.optimize", "VBMC.determine_best_vp", "VBMC._create_result_dict"], sym=False, trials=2, budget=300)
def whole_runs(E):
    """short complete runs: the returned posterior and results are those of the best recorded iteration,
    limits are respected, recorded counts are consistent"""
    import logging

    import numpy as np

    logging.disable(logging.CRITICAL)
    VBMC = E.imp("pyvbmc.vbmc").VBMC
    D = E.dim("D", 1, 2)
    seed = E.int("seed", 0, 10**6)
    np.random.seed(seed)
    c = np.random.randn(D)
    n = E.choice("max_iter", [1, 2, 3])
    mf = E.choice("max_fun_evals", [12, 16, 400])
    v = VBMC(lambda x: float(-0.5 * np.sum((x - c) ** 2)), np.zeros((1, D)), None, None, -3 * np.ones((1, D)), 3 * np.ones((1, D)),
             options=dict(max_iter=n, max_fun_evals=mf, min_iter=0, min_fun_evals=0, display="off"))
    vp, res = v.optimize()
    h = v.iteration_history
    last = v.optim_state["iter"]
    E.ok("iteration limit", last + 1 <= n)
    if last + 1 < n:
        E.ok("ended for a reason", v.function_logger.func_count >= mf or "stable" in res["message"], res["message"])
    for i in range(last):
        E.ok("did not run past its budget", h["func_count"][i] < mf)
    E.ok("iterations recorded in order", list(h["iter"]) == list(range(last + 1)))
    for i in range(1, last + 1):
        E.ok("evaluation count grows", h["func_count"][i] >= h["func_count"][i - 1])
    b = res["best_iter"]
    E.ok("best iteration exists", 0 <= b <= last)
    E.ok("results carry the returned posterior's values", res["elbo"] == vp.stats["elbo"] and res["elbo_sd"] == vp.stats["elbo_sd"])
    E.ok("no evaluation after the last iteration is lost", res["func_count"] == v.function_logger.func_count)
    E.ok("components", res["components"] == vp.K)
    E.ok("status", res["convergence_status"] == ("probable" if h["stable"][b] else "no"))
