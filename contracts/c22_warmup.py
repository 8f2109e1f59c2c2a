import math

from vc.harness import NS, contract

VB = "pyvbmc.vbmc.vbmc"
IH = "pyvbmc.vbmc.iteration_history"


def history(E, N, **cols):
    h = E.imp(IH).IterationHistory(["elbo", "elbo_sd", "r_index", "func_count", "lcb_max"])
    for k, v in cols.items():
        for i in range(N):
            h.record(k, v[i], i)
    return h


@contract("C22", targets=["VBMC._setup_vbmc_after_warmup"], cases=[dict(D=d, used=u, rows=n, on=m, trims=t) for d, u, n, m in ((1, 1, 2, 1), (1, 2, 2, 3), (1, 3, 4, 7), (1, 3, 4, 5), (1, 3, 4, 6), (2, 2, 3, 3), (2, 3, 3, 7), (1, 4, 4, 15), (1, 4, 4, 11), (1, 4, 4, 12), (2, 4, 4, 13))
                                                                     for t in (0, 1)],
          trials=30, budget=300)
def trimming(E):
    """after warm-up (or a false alarm) the training set keeps every point within the threshold of the
    best one and at least D+1 of the best points; nothing dropped earlier returns; the state says which
    of the two happened. Invariant: a dropped point has D+1 kept points at least as high."""
    np = E.np
    D, used, n, trims = (E.case[k] for k in ("D", "used", "rows", "trims"))
    ys = [E.real(f"y{i}") for i in range(used)]
    y = np.array([[v] for v in ys] + [[np.nan]] * (n - used))
    on = [bool(E.case["on"] >> i & 1) for i in range(n)]
    one = lambda c: np.where(c, 1, 0)
    good = lambda flags, i: sum((one(ys[j] >= ys[i]) for j in range(used) if flags[j]), 0)
    for i in range(used):
        if not on[i]:
            E.assume(good(on, i) >= D + 1)
    base, false = E.pos("keep_threshold"), E.choice("false_alarm", [None, "given"])
    fa = None if false is None else E.pos("false_threshold")
    r, rel = E.real("r_index"), E.real("reliability")
    it = 2
    h = history(E, it + 1, r_index=[0.5, 0.5, r])
    tl = np.array([7.0] * trims)
    N = E.int("N", 1, 50)
    fl = NS(y_orig=y, Xn=used - 1, X_flag=np.array(on))
    y0 = np.copy(y)
    skip = E.choice("skip", [True, False])
    state = dict(iter=it, warmup=True, data_trim_list=tl, N=N, recompute_var_post=False, skip_active_sampling=None, last_warmup=None)
    vb = E.new(E.imp(VB).VBMC, D=D, optim_state=state, iteration_history=h, function_logger=fl, logging_action=[],
               options=dict(stop_warmup_reliability=rel, warmup_keep_threshold=base, warmup_keep_threshold_false_alarm=fa, skip_active_sampling_after_warmup=skip))
    vb._setup_vbmc_after_warmup()
    ends = E.is_true(r < rel) or trims >= 1
    thr = base * (trims + 1) if ends or fa is None else fa * (trims + 1)
    now = [E.is_true(fl.X_flag[i] == True) for i in range(n)]
    top = ys[0]
    for v in ys[1:]:
        top = np.maximum(top, v)
    for i in range(used):
        if on[i]:
            E.ok(f"point {i} close to the best is kept", now[i] or top - ys[i] >= thr)
        else:
            E.ok(f"dropped point {i} does not return", not now[i])
        if not now[i]:
            E.ok(f"dropped point {i} is below D+1 kept ones", good(now, i) >= D + 1)
    for i in range(used, n):
        E.ok(f"unused row {i}", not now[i])
    E.ok("enough points are left", sum(now) >= min(D + 1, used) or sum(now) == sum(on))
    for i in range(used):
        E.eq(f"value {i} unchanged", fl.y_orig[i, 0], ys[i])
    E.ok("warm-up ended or data trimmed", state["warmup"] is (not ends) and vb.logging_action == (["end warm-up"] if ends else ["trim data"]))
    E.ok("iteration of the end", state["last_warmup"] == (it if ends else None))
    L = state["data_trim_list"]
    E.ok("number of trims", np.size(L) == trims + (0 if ends else 1))
    if not ends:
        E.eq("place of the trim", L[-1], N)
    E.ok("follow-up", state["recompute_var_post"] is True and state["skip_active_sampling"] is skip)


@contract("C22", targets=["VBMC._check_warmup_end_conditions"], cases=[dict(it=i, w=w, chk=c, trim=t) for i, w in ((1, 1), (1, 2), (3, 2), (4, 2), (5, 3)) for c in (True, False) for t in (0, 1)],
          trials=20, budget=300)
def end_of_warmup(E):
    """warm-up stops when neither the ELCBO nor the best value improved recently, or the best value has
    not improved for long, unless the data were trimmed recently"""
    np = E.np
    it, w, chk, trim = (E.case[k] for k in ("it", "w", "chk", "trim"))
    elbo, sd = [E.real(f"e{i}") for i in range(it + 1)], [E.nonneg(f"s{i}") for i in range(it + 1)]
    lcb = [E.real(f"l{i}") for i in range(it + 1)]
    fc = [10 + 5 * i for i in range(it + 1)]
    fun = 5
    thr, wt, tol = E.pos("thr"), E.nonneg("weight"), E.pos("tol")
    noimp, now_fc, N, last = E.int("noimp", 0, 100), E.int("now", 10, 200), E.int("N", 1, 60), E.int("last", 0, 60)
    h = history(E, it + 1, elbo=elbo, elbo_sd=sd, lcb_max=lcb, func_count=fc)
    vb = E.new(E.imp(VB).VBMC, iteration_history=h, function_logger=NS(func_count=now_fc), optim_state=dict(iter=it, data_trim_list=np.array([last * 1.0] if trim else []), N=N),
               options=dict(stop_warmup_thresh=thr, fun_evals_per_iter=fun, tol_stable_warmup=w * fun - 1, elcbo_impro_weight=wt, warmup_check_max=chk, tol_improvement=tol,
                            warmup_no_impro_threshold=noimp))
    got = E.is_true(vb._check_warmup_end_conditions())
    big = lambda v: v[0] if len(v) == 1 else np.maximum(v[0], big(v[1:]))
    T = thr * fun
    c = [elbo[i] - wt * sd[i] for i in range(it + 1)]
    stable = False
    if it > w:
        k = max(3, it + 1 - w)
        stable = E.is_true(big(c[k:]) - big(c[2:k]) < T)
    recent = True
    if chk:
        k = max(1, it - w - 1)
        recent = True if k > it else E.is_true(big(lcb[k:]) - big(lcb[:k]) < T)
    top = big(lcb)
    first = next((i for i in range(it + 1) if E.is_true(lcb[i] > top - tol)))
    long = E.is_true(now_fc - fc[first] > noimp)
    free = True if not trim else E.is_true(N - last >= 10)
    E.ok("stops exactly then", got == (((stable and recent) or long) and free))
