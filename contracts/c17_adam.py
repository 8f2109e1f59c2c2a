from vc.harness import contract

AD = "pyvbmc.vbmc.minimize_adam"
T = ["minimize_adam"]


def run(E, D, n, bounds, record, **kw):
    np = E.np
    lo = E.real("lo", D)
    hi = lo + E.nonneg("width", D)
    x0 = E.real("x0", D)
    keep = np.copy(x0)
    calls = []

    def f(x):
        y, g = record(len(calls), x)
        calls.append((np.copy(x), y, np.copy(g)))
        return y, g

    b = {}
    if bounds in ("both", "lower"):
        b["lb"] = lo
    if bounds in ("both", "upper"):
        b["ub"] = hi
    r = E.imp(AD).minimize_adam(f, x0, max_iter=n, **b, **kw)
    E.eq("starting point not modified", x0, keep)
    return r, calls, x0, (lo if "lb" in b else None), (hi if "ub" in b else None)


def inside(E, name, x, lo, hi, d):
    for j in range(d):
        if lo is not None:
            E.le(f"{name}[{j}] above the lower bound", lo[j], x[j], tol=1e-9)
        if hi is not None:
            E.le(f"{name}[{j}] below the upper bound", x[j], hi[j], tol=1e-9)


@contract("C17", targets=T, cases=[dict(n=n, D=d, b=b) for n, d in ((1, 1), (2, 1), (3, 1), (1, 2)) for b in ("both", "lower", "upper", "none")] + [dict(n=2, D=2, b="lower")], trials=15)
def recurrence(E):
    """each iterate is the ADAM update of the one before with bias-corrected moments and the decaying
    step size, clipped to the bounds; the function is evaluated exactly at the starting point and the
    iterates; tables hold them in order"""
    np = E.np
    n, D, b = E.case["n"], E.case["D"], E.case["b"]
    mn, mx, dec = E.pos("master_min"), E.pos("master_max"), E.pos("decay")
    y = [E.real(f"y{i}") for i in range(n)]
    g = [E.real(f"g{i}", D) for i in range(n)]
    (x, v, xt, yt, it), calls, x0, lo, hi = run(E, D, n, b, lambda i, p: (y[i], g[i]), master_min=mn, master_max=mx, master_decay=dec)
    E.ok("iterations", it == n and len(calls) == n)
    E.ok("shapes", np.shape(xt)[1] == n and np.shape(yt)[0] == n and np.shape(x)[0] == D)
    eps = np.sqrt(np.spacing(1))
    for i in range(n):
        for j in range(D):
            E.eq(f"evaluated at the right point {i} {j}", calls[i][0][j], x0[j] if i == 0 else xt[j, i - 1])
            m = w = 0
            for k in range(i + 1):
                m, w = 0.9 * m + (1 - 0.9) * g[k][j], 0.999 * w + (1 - 0.999) * g[k][j] ** 2
            m, w = m / (1 - 0.9 ** (i + 1)), w / (1 - 0.999 ** (i + 1))
            z = calls[i][0][j] - (mn + (mx - mn) * np.exp(-(i + 1) / dec)) * m / (np.sqrt(w) + eps)
            if lo is not None:
                z = np.maximum(lo[j], z)
            if hi is not None:
                z = np.minimum(hi[j], z)
            E.eq(f"update {i} {j}", xt[j, i], z, rtol=1e-7, atol=1e-9)
        E.eq(f"value {i}", yt[i], y[i])
        inside(E, f"iterate {i}", xt[:, i], lo, hi, D)
    inside(E, "result", x, lo, hi, D)
    for j in range(D):
        E.eq(f"result {j} is the mean of the iterates", x[j], sum(xt[j, i] for i in range(n)) / n, rtol=1e-9, atol=1e-12)
    E.eq("value is the mean of the values", v, sum(y[1:], y[0]) / n, rtol=1e-9, atol=1e-12)


@contract("C17", targets=T, cases=[dict(n=n, k=1) for n in (20, 21, 30)] + [dict(n=n, k=0, conc_only=1) for n in (20, 33)], trials=6)
def result_is_the_mean_of_the_last_batch(E):
    """after any number of steps the result is the mean of the last 20 iterates (any convex combination
    of points in the box is in the box) and the value the mean of the last 20 values"""
    np = E.np
    n = E.case["n"]
    y = [E.real(f"y{i}") for i in range(n)]
    # zero gradient keeps the iterates where they are: here only the averaging is in question
    g = np.zeros(1) if E.case["k"] else None
    step = [E.real(f"s{i}", 1) for i in range(n)]
    (x, v, xt, yt, it), calls, x0, lo, hi = run(E, 1, n, "both", lambda i, p: (y[i], g if g is not None else step[i]), use_early_stopping=False)
    E.ok("iterations", it == n)
    m = 20
    E.eq("mean of the last iterates", x[0], sum(xt[0, i] for i in range(n - m, n)) / m, rtol=1e-9, atol=1e-12)
    E.eq("mean of the last values", v, sum(y[n - m + 1:], y[n - m]) / m, rtol=1e-9, atol=1e-12)
    for i in range(n):
        inside(E, f"iterate {i}", xt[:, i], lo, hi, 1)
    if g is not None:
        for i in range(n):
            E.eq(f"no movement without gradient {i}", xt[0, i], np.minimum(hi[0], np.maximum(lo[0], x0[0])))


@contract("C17", targets=T, sym=False, trials=12)
def descent(E):
    """run-time: on noisy convex functions the result is in the box, close to the constrained minimum,
    with consistent tables; early stopping never happens before 40 iterations"""
    import numpy as np

    D = E.int("D", 1, 4)
    c, lo = np.atleast_1d(E.real("c", D)), np.atleast_1d(E.real("lo", D))
    hi = lo + np.atleast_1d(E.pos("w", D))
    c, lo, hi = np.clip(c, -3, 3), np.clip(lo, -4, 4), np.clip(lo, -4, 4) + np.clip(hi - lo, 0.1, 5)
    x0 = np.clip(np.zeros(D), lo, hi)
    rng = np.random.RandomState(E.int("seed", 0, 10**6))
    f = lambda x: (np.sum((x - c) ** 2) + 1e-3 * rng.randn(), 2 * (x - c) + 1e-3 * rng.randn(D))
    x, y, xt, yt, it = E.imp(AD).minimize_adam(f, x0.copy(), lo, hi, max_iter=2000)
    E.ok("inside", np.all(x >= lo - 1e-9) and np.all(x <= hi + 1e-9) and np.all(xt >= lo[:, None]) and np.all(xt <= hi[:, None]))
    E.ok("tables", xt.shape == (D, it) and yt.shape == (it,) and 40 <= it <= 2000)
    E.ok("near the minimum", np.all(np.abs(x - np.clip(c, lo, hi)) < 0.5), f"{x} {np.clip(c, lo, hi)}")
    E.ok("averages", np.allclose(x, xt[:, -20:].mean(1)) and np.allclose(y, yt[-20:].mean()))
