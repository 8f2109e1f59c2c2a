from vc.harness import contract
from contracts._common import AffineTransform, any_logger

FIELDS = ["X", "X_orig", "y", "y_orig", "n_evals", "X_flag", "fun_eval_time"]


def snapshot(L, noise):
    d = {k: getattr(L, k).copy() for k in FIELDS + (["S"] if noise else [])}
    d.update(Xn=L.Xn, func_count=L.func_count, cache_count=L.cache_count, y_max=L.y_max, total_fun_eval_time=L.total_fun_eval_time)
    return d


def unchanged(E, L, old):
    for k, v in old.items():
        if k in FIELDS + ["S"]:
            E.same(f"{k} unchanged", getattr(L, k), v)
        else:
            E.same(f"{k} unchanged", E.np.array([getattr(L, k)]), E.np.array([v]))


def setup(E, noise, fun, known):
    np = E.np
    D = E.dim("D")
    pt = AffineTransform(E, D) if E.case.get("pt") else None
    L, n, C = any_logger(E, D, noise, pt, fun)
    if known:
        E.assume(n >= 1)
        j = E.int("j", 0, n - 1)
        return L, L.X[j].copy(), pt
    x = E.real("x", D)
    E.assume(~np.any(np.all(L.X[:n] == x, axis=1)))
    return L, x, pt


CASES = [dict(noise=z, how=h, known=k, pt=p) for z in (0, 1, 2) for h in ("call", "add") for k in (0, 1) for p in ((0, 1) if z != 1 else (1,))]
T = ["FunctionLogger.__call__", "FunctionLogger.add", "FunctionLogger._record"]


@contract("C06", targets=T, cases=CASES)
def non_finite_value(E):
    """a nan or infinite value is refused with ValueError and the log is untouched"""
    noise, how = E.case["noise"], E.case["how"]
    f, s = E.ext("f", classes=(1, -1, 2)), E.pos("sd")
    L, x, pt = setup(E, noise, lambda z: (f, s) if noise == 2 else f, E.case["known"])
    old = snapshot(L, noise)
    if how == "call":
        E.raises("refused", ValueError, lambda: L(x))
    else:
        E.raises("refused", ValueError, lambda: L.add(x, f, s if noise == 2 else None))
    unchanged(E, L, old)


@contract("C06", targets=T, cases=[dict(how=h, known=k, pt=p) for h in ("call", "add") for k in (0, 1) for p in (0, 1)])
def bad_noise(E):
    """with user-provided noise, a non-finite or non-positive standard deviation is refused
    with ValueError and the log is untouched"""
    how = E.case["how"]
    f = E.real("f")
    bad = E.bool("nonfinite")
    s = E.ext("sd_bad", classes=(1, -1, 2)) if bad else -E.nonneg("sd_neg")
    L, x, pt = setup(E, 2, lambda z: (f, s), E.case["known"])
    old = snapshot(L, 2)
    if how == "call":
        E.raises("refused", ValueError, lambda: L(x))
    else:
        E.raises("refused", ValueError, lambda: L.add(x, f, s))
    unchanged(E, L, old)


@contract("C06", targets=T, cases=[dict(what=w, how=h, noise=z) for w in ("complex", "vector", "none", "list") for h in ("call", "add") for z in (0, 2)])
def not_a_real_scalar(E):
    """complex numbers, vectors, None are refused and the log is untouched"""
    noise, how, what = E.case["noise"], E.case["how"], E.case["what"]
    f = {"complex": 1.5 + 2j, "vector": E.np.array([1.0, 2.0]), "none": None, "list": [1.0, 2.0]}[what]
    s = E.pos("sd")
    L, x, pt = setup(E, noise, lambda z: (f, s) if noise == 2 else f, 0)
    old = snapshot(L, noise)
    if how == "call":
        E.raises("refused", (ValueError, TypeError), lambda: L(x))
    else:
        E.raises("refused", (ValueError, TypeError), lambda: L.add(x, f, s if noise == 2 else None))
    unchanged(E, L, old)


class Boom(Exception):
    pass


@contract("C06", targets=T, cases=[dict(noise=z, pt=p, known=k) for z in (0, 1, 2) for p in (0, 1) for k in (0, 1) if not (z == 1 and p == 0)])
def target_raises(E):
    """an exception raised by the target reaches the caller and the log is untouched"""
    noise = E.case["noise"]

    def fun(z):
        raise Boom("target failed")

    L, x, pt = setup(E, noise, fun, E.case["known"])
    old = snapshot(L, noise)
    E.raises("exception of the target propagates", Boom, lambda: L(x))
    unchanged(E, L, old)


@contract("C06", targets=T, cases=[dict(noise=z, how=h, pt=p) for z in (0, 2) for h in ("call", "add") for p in (0, 1)])
def valid_accepted(E):
    """every finite real value (with a positive finite noise) is accepted"""
    noise, how = E.case["noise"], E.case["how"]
    f, s = E.real("f"), E.pos("sd")
    L, x, pt = setup(E, noise, lambda z: (f, s) if noise == 2 else f, 0)
    fc, cc, n0 = L.func_count, L.cache_count, L.Xn
    if how == "call":
        L(x)
    else:
        L.add(x, f, s if noise == 2 else None)
    E.eq("counted", L.func_count + L.cache_count, fc + cc + 1)
    E.eq("recorded", L.Xn, n0 + 1)
