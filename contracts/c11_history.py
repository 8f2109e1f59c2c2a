import copy

from vc.harness import NS, contract

IH = "pyvbmc.vbmc.iteration_history"
VB = "pyvbmc.vbmc.vbmc"
KEYS = ["a", "b", "c"]
T = ["IterationHistory.__setitem__", "IterationHistory.record", "IterationHistory._expand_array", "IterationHistory.record_iteration"]


class Obj:
    """an arbitrary nested object holding arrays and references"""

    def __init__(self, arr, d):
        self.arr, self.d = arr, d


def tree(E, tag):
    """a mutable nested value with arbitrary numbers in it"""
    a, b = E.real(tag + "_a", 3), E.real(tag + "_b")
    return Obj(a, {"l": [b, {"m": E.real(tag + "_m", 2)}]})


def leaves(o):
    return [o.arr[0], o.arr[1], o.arr[2], o.d["l"][0], o.d["l"][1]["m"][0], o.d["l"][1]["m"][1]]


def scramble(o, v):
    o.arr[0] = v
    o.arr[2] = v
    o.d["l"][1]["m"][1] = v
    o.d["l"][0] = v
    o.d["l"].append(v)
    o.d["new"] = v


def same(E, name, o, want):
    for i, (x, y) in enumerate(zip(leaves(o), want)):
        E.eq(f"{name}: value {i}", x, y)
    E.ok(f"{name}: structure", len(o.d["l"]) == 2 and set(o.d) == {"l"})


@contract("C11", targets=T, cases=[dict(order=o, whole=w) for o in ((0, 1, 2), (0, 3), (2, 0), (1, 1), (0, 1, 0)) for w in (0, 1)], trials=8)
def snapshots_are_isolated(E):
    """whatever is recorded stays as it was at that moment: later changes of the live objects, of other
    iterations' records or of the recorded values' parts do not reach it; nothing recorded is lost"""
    h = E.imp(IH).IterationHistory(list(KEYS))
    v = E.real("scrambled")
    live = tree(E, "v")
    rec = {}
    for n, it in enumerate(E.case["order"]):
        x = E.real(f"x{n}")
        live.arr[1] = x
        live.d["l"][1]["m"][0] = x + n
        want = leaves(live)
        if E.case["whole"]:
            h.record_iteration({"a": live, "b": live.arr, "c": n}, it)
        else:
            h.record("a", live, it)
            h.record("b", live.arr, it)
            h.record("c", n, it)
        rec[it] = (want, n)
        for j, (w, m) in rec.items():
            same(E, f"after {n}: iteration {j}", h["a"][j], w)
            for i in range(3):
                E.eq(f"after {n}: array of iteration {j} {i}", h["b"][j][i], w[i])
            E.ok(f"after {n}: number of iteration {j}", h["c"][j] == m)
        E.ok(f"after {n}: length", all(len(h[k]) == max(rec) + 1 for k in KEYS))
        E.ok(f"after {n}: unrecorded iterations are empty", all(h["a"][j] is None for j in range(max(rec)) if j not in rec))
        E.ok(f"after {n}: the live object is untouched", all(h["a"][j] is not live and h["b"][j] is not live.arr for j in rec))
        same(E, f"after {n}: live", live, want)
    scramble(live, v)
    for j, (w, m) in rec.items():
        same(E, f"live object changed: iteration {j}", h["a"][j], w)
        for i in range(3):
            E.eq(f"live array changed: iteration {j} {i}", h["b"][j][i], w[i])
    js = sorted(rec)
    scramble(h["a"][js[-1]], v)
    for j in js[:-1]:
        same(E, f"other record changed: iteration {j}", h["a"][j], rec[j][0])


@contract("C11", targets=T, trials=4)
def unknown_keys_and_negative_iterations_refused(E):
    h = E.imp(IH).IterationHistory(list(KEYS))
    v, it = E.real("v"), E.int("it", -5, -1)
    h.record("a", v, 1)

    def unchanged(nm):
        E.ok(f"{nm}: unchanged", set(h) == set(KEYS) and h["b"] is None and h["c"] is None and len(h["a"]) == 2 and h["a"][0] is None)
        E.eq(f"{nm}: value", h["a"][1], v)

    for nm, f in dict(record_key=lambda: h.record("d", v, 0), record_iteration_key=lambda: h.record_iteration({"d": v}, 0), record_neg=lambda: h.record("b", v, it),
                      record_iteration_neg=lambda: h.record_iteration({"b": v}, it), setitem=lambda: h.__setitem__("d", v),
                      update=lambda: h.update({"d": v}), setdefault=lambda: h.setdefault("d", v)).items():
        E.raises(nm, ValueError, f)
        unchanged(nm)
    big = E.choice("big", [0, 1, 2, 3])
    h.record("b", v, big)
    E.ok("any non-negative iteration accepted", len(h["b"]) >= 1)
    E.eq("value stored there", h["b"][big], v)


@contract("C11", targets=T, sym=False, trials=4)
def copies_and_stored_histories(E):
    """copying or pickling keeps every record and the key check"""
    import pickle

    h = E.imp(IH).IterationHistory(list(KEYS))
    n = E.int("n", 1, 6)
    for i in range(n):
        h.record("a", E.np.arange(i + 1.0), i)
    import dill

    for nm, g in dict(deepcopy=copy.deepcopy(h), pickle=pickle.loads(pickle.dumps(h)), dill=dill.loads(dill.dumps(h))).items():
        E.ok(f"{nm}: type", type(g) is type(h))
        E.ok(f"{nm}: keys", set(g) == set(KEYS))
        E.ok(f"{nm}: records", all(E.np.array_equal(g["a"][i], h["a"][i]) and g["a"][i] is not h["a"][i] for i in range(n)))
        E.raises(f"{nm}: unknown key", ValueError, lambda: g.record("d", 1, 0))
        g["a"][0][0] = 77.0
        E.ok(f"{nm}: independent", h["a"][0][0] == 0)


def snap(v):
    import hashlib

    import dill

    return hashlib.sha1(dill.dumps(v)).hexdigest()


def same_value(np, a, b, depth=0):
    """structural equality of recorded values"""
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return a.shape == b.shape and all(same_value(np, x, y, depth + 1) for x, y in zip(a.ravel(), b.ravel()))
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, dict):
        return set(a) == set(b) and all(same_value(np, a[k], b[k], depth + 1) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(np, x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, (int, float, str, bool, type(None), np.generic)):
        return a == b or (a != a and b != b)
    if callable(a) or depth > 8:
        return True
    if hasattr(a, "__dict__"):
        return all(same_value(np, a.__dict__[k], b.__dict__.get(k), depth + 1) for k in a.__dict__)
    return True


@contract("C11", targets=["VBMC.optimize", "IterationHistory.record_iteration"], sym=False, trials=2, budget=300)
def whole_runs(E):
    """during complete runs (and a resumed one) every snapshot, once its iteration is over, never changes"""
    import logging

    import numpy as np

    logging.disable(logging.CRITICAL)
    VBMC = E.imp("pyvbmc.vbmc").VBMC
    D = E.dim("D", 1, 2)
    np.random.seed(E.int("seed", 0, 10**6))
    c = np.random.randn(D)
    v = VBMC(lambda x: float(-0.5 * np.sum((x - c) ** 2)), np.zeros((1, D)), None, None, -3 * np.ones((1, D)), 3 * np.ones((1, D)),
             options=dict(max_iter=3, min_iter=0, min_fun_evals=0, display="off"))
    H = v.iteration_history.__class__
    kept = {}
    real = H.record_iteration
    # the last record of an iteration is the one of its random state
    track = ["elbo", "elbo_sd", "sKL", "gp", "vp", "function_logger", "optim_state", "func_count", "r_index", "lcb_max", "n_eff", "random_state"]

    def record_iteration(self, kv, it):
        real(self, kv, it)
        if "random_state" in kv:
            for k in track:
                if self[k] is not None and len(self[k]) > it:
                    kept[k, it] = copy.deepcopy(self[k][it])

    E.patch(H, "record_iteration", record_iteration)
    skip = {"stable"}  # set when an iteration is chosen as the best one

    def check(nm):
        for (k, it), x in kept.items():
            now = v.iteration_history[k][it]
            if k == "vp":
                x = copy.deepcopy(x)
                now = copy.deepcopy(now)
                for o in (x, now):
                    o.stats = {a: b for a, b in (o.stats or {}).items() if a not in skip}
                    o._mode = None
            E.ok(f"{nm}: {k} of iteration {it}", same_value(np, x, now))
        E.ok(f"{nm}: something was recorded", len(kept) > 0)

    vp, _ = v.optimize()
    check("after the run")
    vp.mu += 1.0
    v.vp.mu += 1.0
    v.function_logger.X[0] += 1.0
    v.optim_state["N"] = -1
    v.gp.X += 1.0
    check("after changing the live objects")
    v.vp.mu -= 1.0
    v.function_logger.X[0] -= 1.0
    v.gp.X -= 1.0
    v.options.__setitem__("max_iter", 4, force=True)
    v.optimize()
    check("after resuming")
    E.ok("resumed run adds an iteration", list(v.iteration_history["iter"]) == [0, 1, 2, 3])
