"""Self-test of the array semantics the proofs rely on: every operation below is run once by the
verifier's numpy layer on arrays of *symbolic* extents and entries and once by numpy on random
concrete arrays; the symbolic result (extents, every entry, kind) is evaluated at those arrays and
must agree, and every fact the layer assumed on the way must be true of them.
Run by setup.sh:  python vc/selftest.py [TRIALS]   (exit 1 on any disagreement)."""
import itertools
import math
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
import numpy as np
import scipy.special as sp
import scipy.stats as st

from vc import arr, core, npshim, terms as tm
from vc.core import Num, SBool
from vc.arr import SArr

warnings.simplefilter("ignore")
np.seterr(all="ignore")
FUNS = dict(
    exp=np.exp, log=np.log, sqrt=np.sqrt, erf=sp.erf, erfc=sp.erfc, sin=np.sin, cos=np.cos, tan=np.tan, abs=abs, floor=np.floor,
    phi=sp.ndtr, ppf=sp.ndtri, gammaln=sp.gammaln, log1p=np.log1p, expm1=np.expm1, erfinv=sp.erfinv, erfcinv=sp.erfcinv, ceil=np.ceil,
    atan=np.arctan, tanh=np.tanh, cbrt=np.cbrt,
)


class Unknown(Exception):
    pass


def ev(t, env, bnd=()):
    """numeric value of a term"""
    op, a = t.op, t.args
    if op == "const":
        return int(a[0]) if a[0].denominator == 1 else float(a[0])
    if op == "bconst":
        return bool(a[0])
    if op == "var":
        if a[0] in env:
            return env[a[0]]
        if a[0] == "pi":
            return math.pi
        raise Unknown(a[0])
    if op == "bvar":
        return dict(bnd)[a[0]]
    if op == "app":
        ix = tuple(ev(x, env, bnd) for x in a[1:])
        f = env.get(a[0])
        if f is None:
            raise Unknown(a[0])
        if isinstance(f, dict):
            if ix not in f:
                raise Unknown(a[0])
            return f[ix]
        if any(i < 0 or i >= n for i, n in zip(ix, f.shape)):
            raise Unknown("out of range")
        return f[ix].item()
    if op == "and":
        return all(ev(x, env, bnd) for x in a)
    if op == "or":
        return any(ev(x, env, bnd) for x in a)
    if op == "not":
        return not ev(a[0], env, bnd)
    if op == "ite":
        return ev(a[1] if ev(a[0], env, bnd) else a[2], env, bnd)
    if op in tm.BINDERS:
        n = ev(a[0], env, bnd)
        if op == "maxr":
            return max(ev(a[2], env, bnd + ((a[1], i),)) for i in range(n))
        if op == "argmax":
            z = [ev(a[2], env, bnd + ((a[1], i),)) for i in range(n)]
            return z.index(max(z))
        g = (ev(a[2], env, bnd + ((a[1], i),)) for i in range(max(n, 0)))
        if op == "sum":
            return sum(g)
        if op == "forall":
            return all(g)
        if op == "exists":
            return any(g)
        raise Unknown(op)
    if op == "fun":
        x = ev(a[1], env, bnd)
        f = FUNS.get(a[0])
        if f is None:
            raise Unknown("fun " + a[0])
        return float(f(x)) if a[0] not in ("floor", "ceil") else int(f(x))
    v = [ev(x, env, bnd) for x in a]
    if op == "add":
        return sum(v)
    if op == "mul":
        r = 1
        for x in v:
            r = r * x
        return r
    if op == "pow":
        return float(v[0]) ** v[1] if v[0] != 0 or v[1] > 0 else math.nan
    close = isinstance(v[0], float) or isinstance(v[1], float)
    tol = 1e-9 * (1 + abs(v[0]) + abs(v[1])) if close else 0
    if op == "eq":
        return abs(v[0] - v[1]) <= tol if close else v[0] == v[1]
    if op == "le":
        return v[0] <= v[1] + tol
    if op == "lt":
        return v[0] < v[1] + tol if close else v[0] < v[1]
    if op == "idiv":
        return v[0] // v[1]
    if op == "mod":
        return v[0] % v[1]
    raise Unknown(op)


class S(core.State):
    """state that follows the concrete run"""

    def __init__(self, env):
        super().__init__([], time.time() + 60)
        self.env = env

    def decide(self, b):
        if b.op == "bconst":
            return b.args[0]
        r = ev(b, self.env)
        self.path.add(b if r else tm.not_(b))
        return r


def num(x, env, want=None):
    """value of a Num / SBool / python scalar"""
    if isinstance(x, SBool):
        return ev(core.bterm(x), env)
    if isinstance(x, Num):
        if x.k is not None:
            k = ev(x.k, env)
            if k == 1:
                return math.inf
            if k == -1:
                return -math.inf
            if k == 2:
                return math.nan
        try:
            return ev(x.t, env)
        except Unknown:
            # a value the layer only describes by facts: take numpy's and check the facts
            t = x.t
            if want is not None and t.op == "var":
                env[t.args[0]] = want
                return want
            if want is not None and t.op == "app":
                ix = tuple(ev(q, env) for q in t.args[1:])
                env.setdefault(t.args[0], {})[ix] = want
                return want
            raise
    return x


def agree(got, want, env):
    if isinstance(want, (tuple, list)):
        if len(got) != len(want):
            return "length"
        for g, w in zip(got, want):
            r = agree(g, w, env)
            if r:
                return r
        return None
    w = np.asarray(want)
    if isinstance(got, SArr):
        shp = tuple(ev(arr.dsize(d), env) for d in got.dims)
        if shp != w.shape:
            return f"shape {shp} != {w.shape}"
        if not {"f": "f", "i": "iu", "b": "b"}[got.kind].count(w.dtype.kind):
            return f"kind {got.kind} != {w.dtype.kind}"
        axes = [indices(d, env) for d in got.dims]
        if tuple(map(len, axes)) != w.shape:
            return f"positions {tuple(map(len, axes))} != {w.shape}"
        for i in np.ndindex(*w.shape):
            ix = tuple(x[j] for x, j in zip(axes, i))
            v = num(got.at(ix), env, w[i].item())
            if not same(v, w[i].item()):
                return f"entry {i}: {v} != {w[i]}"
        return None
    if w.ndim:
        return f"scalar instead of shape {w.shape}"
    v = num(got, env, w.item())
    return None if same(v, w.item()) else f"{v} != {w}"


def indices(d, env):
    """the positions of one axis, in order"""
    if isinstance(d, arr.SDim):
        return [tm.const(j) for j in range(ev(d.n, env))]
    if isinstance(d, arr.PDim):
        return list(itertools.product(*[indices(p, env) for p in d.parts]))
    if isinstance(d, arr.CDim):
        return [(k, i) for k, g in enumerate(d.segs) for i in indices(g, env)]
    base = list(itertools.product(*[indices(p, env) for p in d.base]))
    return [i for i in base if ev(core.cbool(d.pred(i)), env)]


def same(a, b):
    if isinstance(b, bool) or isinstance(a, bool):
        return bool(a) == bool(b)
    if math.isnan(b) or math.isnan(a):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-8 * (1 + abs(a) + abs(b))


U = lambda name: (name, lambda m, e: getattr(m, name)(e["A"]))
P = lambda name: (name + "+", lambda m, e: getattr(m, name)(m.abs(e["A"]) + 0.5))
# every entry: (name, f(numpy-like module, arrays)).  A: n x m, B: n x m, C: m x k, v: m, w: m,
# u: n, col: n x 1, row: 1 x m, M: n x m bool, q: scalar, X: n x m with nan / inf entries, J: n ints
OPS = [
    ("A+B", lambda m, e: e["A"] + e["B"]), ("A-v", lambda m, e: e["A"] - e["v"]), ("A*row", lambda m, e: e["A"] * e["row"]),
    ("A/|B|", lambda m, e: e["A"] / (m.abs(e["B"]) + 1)), ("A**2", lambda m, e: e["A"] ** 2), ("2-A", lambda m, e: 2 - e["A"]), ("1/A", lambda m, e: 1 / e["A"]),
    ("-A", lambda m, e: -e["A"]), ("A@C", lambda m, e: e["A"] @ e["C"]), ("A@v", lambda m, e: e["A"] @ e["v"]), ("v@w", lambda m, e: e["v"] @ e["w"]),
    ("u@A", lambda m, e: e["u"] @ e["A"]), ("dot", lambda m, e: m.dot(e["A"], e["C"])), ("A.T@B", lambda m, e: e["A"].T @ e["B"]),
    ("A<B", lambda m, e: e["A"] < e["B"]), ("A<=v", lambda m, e: e["A"] <= e["v"]), ("A==B", lambda m, e: e["J"] == e["J2"]), ("A!=B", lambda m, e: e["J"] != e["J2"]),
    ("~M", lambda m, e: ~e["M"]), ("M&", lambda m, e: e["M"] & (e["A"] > 0)), ("M|", lambda m, e: e["M"] | (e["A"] > 0)),
    U("exp"), P("log"), P("sqrt"), U("abs"), U("floor"), U("ceil"), U("sign"), U("isnan"), U("isfinite"), U("square"), U("transpose"), U("ravel"), U("log1p") if 0 else U("negative") if hasattr(npshim.NP, "get") and "negative" in npshim.NP else U("abs"),
    ("X isnan", lambda m, e: m.isnan(e["X"])), ("X isfinite", lambda m, e: m.isfinite(e["X"])), ("X isinf", lambda m, e: m.isinf(e["X"])),
    ("X+A", lambda m, e: e["X"] + e["A"]), ("X*A", lambda m, e: e["X"] * e["A"]), ("X-X", lambda m, e: e["X"] - e["X"]), ("X<A", lambda m, e: e["X"] < e["A"]), ("X/A", lambda m, e: e["X"] / e["A"]), ("A/X", lambda m, e: e["A"] / e["X"]),
    ("exp X", lambda m, e: m.exp(e["X"])), ("log|X|", lambda m, e: m.log(m.abs(e["X"]))), ("1/(J-J)", lambda m, e: e["A"] / (e["A"] - e["A"])), ("log 0", lambda m, e: m.log(e["A"] - e["A"])), ("sqrt neg", lambda m, e: m.sqrt(-m.abs(e["A"]) - 1)),
    ("maximum", lambda m, e: m.maximum(e["A"], e["B"])), ("minimum", lambda m, e: m.minimum(e["A"], e["v"])), ("maximum nan", lambda m, e: m.maximum(e["X"], e["A"])), ("fmax nan", lambda m, e: m.fmax(e["X"], e["A"]) if "fmax" in npshim.NP else e["A"]),
    ("where", lambda m, e: m.where(e["M"], e["A"], e["v"])), ("where s", lambda m, e: m.where(e["M"], e["A"], 0.0)), ("clip", lambda m, e: m.clip(e["A"], -1.0, e["v"] + 10)),
    ("sum", lambda m, e: m.sum(e["A"])), ("sum0", lambda m, e: m.sum(e["A"], axis=0)), ("sum1", lambda m, e: m.sum(e["A"], 1)), ("sum1k", lambda m, e: m.sum(e["A"], axis=1, keepdims=True)), ("sumM", lambda m, e: m.sum(e["M"])), ("M.sum0", lambda m, e: e["M"].sum(axis=0)),
    ("mean", lambda m, e: m.mean(e["A"])), ("mean0", lambda m, e: m.mean(e["A"], axis=0)), ("prod v", lambda m, e: m.prod(e["A"][0:1, 0:1])), ("var", lambda m, e: m.var(e["A"])), ("std1", lambda m, e: m.std(e["A"], axis=1)), ("var ddof", lambda m, e: m.var(e["A2"], ddof=1)),
    ("max", lambda m, e: m.max(e["A"])), ("max0", lambda m, e: m.max(e["A"], axis=0)), ("min1", lambda m, e: m.min(e["A"], axis=1)), ("amax", lambda m, e: m.amax(e["v"])), ("argmax", lambda m, e: m.argmax(e["v"])), ("argmin", lambda m, e: m.argmin(e["u"])),
    ("any", lambda m, e: m.any(e["M"])), ("all", lambda m, e: m.all(e["M"])), ("any1", lambda m, e: m.any(e["M"], axis=1)), ("all0", lambda m, e: m.all(e["M"], axis=0)),
    ("T", lambda m, e: e["A"].T), ("A[0]", lambda m, e: e["A"][0]), ("A[-1]", lambda m, e: e["A"][-1]), ("A[:,0]", lambda m, e: e["A"][:, 0]), ("A[:,0:1]", lambda m, e: e["A"][:, 0:1]), ("A[1:]", lambda m, e: e["A"][1:]), ("A[:-1]", lambda m, e: e["A"][:-1]), ("A[-1:]", lambda m, e: e["A"][-1:]), ("A[None]", lambda m, e: e["A"][None, :, :]), ("v[:,None]", lambda m, e: e["v"][:, None]), ("v[None]", lambda m, e: e["v"][None, :]),
    ("v[n:]", lambda m, e: e["V2"][e["n"]:]), ("v[:n]", lambda m, e: e["V2"][: e["n"]]), ("v[:-n]", lambda m, e: e["V2"][: -e["n"]]), ("v[-n:]", lambda m, e: e["V2"][-e["n"]:]),
    ("reshape(-1,1)", lambda m, e: e["v"].reshape(-1, 1)), ("reshape(1,-1)", lambda m, e: e["v"].reshape(1, -1)), ("col.ravel", lambda m, e: e["col"].ravel()), ("row.flatten", lambda m, e: e["row"].flatten()), ("squeeze", lambda m, e: m.squeeze(e["col2"])), ("atleast_2d", lambda m, e: m.atleast_2d(e["v"])), ("newaxis", lambda m, e: m.atleast_2d(e["A"])),
    ("ones", lambda m, e: m.ones((e["n"], 2))), ("zeros", lambda m, e: m.zeros(e["n"])), ("full", lambda m, e: m.full((e["n"], e["m"]), 3.5)), ("eye", lambda m, e: m.eye(e["n"])), ("arange", lambda m, e: m.arange(e["n"])), ("zeros_like", lambda m, e: m.zeros_like(e["A"])), ("ones_like", lambda m, e: m.ones_like(e["v"])), ("full nan", lambda m, e: m.full((e["n"],), m.nan)),
    ("concat0", lambda m, e: m.concatenate((e["A"], e["B"]), axis=0)), ("concat1", lambda m, e: m.concatenate((e["A"], e["B"]), axis=1)), ("concat v", lambda m, e: m.concatenate([e["v"], e["w"]])), ("vstack", lambda m, e: m.vstack((e["A"], e["row"]))), ("hstack", lambda m, e: m.hstack((e["v"], e["w"]))), ("append", lambda m, e: m.append(e["v"], 3.0)), ("append0", lambda m, e: m.append(e["A"], e["row"], axis=0)),
    ("diag A", lambda m, e: m.diag(e["Sq"])), ("diag v", lambda m, e: m.diag(e["v"])), ("outer", lambda m, e: m.outer(e["u"], e["v"]) if "outer" in npshim.NP else e["u"]), ("tile", lambda m, e: m.tile(e["v"], (e["n"], 1))), ("cumsum", lambda m, e: m.cumsum(e["v"])), ("repeat", lambda m, e: m.repeat(e["row"], 3, axis=0) if "repeat" in npshim.NP else e["v"]),
    ("M select", lambda m, e: e["A"][:, e["mv"]]), ("M1 select", lambda m, e: e["v"][e["mv"]]), ("rows by mask", lambda m, e: e["A"][e["mu"]]), ("ints", lambda m, e: e["u"][e["J"]]), ("ints rows", lambda m, e: e["A"][e["J"], :]), ("ints pair", lambda m, e: e["A"][e["J"], 0]),
    ("dist", lambda m, e: m.sum((e["A"][:, None, :] - e["B"][None, :, :]) ** 2, axis=2)), ("einsum", lambda m, e: m.einsum("ij,ij->i", e["A"], e["B"])), ("logsumexp", lambda m, e: m.log(m.sum(m.exp(e["A"]), axis=1))),
    ("float int div", lambda m, e: e["J"] / 2), ("int+int", lambda m, e: e["J"] + 1), ("int//", lambda m, e: e["J"] // 2), ("int%", lambda m, e: e["J"] % 2), ("array", lambda m, e: m.array([e["q"], 1.0, 2.0])), ("isclose", lambda m, e: m.array_equal(e["A"], e["B"])), ("array_equal", lambda m, e: m.array_equal(e["A"], e["A"])), ("linspace", lambda m, e: m.linspace(0.0, 1.0, 5)), ("size", lambda m, e: m.size(e["A"])), ("inv", lambda m, e: m.linalg.inv(e["S2"])), ("det", lambda m, e: m.linalg.det(e["S2"])), ("solve", lambda m, e: m.linalg.solve(e["S2"], e["b2"])),
    ("polyfit", lambda m, e: m.polyfit(e["px"], e["py"], 1)), ("cov", lambda m, e: m.cov(e["A2"].T)),
]


def a_set(f):
    def g(m, e):
        a = e["A"].copy()
        f(a, e)
        return a

    return g


OPS += [
    ("set row", a_set(lambda a, e: a.__setitem__(0, e["v"]))), ("set col", a_set(lambda a, e: a.__setitem__((slice(None), 0), e["u"]))), ("set slice", a_set(lambda a, e: a.__setitem__((slice(1, None), slice(None)), 0.0))),
    ("set mask", a_set(lambda a, e: a.__setitem__(e["M"], 7.0))), ("set col mask", a_set(lambda a, e: a.__setitem__((slice(None), e["mv"]), 1.0))), ("set ints", a_set(lambda a, e: a.__setitem__(e["J"], 2.0))), ("set elem", a_set(lambda a, e: a.__setitem__((0, 0), e["q"]))), ("iadd", a_set(lambda a, e: a.__iadd__(e["v"]))),
    ("view write", a_set(lambda a, e: a[:, 0].__setitem__(slice(None), 5.0))), ("masked assign", a_set(lambda a, e: a.__setitem__(e["M"], e["B"][e["M"]]))), ("T write", a_set(lambda a, e: a.T.__setitem__(0, 9.0))),
]


def case(rng, lo=1):
    n, m, k = (int(rng.integers(lo, 5)) for _ in range(3))
    r = lambda *s: rng.standard_normal(s) * 2
    X = r(n, m)
    z = rng.integers(0, 4, (n, m))
    X[z == 1], X[z == 2], X[z == 3] = np.nan, np.inf, -np.inf
    return dict(
        n=n, m=m, k=k, A=r(n, m), B=r(n, m), C=r(m, k), v=r(m), w=r(m), u=r(n), col=r(n, 1), row=r(1, m), M=rng.random((n, m)) < 0.5, q=float(r(1)[0]), X=X,
        J=rng.integers(0, n, n), J2=rng.integers(0, n, n), mv=rng.random(m) < 0.5, mu=rng.random(n) < 0.5, V2=r(n + m), Sq=r(n, n), col2=r(n + 1, 1), A2=r(n + 1, m), S2=r(2, 2), b2=r(2), px=r(4), py=r(4),
    )


def main(trials):
    rng = np.random.default_rng(20261)
    bad, skipped, done, sk = [], {}, 0, set()
    for name, f in OPS:
        for t in range(trials):
            e = case(rng)
            with np.errstate(all="ignore"):
                try:
                    want = f(np, dict(e))
                except Exception as x:
                    want = x
            env = {"d_n": e["n"], "d_m": e["m"], "d_k": e["k"], "s_q": e["q"]}
            s = S(env)
            core.set_cur(s) if hasattr(core, "set_cur") else setattr(core, "CUR", s)
            try:
                se = {}
                N = {c: tm.var("d_" + c, "I") for c in "nmk"}
                for c in N:
                    s.path.add(tm.le(tm.ONE, N[c]))
                    se[c] = Num(N[c])
                se["q"] = Num(tm.var("s_q", "R"))
                dims = dict(A="nm", B="nm", C="mk", v="m", w="m", u="n", col="n1", row="1m", M="nm", X="nm", J="n", J2="n", mv="m", mu="n", V2=(tm.add(N["n"], N["m"]),), Sq="nn", col2=(tm.add(N["n"], tm.ONE), tm.ONE), A2=(tm.add(N["n"], tm.ONE), N["m"]), S2=(tm.const(2), tm.const(2)), b2=(tm.const(2),), px=(tm.const(4),), py=(tm.const(4),))
                for nm, dd in dims.items():
                    dd = tuple(N[c] if c in N else tm.ONE for c in dd) if isinstance(dd, str) else dd
                    kind = {"b": "b", "i": "i", "f": "f"}[e[nm].dtype.kind]
                    val = e[nm]
                    env["a_" + nm] = np.where(np.isfinite(val), val, 0.0) if kind == "f" else val

                    def at(ix, nm=nm, kind=kind):
                        t_ = tm.app("a_" + nm, ix, {"f": "R", "i": "I", "b": "B"}[kind])
                        if kind == "b":
                            return SBool(t_)
                        if nm == "X":
                            return Num(t_, tm.app("k_X", ix, "I"))
                        return Num(t_)

                    se[nm] = arr.new(tuple(arr.SDim(d) for d in dd), at, kind)
                    if kind == "i":
                        i_ = tm.fresh("ix", "I")
                        a_ = tm.app("a_" + nm, (i_,), "I")
                        s.path.add(tm.forall(N["n"], i_, tm.and_(tm.le(tm.ZERO, a_), tm.lt(a_, N["n"]))))
                env["k_X"] = np.where(np.isnan(e["X"]), 2, np.where(np.isposinf(e["X"]), 1, np.where(np.isneginf(e["X"]), -1, 0)))
                got = f(npshim.NUMPY, se)
                if isinstance(want, Exception):
                    r = f"numpy raises {want!r}"
                else:
                    r = agree(got, want, env)
                    if r is None:
                        for fact in s.path.facts:
                            try:
                                if not ev(fact, env):
                                    r = "assumed fact is false: " + tm.show(fact)[:150]
                                    break
                            except Unknown:
                                pass
                done += 1
            except (core.Unsupported, Unknown) as x:
                skipped[name] = f"{type(x).__name__}: {x}"[:90]
                r = None
            except Exception as x:
                r = None if isinstance(want, Exception) and type(want) is type(x) else f"shim raises {x!r}, numpy gives {want!r}"[:300]
            if r:
                bad.append((name, r))
                break
            if name not in skipped:
                sk.add(name)
    core.CUR = None
    for b in bad:
        print("DISAGREE", *b)
    part = {k: v for k, v in skipped.items()}
    if os.environ.get("V"):
        for k, v in part.items():
            print("not decided", k, v)
    print(f"selftest: {len(OPS)} operations, {done} comparisons, {len(bad)} disagreements, {len(part)} operations with inputs the comparison cannot evaluate")
    return 1 if bad or done < len(OPS) else 0


if __name__ == "__main__":
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 6))
