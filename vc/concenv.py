"""Runtime-contract environment: runs the untouched code under CPython/numpy."""
import math
import traceback

import numpy as np
import scipy.stats

from .harness import Discard, EnvBase, StubMiss


class Failed(Exception):
    pass


class ConcEnv(EnvBase):
    sym = False
    np = np
    norm = scipy.stats.norm
    gammaln = staticmethod(scipy.special.gammaln)

    def __init__(self, case, seed, shapes=None, given=None, size_hint=4):
        self.case = dict(case)
        self.rng = np.random.default_rng(seed)
        self.seed = seed
        self.given = given or {}
        self.draws = {}
        self.failures = []
        self.checks = 0
        self.patches = []
        self.shapes = shapes or {}
        self.size_hint = size_hint
        self.style = int(self.rng.integers(0, 4))

    # ------------------------------------------------------- inputs
    def _get(self, name, gen):
        if name in self.draws:
            name = name + "'"
        if name in self.given:
            v = dec(self.given[name])
        else:
            v = gen()
        self.draws[name] = enc(v)
        return v

    def dim(self, name, lo=1, hi=None):
        hi = max(lo, hi if hi is not None else self.size_hint)
        v = int(self._get("dim:" + name, lambda: int(self.rng.integers(lo, hi + 1))))
        return v

    def int(self, name, lo, hi):
        return int(self._get("int:" + name, lambda: int(self.rng.integers(lo, hi + 1))))

    def bool(self, name):
        return bool(self._get("bool:" + name, lambda: bool(self.rng.integers(0, 2))))

    def choice(self, name, options):
        i = int(self._get("choice:" + name, lambda: int(self.rng.integers(0, len(options)))))
        return options[i % len(options)]

    def _arr(self, name, dims, gen):
        dims = tuple(int(d) for d in dims)

        def g():
            return gen(dims) if dims else float(gen((1,))[0])

        v = self._get(name, g)
        if dims:
            v = np.array(v, dtype=float)
            if v.shape != dims:
                w = gen(dims)
                if v.ndim == len(dims):
                    sl = tuple(slice(0, min(a, b)) for a, b in zip(v.shape, dims))
                    w[sl] = v[sl]
                v = w
                self.draws[name] = enc(v)
            return v
        return float(v)

    def _scale(self):
        return [1.0, 0.3, 3.0, 1.0][self.style]

    def real(self, name, *dims):
        def gen(d):
            x = self.rng.standard_normal(d) * self._scale()
            r = self.rng.random(d)
            x = np.where(r < 0.08, np.round(x), x)
            if self.style == 3:
                x = np.where(r > 0.9, 0.0, x)
            return x

        return self._arr(name, dims, gen)

    def pos(self, name, *dims):
        return self._arr(name, dims, lambda d: np.exp(self.rng.standard_normal(d) * 0.6 * self._scale()))

    def nonneg(self, name, *dims):
        def gen(d):
            x = np.exp(self.rng.standard_normal(d))
            return np.where(self.rng.random(d) < 0.15, 0.0, x)

        return self._arr(name, dims, gen)

    def unit(self, name, *dims):
        t = self.pos(name, *dims)
        return t / (1 + t)

    def ext(self, name, *dims, classes=(0, 1, -1, 2), scale=1.0):
        vals = {0: None, 1: np.inf, -1: -np.inf, 2: np.nan}

        def gen(d):
            x = self.rng.standard_normal(d) * scale
            oth = [vals[c] for c in classes if c != 0]
            if not oth:
                return x
            k = self.rng.integers(0, len(oth), d)
            o = np.array(oth)[k]
            if 0 in classes:
                return np.where(self.rng.random(d) < 0.3, o, x)
            return o

        return self._arr(name, dims, gen)

    def mask(self, name, *dims, nonempty=False):
        def gen(d):
            m = self.rng.random(d) < [0.5, 0.8, 0.2, 0.95][self.style]
            if nonempty and not m.any():
                m.flat[int(self.rng.integers(0, m.size))] = True
            return m.astype(float)

        m = self._arr(name, dims, gen)
        if nonempty and not np.any(m):
            raise Discard()
        return m.astype(bool) if dims else bool(m)

    def orthogonal(self, name, n):
        def gen(d):
            q, _ = np.linalg.qr(self.rng.standard_normal((n, n)))
            return q

        return self._arr(name, (n, n), gen)

    def simplex(self, name, n):
        """positive weights summing to one"""
        e = self.pos(name, n)
        return e / np.sum(e)

    def sub(self, lo, hi):
        return lo + (hi - lo) * self.unit(f"sub{len(self.draws)}")

    # ------------------------------------------------------- logic
    def assume(self, c):
        if not bool(np.all(c)):
            raise Discard()

    def _fail(self, name, msg):
        self.failures.append((name, msg))

    def ok(self, name, c, msg=""):
        self.checks += 1
        if not bool(np.all(c)):
            self._fail(name, msg or f"condition is false: {short(c)}")

    def eq(self, name, a, b, rtol=1e-6, atol=1e-8):
        self.checks += 1
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.shape != b_.shape:
            self._fail(name, f"shape {a_.shape} != {b_.shape}")
            return
        if a_.dtype == object or b_.dtype == object:
            if not bool(np.all(a_ == b_)):
                self._fail(name, f"{short(a)} != {short(b)}")
            return
        if a_.dtype == bool or b_.dtype == bool:
            good = a_ == b_
        else:
            with np.errstate(all="ignore"):
                good = (a_ == b_) | (np.isnan(a_) & np.isnan(b_)) | (
                    np.isfinite(a_) & np.isfinite(b_) & (np.abs(a_ - b_) <= atol + rtol * np.maximum(np.abs(a_), np.abs(b_))))
        if not np.all(good):
            self._fail(name, f"got {short(a)}, contract requires {short(b)}")

    def same(self, name, a, b):
        self.eq(name, a, b, rtol=0, atol=0)

    def le(self, name, a, b, tol=0.0):
        self.checks += 1
        if not bool(np.all(np.asarray(a) <= np.asarray(b) + tol)):
            self._fail(name, f"{short(a)} > {short(b)}")

    def lt(self, name, a, b):
        self.checks += 1
        if not bool(np.all(np.asarray(a) < np.asarray(b))):
            self._fail(name, f"{short(a)} >= {short(b)}")

    def raises(self, name, exc, fn):
        self.checks += 1
        try:
            r = fn()
        except exc as e:
            if not_judged(e, self) and not isinstance(e, (ValueError, TypeError)):
                raise
            return None
        except Exception as e:
            if not_judged(e, self):
                raise
            self._fail(name, f"raised {type(e).__name__}: {e} instead of {exc}")
            return None
        self._fail(name, f"no exception; returned {short(r)}")
        return r

    def attempt(self, fn):
        """(value, exception)"""
        try:
            return fn(), None
        except Exception as e:
            if not_judged(e, self):
                raise
            return None, e

    def is_true(self, c):
        return bool(np.all(c))

    def jac(self, f, x, h=1e-4):
        """fourth-order central differences"""
        x = np.array(x, dtype=float)
        y0 = np.asarray(f(x.copy()))
        out = np.zeros(y0.shape + x.shape)
        for j in np.ndindex(*x.shape):
            def at(d):
                z = x.copy()
                z[j] += d
                return np.asarray(f(z), dtype=float)

            hh = h * max(1.0, abs(float(x[j])) if x.ndim else 1.0)
            out[(...,) + j] = (8 * (at(hh) - at(-hh)) - (at(2 * hh) - at(-2 * hh))) / (12 * hh)
        return out

    def rng_log(self):
        """log of the raw random draws (standard normal / uniform arrays) made from now on"""
        log = []

        def wrap(f):
            def g(*a, **k):
                r = f(*a, **k)
                log.append(np.array(r))
                return r
            return g

        for nm in ("randn", "standard_normal", "rand", "random", "random_sample"):
            self.patch(np.random, nm, wrap(getattr(np.random, nm)))
        return log

    def rng_replay(self, log):
        """the next draws give the recorded values again"""
        rest = [np.array(r) for r in log]
        self.unpatch()

        def again(f):
            def g(*a, **k):
                if not rest:
                    return f(*a, **k)
                return rest.pop(0)
            return g

        for nm in ("randn", "standard_normal", "rand", "random", "random_sample"):
            self.patch(np.random, nm, again(getattr(np.random, nm)))

    def deriv(self, f, x, h=1e-4):
        x = np.array(x, dtype=float)
        hh = h * np.maximum(1.0, np.abs(x))
        return (8 * (f(x + hh) - f(x - hh)) - (f(x + 2 * hh) - f(x - 2 * hh))) / (12 * hh)

    def forall(self, *a):
        raise NotImplementedError


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def enc(v):
    if isinstance(v, np.ndarray):
        return {"shape": list(v.shape), "data": [encf(x) for x in v.ravel().tolist()]}
    if isinstance(v, float):
        return encf(v)
    return v


def encf(x):
    if isinstance(x, float) and not math.isfinite(x):
        return "nan" if math.isnan(x) else ("inf" if x > 0 else "-inf")
    return x


def dec(v):
    if isinstance(v, dict) and "shape" in v:
        return np.array([float(x) for x in v["data"]], dtype=float).reshape(v["shape"])
    if isinstance(v, str) and v in ("nan", "inf", "-inf"):
        return float(v)
    return v


def not_judged(e, E):
    """the contract could not be applied to this code (a private name is gone, a stand-in
    lacks what is asked of it): no verdict"""
    if isinstance(e, StubMiss):
        return True
    if isinstance(e, AttributeError) and any(getattr(e, "obj", None) is o for o in getattr(E, "partial", [])):
        return True
    if isinstance(e, (AttributeError, TypeError, ImportError)):
        tb = traceback.extract_tb(e.__traceback__)
        f = tb[-1].filename if tb else ""
        if "/contracts/" in f or f.endswith(("/harness.py", "/concenv.py")) or "importlib" in f:
            return True
    return False


def run_once(c, case, seed, shapes=None, given=None, size_hint=4):
    """returns (status, failures, env) status in ok/discard/fail"""
    import warnings

    E = ConcEnv(case, seed, shapes, given, size_hint)
    st = np.random.get_state()
    np.random.seed(seed % (2**32))
    old = np.geterr()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.seterr(all="ignore")
            c.fn(E)
    except Discard:
        return "discard", [], E
    except Exception as e:
        if not_judged(e, E):
            return "unavailable", [f"{type(e).__name__}: {e}"], E
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f"{f.filename}:{f.lineno}" for f in tb][-3:]
        E.failures.append(("no unexpected exception", f"{type(e).__name__}: {e} at {loc}"))
    finally:
        E.unpatch()
        np.seterr(**old)
        np.random.set_state(st)
    return ("fail" if E.failures else "ok"), E.failures, E
