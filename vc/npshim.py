"""numpy / scipy / builtins seen by the extracted code.

Every attribute not listed here delegates to the real library when all
arguments are concrete and raises Unsupported otherwise."""
import builtins
import copy as _copy
import math as _math

import numpy as np
import scipy

from . import arr, core
from . import terms as tm
from .arr import SArr, to_sarr, ew, ew1, from_nested, new
from .core import Num, SBool, SArrBase, Unsupported, as_num, bterm, is_sym, mkbool


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if depth > 4:
        return False
    if isinstance(x, (list, tuple)):
        return any(has_sym(i, depth + 1) for i in x)
    if isinstance(x, dict):
        return any(has_sym(i, depth + 1) for i in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(is_sym(i) for i in x.ravel())
    return False


def concretize(x):
    """replace constant symbolic values by concrete ones; None result if impossible"""
    if isinstance(x, (Num, SArr)):
        c = arr.to_concrete(x)
        if c is None:
            raise Unsupported("symbolic argument to unmodelled function")
        return c
    if isinstance(x, SBool):
        raise Unsupported("symbolic bool argument")
    if isinstance(x, tuple):
        return tuple(concretize(i) for i in x)
    if isinstance(x, list):
        return [concretize(i) for i in x]
    if isinstance(x, dict):
        return {k: concretize(v) for k, v in x.items()}
    return x


class Ufunc:
    def __init__(self, name, f, real, boolean=False, kind=None):
        self.name, self.f, self.real, self.boolean, self.kind = name, f, real, boolean, kind

    def __call__(self, *args, out=None, where=True, dtype=None, **kw):
        if where is not True:
            raise Unsupported(f"{self.name} where=")
        args2 = []
        for a in args:
            if isinstance(a, (list, tuple)):
                a = to_sarr(a) if has_sym(a) else np.asarray(a)
            args2.append(a)
        if core.CUR is None or any(isinstance(a, complex) for a in args2):
            return self.real(*args)
        if self.name in ("ceil", "floor", "round", "around", "rint", "sign") and not any(is_sym(a) for a in args2):
            return self.real(*args)
        r = ew(self.f, *args2, kind=self.kind)
        r = arr.unwrap(r)
        if out is not None:
            out[...] = r
            return out
        if isinstance(r, Num):
            c = r.const()
            if c is not None and not any(is_sym(a) for a in args2):
                return c
        return r


def _b(f):
    return lambda *a: mkbool(f(*a))


UF = {
    "add": core.n_add, "subtract": core.n_sub, "multiply": core.n_mul, "divide": core.n_div, "true_divide": core.n_div,
    "negative": core.n_neg, "abs": core.n_abs, "absolute": core.n_abs, "fabs": core.n_abs, "exp": core.n_exp,
    "log": core.n_log, "log1p": core.n_log1p, "sqrt": core.n_sqrt, "maximum": core.n_max, "minimum": core.n_min,
    "power": core.n_pow, "float_power": core.n_pow, "mod": core.n_mod, "remainder": core.n_mod, "floor": core.n_floor, "ceil": core.n_ceil,
    "square": lambda a: core.n_mul(a, a), "sign": core.n_sign, "cos": core.n_fun("cos"), "sin": core.n_fun("sin"),
    "tanh": core.n_fun("tanh"), "sinh": core.n_fun("sinh"), "arccos": core.n_arccos, "nextafter": core.n_nextafter,
    "expm1": lambda a: core.n_sub(core.n_exp(a), as_num(1)), "log2": lambda a: core.n_div(core.n_log(a), core.n_log(as_num(2))),
    "log10": lambda a: core.n_div(core.n_log(a), core.n_log(as_num(10))),
    "reciprocal": lambda a: core.n_div(as_num(1), a), "positive": lambda a: a, "round": core.n_round, "around": core.n_round, "rint": core.n_round,
    "fmax": lambda a, b: core.v_ite(core.n_isnan(a).t if isinstance(core.n_isnan(a), SBool) else (tm.TRUE if core.n_isnan(a) else tm.FALSE), b,
                                    core.v_ite(bterm(core.n_isnan(b)), a, core.n_max(a, b))),
    "floor_divide": core.n_floordiv,
}
UFB = {
    "isnan": core.n_isnan, "isinf": core.n_isinf, "isfinite": core.n_isfinite,
    "less": _b(core.c_lt), "less_equal": _b(core.c_le), "equal": _b(core.c_eq),
    "greater": _b(lambda a, b: core.c_lt(b, a)), "greater_equal": _b(lambda a, b: core.c_le(b, a)),
    "not_equal": _b(lambda a, b: tm.not_(core.c_eq(a, b))),
    "isreal": lambda a: True, "iscomplex": lambda a: False,
    "isneginf": lambda a: mkbool(tm.FALSE if a.k is None else tm.eq(a.k, core.NINF)),
    "isposinf": lambda a: mkbool(tm.FALSE if a.k is None else tm.eq(a.k, core.PINF)),
}


class LogicalUfunc:
    def __init__(self, f, real):
        self.f, self.real = f, real

    def __call__(self, *args):
        return arr.unwrap(arr.ewb(self.f, *args))


class Opaque(Unsupported):
    pass


class ModShim:
    """shim over a module; real: module, over: dict of overrides"""

    def __init__(self, real, over):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, name):
        o = self._over
        if name in o:
            return o[name]
        v = getattr(self._real, name)
        if isinstance(v, type(np)):
            s = MODS.get(v.__name__)
            return s if s is not None else ModShim(v, {})
        return wrap(v, f"{self._real.__name__}.{name}")

    def __setattr__(self, k, v):
        raise Unsupported("assignment to library module")


class Guard:
    """callable that refuses symbolic arguments"""

    def __init__(self, f, name):
        self.__dict__["f"], self.__dict__["name"] = f, name

    def __call__(self, *a, **k):
        if has_sym(a) or has_sym(k):
            try:
                a, k = concretize(a), concretize(k)
            except Unsupported:
                raise Unsupported(f"{self.name} on symbolic arguments")
        return self.f(*a, **k)

    def __getattr__(self, n):
        return getattr(self.f, n)


def wrap(v, name):
    if isinstance(v, type) or not callable(v):
        return v
    return Guard(v, name)


# ------------------------------------------------------------ numpy overrides
def dt(dtype, kind="f"):
    return arr.kind_of_dtype(dtype) if dtype is not None else kind


class ObjArr:
    """1-D array of arbitrary Python objects (dtype=object), concrete length; slices are views"""

    ndim = 1

    def __init__(self, cells):
        self.cells = cells  # list of one-element lists

    @classmethod
    def of(cls, items):
        return cls([[i] for i in items])

    @property
    def shape(self):
        return (len(self.cells),)

    @property
    def size(self):
        return len(self.cells)

    def items(self):
        return [c[0] for c in self.cells]

    def num(self):
        return to_sarr(self.items())

    def __len__(self):
        return len(self.cells)

    def __iter__(self):
        return iter(self.items())

    def _pos(self, i):
        n = len(self.cells)
        if isinstance(i, SArr):
            i = i.item()
        if isinstance(i, Num):
            for j in range(-n, n):
                if core.CUR.decide(tm.eq(i.t, tm.const(j))):
                    i = j
                    break
            else:
                raise IndexError("index out of bounds")
        i = int(i)
        if not -n <= i < n:
            raise IndexError(f"index {i} is out of bounds for axis 0 with size {n}")
        return i % n

    def __getitem__(self, i):
        if isinstance(i, slice):
            return ObjArr(self.cells[i])
        if isinstance(i, (SArr, np.ndarray, list)) and to_sarr(i).ndim > 0:
            return self.num()[i]
        return self.cells[self._pos(i)][0]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported("slice assignment to an object array")
        self.cells[self._pos(i)][0] = v

    def __deepcopy__(self, memo):
        import copy

        return ObjArr.of([copy.deepcopy(x, memo) for x in self.items()])

    def copy(self):
        return ObjArr.of(self.items())

    def astype(self, t, **k):
        return self.num().astype(t)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self.num(), k)


for _op in "add radd sub rsub mul rmul truediv rtruediv pow lt le gt ge eq ne neg abs invert and or".split():
    def _mk(nm):
        def f(self, *a):
            return getattr(self.num(), nm)(*[x.num() if isinstance(x, ObjArr) else x for x in a])
        return f
    setattr(ObjArr, f"__{_op}__", _mk(f"__{_op}__"))
ObjArr.__hash__ = object.__hash__


def _full(shape, fill, dtype=None, **k):
    if fill is None:
        sh = shape if isinstance(shape, (tuple, list)) else [shape]
        if len(sh) != 1 or is_sym(sh[0]):
            raise Unsupported("object array shape")
        return ObjArr.of([None] * int(sh[0]))
    if isinstance(fill, (SArr, np.ndarray, list)) and to_sarr(fill).ndim > 0:
        dims = arr.shape_dims(shape)
        r = new(dims, lambda idx: as_num(0), dt(dtype, arr.val_kind(to_sarr(fill))))
        arr.setitem(r, Ellipsis, fill)
        return r
    v = to_sarr(fill).scalar()
    return arr.const_arr(shape, v, dt(dtype, arr.val_kind(v)))


_empties = [0]


def _empty(shape, dtype=None, **k):
    _empties[0] += 1
    name = f"empty!{_empties[0]}"
    dims = arr.shape_dims(shape)

    def f(idx):
        flat = []

        def fl(i):
            for x in i:
                if isinstance(x, tuple):
                    fl(x)
                elif isinstance(x, int):
                    flat.append(tm.const(x))
                else:
                    flat.append(x)

        fl(idx)
        t = tm.app(name, flat, "R")
        return Num(t, tm.app(name + "k", flat, "I"))

    return new(dims, f, dt(dtype))


def _like(v):
    def g(a, dtype=None, **k):
        a = to_sarr(a)
        return new(a.dims, (lambda idx: arr.cast(kk, v)), kk) if (kk := dt(dtype, a.kind)) else None

    return g


def _full_like(a, fill, dtype=None, **k):
    a = to_sarr(a)
    kk = dt(dtype, a.kind)
    if kk == "i":
        v = as_num(fill) if not isinstance(fill, SArr) else None
        if v is not None and v.k is not None:
            raise OverflowError("cannot convert float infinity to integer")
    r = new(a.dims, lambda idx: as_num(0), kk)
    arr.setitem(r, Ellipsis, fill)
    return r


def _array(x, dtype=None, copy=True, ndmin=0, order=None, **k):
    if isinstance(x, np.ndarray) and x.dtype == object and not has_sym(x):
        return np.array(x, dtype=dtype)
    if not has_sym(x) and not isinstance(x, (list, tuple, int, float, np.number, np.ndarray, bool)):
        return np.array(x, dtype=dtype)
    try:
        if isinstance(x, (list, tuple)) and not has_sym(x):
            r = arr.from_np(np.array(x, dtype=dtype))
        else:
            r = arr.copy(to_sarr(x))
    except Unsupported:
        if has_sym(x):
            raise
        return np.array(x, dtype=dtype)
    if dtype is not None:
        r = r.astype(dtype)
    return arr.atleast(r, ndmin) if ndmin else r


def _asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        return x if dtype is None else x.astype(dtype)
    return _array(x, dtype)


def _prod(a, axis=None, keepdims=False, **k):
    return arr.np_prod(a, axis, keepdims)


def red(f):
    def g(a, axis=None, keepdims=False, **k):
        if k.get("out") is not None or k.get("where", True) is not True:
            raise Unsupported("reduction with out/where")
        if isinstance(a, (list, tuple)):
            a = to_sarr(a)
        if isinstance(a, np.ndarray) and a.dtype == object and not has_sym(a):
            raise Unsupported("object array reduction")
        return f(a, axis, keepdims)

    return g


def _var(a, axis=None, ddof=0, keepdims=False, **k):
    a = to_sarr(a)
    m = arr.np_mean(a, axis, True)
    d = a - m
    axs = arr.axes_of(a, axis)
    n = Num(tm.mul(*[arr.dsize(a.dims[x]) for x in axs]))
    return arr.np_sum(d * d, axis, keepdims) / (n - ddof)


def _std(a, axis=None, ddof=0, keepdims=False, **k):
    return NP["sqrt"](_var(a, axis, ddof, keepdims))


def _ndim(x):
    if isinstance(x, (SArr,)):
        return x.ndim
    if isinstance(x, (Num, SBool)):
        return 0
    if has_sym(x):
        return to_sarr(x).ndim
    return np.ndim(x)


def _shape(x):
    if has_sym(x):
        return to_sarr(x).shape
    return np.shape(x)


def _size(x, axis=None):
    if has_sym(x):
        a = to_sarr(x)
        return a.size if axis is None else a.shape[axis]
    return np.size(x, axis)


def _isscalar(x):
    if isinstance(x, (Num, SBool)):
        return True
    if isinstance(x, SArr):
        return False
    return np.isscalar(x)


def _polyfit(x, y, deg, cov=False, **k):
    """degree 1 least squares in closed form (at least two points, a concrete number of them)"""
    x, y = to_sarr(x), to_sarr(y)
    nx = arr.dsize(x.dims[0])
    if deg != 1 or k or x.ndim != 1 or y.ndim != 1 or not tm.isconst(nx):
        raise Unsupported("polyfit")
    n = int(tm.cval(nx))
    if not tm.isconst(arr.dsize(y.dims[0])) or int(tm.cval(arr.dsize(y.dims[0]))) != n:
        raise TypeError("expected x and y to have same length")
    if n < 2 or (cov and n < 3):
        raise Unsupported("polyfit with too few points")
    x, y = x.astype(float), y.astype(float)
    xm, ym = arr.np_sum(x) / n, arr.np_sum(y) / n
    sxx = arr.np_sum((x - xm) ** 2)
    if not core.CUR.decide(tm.lt(tm.ZERO, as_num(sxx).t)):
        raise Unsupported("polyfit with equal abscissae")
    sl = arr.np_sum((x - xm) * (y - ym)) / sxx
    ic = ym - sl * xm
    p = to_sarr([sl, ic])
    if not cov:
        return p
    rss = arr.np_sum((y - sl * x - ic) ** 2) / (n - 2)
    return p, to_sarr([[rss / sxx, -rss * xm / sxx], [-rss * xm / sxx, rss * (1.0 / n + xm**2 / sxx)]])


def _append(a, b, axis=None):
    if isinstance(a, ObjArr):
        return ObjArr.of(a.items() + (b.items() if isinstance(b, ObjArr) else list(to_sarr(b))))
    a, b = to_sarr(a), to_sarr(b)
    if axis is None:
        return arr.concatenate([arr.ravel(arr.atleast(a, 1)), arr.ravel(arr.atleast(b, 1))], 0)
    return arr.concatenate([a, b], axis)


def _atleast(n):
    def g(*xs):
        r = []
        for x in xs:
            r.append(arr.atleast(x, n))
        return r[0] if len(r) == 1 else tuple(r)

    return g


def _where(c, *ab):
    if ab:
        return arr.np_where3(c, *ab)
    return arr.np_where1(c)


def _all(a, axis=None, keepdims=False, **k):
    if isinstance(a, (list, tuple)):
        a = to_sarr(a)
    if not is_sym(a) and not isinstance(a, np.ndarray):
        return np.all(a)
    if isinstance(a, Num):
        return mkbool(bterm(a))
    return arr.np_all(a, axis, keepdims)


def _any(a, axis=None, keepdims=False, **k):
    if isinstance(a, (list, tuple)):
        a = to_sarr(a)
    if not is_sym(a) and not isinstance(a, np.ndarray):
        return np.any(a)
    if isinstance(a, Num):
        return mkbool(bterm(a))
    return arr.np_any(a, axis, keepdims)


def _hstack(x):
    x = [arr.atleast(i, 1) for i in x]
    return arr.concatenate(x, 0 if x[0].ndim == 1 else 1)


def _vstack(x):
    return arr.concatenate([arr.atleast(i, 2) for i in x], 0)


def _array_equal(a, b):
    a, b = to_sarr(a), to_sarr(b)
    if a.ndim != b.ndim:
        return False
    for d1, d2 in zip(a.dims, b.dims):
        if not arr.same_dim(d1, d2):
            if core.CUR.decide(tm.not_(tm.eq(arr.dsize(d1), arr.dsize(d2)))):
                return False
    return arr.np_all(a == b)


def _clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = NP["maximum"](r, lo)
    if hi is not None:
        r = NP["minimum"](r, hi)
    return r


def _copyto(dst, src):
    dst[...] = src


def _copyf(a, **k):
    if isinstance(a, (SArr, Num, list, tuple)) or (isinstance(a, np.ndarray) and a.dtype.kind in "fiub"):
        return arr.copy(to_sarr(a))
    return np.copy(a)


def _einsum(spec, *ops):
    spec = spec.replace(" ", "")
    if "->" not in spec or "." in spec:
        raise Unsupported("einsum form")
    ins, out = spec.split("->")
    ins = ins.split(",")
    ops = [to_sarr(o) for o in ops]
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum dims")
        for c, d in zip(s, o.dims):
            if c in dim and not arr.same_dim(dim[c], d):
                raise Unsupported("einsum dim mismatch")
            dim.setdefault(c, d)
    redl = [c for c in dim if c not in out]
    snaps = [arr.snapshot(o)[0] for o in ops]

    def f(idx):
        env = dict(zip(out, idx))

        def el(r):
            e = dict(env)
            e.update(zip(redl, r))
            v = as_num(1)
            for s, sn in zip(ins, snaps):
                v = core.n_mul(v, as_num(sn(tuple(e[c] for c in s))))
            return v

        return arr.sum_red([dim[c] for c in redl], el)

    if not out:
        return f(())
    return new([dim[c] for c in out], f, "f")


def _argsort(a, axis=-1, **k):
    """contract: a permutation sorting the values (ascending); nothing assumed about ties"""
    a = to_sarr(a)
    if axis is None:
        a = arr.ravel(a)
    if a.ndim == 2 and arr.is_one(a.dims[1]) and axis == 0:
        return arr.expand(_argsort(arr.ravel(a)), 1)
    if a.ndim != 1:
        raise Unsupported("argsort of 2-d")
    d = a.dims[0]
    if not isinstance(d, arr.SDim):
        raise Unsupported("argsort on structured dim")
    core._perm = getattr(core, "_perm", 0) + 1
    nm = f"perm!{core._perm}"
    inv = f"pinv!{core._perm}"
    p = lambda i: tm.app(nm, (i,), "I")
    q = lambda i: tm.app(inv, (i,), "I")
    src, _ = arr.snapshot(a)
    st = core.CUR
    if st.scope:
        raise Unsupported("argsort in generic context")
    n = d.n
    rng = lambda t: tm.and_(tm.le(tm.ZERO, t), tm.lt(t, n))
    fa = lambda f: st.path.add(arr.reduce_dims("forall", [d], f))
    fa(lambda r: tm.and_(rng(p(r[0])), tm.eq(q(p(r[0])), r[0])))
    fa(lambda r: tm.and_(rng(q(r[0])), tm.eq(p(q(r[0])), r[0])))

    def order(r):
        def inner(s):
            x, y = as_num(src((p(r[0]),))), as_num(src((p(s[0]),)))
            # nan sorts last
            return tm.implies(tm.le(r[0], s[0]), tm.or_(tm.eq(core.K(y), core.NAN), core.c_le(x, y)))

        return arr.reduce_dims("forall", [d], inner)

    fa(order)
    return new((d,), lambda idx: Num(p(idx[0])), "i")


def _sort(a, axis=-1, **k):
    a = to_sarr(a)
    if a.ndim != 1:
        raise Unsupported("sort nd")
    return a[_argsort(a)]


def _delete(a, obj, axis=None):
    return arr.delete(a, obj, axis)


class _Finfo:
    def __init__(self, t=float):
        f = np.finfo(float if t in (float, np.float64) else t)
        self.max, self.min, self.eps, self.tiny = float(f.max), float(f.min), float(f.eps), float(f.tiny)


class _NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (np.ndarray, SArr))


class ndarray_shim(metaclass=_NdMeta):
    pass


def _spacing(x):
    if is_sym(x):
        x = to_sarr(x)
        return arr.unwrap(ew(lambda a: Num(tm.fun("spacing", a.t), a.k), x))
    return float(np.spacing(x))


class _ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _fresh_rand(shape, lo=None, hi=None, name="rnd", strict=False):
    """arbitrary reals (optionally in [lo,hi)) : a random draw is any value of its range"""
    core._rnd = getattr(core, "_rnd", 0) + 1
    nm = f"{name}!{core._rnd}"
    st = core.CUR
    dims = arr.shape_dims(shape) if shape is not None else ()

    def flat(i, out):
        for x in i:
            if isinstance(x, tuple):
                flat(x, out)
            elif isinstance(x, int):
                out.append(tm.const(x))
            else:
                out.append(x)
        return out

    def f(idx):
        t = tm.app(nm, flat(idx, []), "R") if idx else tm.var(nm, "R")
        return Num(t)

    if lo is not None:
        def fact(r):
            v = f(r).t
            return tm.and_(tm.le(as_num(lo).t, v), (tm.lt if strict else tm.le)(v, as_num(hi).t))

        st.path.add(arr.reduce_dims("forall", list(dims), fact) if dims else fact(()))
    rep = getattr(st, "replay", None)
    if rep:
        x = rep.pop(0)
        if (len(dims) if dims else 0) != getattr(x, "ndim", 0) or not all(arr.same_dim(a, b) for a, b in zip(dims, x.dims)):
            raise Unsupported("replayed draw has a different shape")
        return x + 0
    r = f(()) if not dims else new(dims, f, "f")
    log = getattr(st, "draws", None)
    if log is not None:
        log.append(r)
    return r + 0 if dims else r


def _rand(*shape):
    return _fresh_rand(shape if shape else None, 0, 1, strict=True)


def _randn(*shape):
    return _fresh_rand(shape if shape else None)


def _standard_normal(size=None):
    return _fresh_rand(size)


def _uniform(low=0.0, high=1.0, size=None):
    if size is None:
        b = arr.bcast_dims(to_sarr(low).dims, to_sarr(high).dims)
        u = _fresh_rand(tuple(b) if b else None, 0, 1, strict=True)
    else:
        u = _fresh_rand(size, 0, 1, strict=True)
    low, high = (to_sarr(x) if not isinstance(x, (int, float)) else x for x in (low, high))
    return low + (high - low) * u


def _normal(loc=0.0, scale=1.0, size=None):
    return loc + scale * _fresh_rand(size)


def _choice(a, size=None, replace=True, p=None):
    """contract: indices in range (without replacement: distinct)"""
    if isinstance(a, (SArr, np.ndarray, list)):
        src = to_sarr(a)
        n = arr.dsize(src.dims[0])
    else:
        src = None
        n = as_num(a).t
    core._rnd = getattr(core, "_rnd", 0) + 1
    nm = f"choice!{core._rnd}"
    st = core.CUR
    rng = lambda t: tm.and_(tm.le(tm.ZERO, t), tm.lt(t, n))
    if size is None:
        v = tm.var(nm, "I")
        st.path.add(rng(v))
        ix = Num(v)
    else:
        dims = arr.shape_dims(size)
        if len(dims) != 1:
            raise Unsupported("choice size")
        f = lambda i: tm.app(nm, (i,), "I")
        st.path.add(arr.reduce_dims("forall", list(dims), lambda r: rng(f(r[0]))))
        if not replace:
            st.path.add(arr.reduce_dims("forall", list(dims), lambda r: arr.reduce_dims(
                "forall", list(dims), lambda s: tm.implies(tm.eq(f(r[0]), f(s[0])), tm.eq(r[0], s[0])))))
        ix = new(dims, lambda idx: Num(f(idx[0])), "i")
    if src is None:
        return ix
    return src[ix]


def _permutation(n):
    if isinstance(n, (SArr, np.ndarray, list)):
        a = to_sarr(n)
        return a[_permutation(a.shape[0])]
    d = arr.dim_of(n)
    core._rnd = getattr(core, "_rnd", 0) + 1
    nm, inv = f"rperm!{core._rnd}", f"rpinv!{core._rnd}"
    p = lambda i: tm.app(nm, (i,), "I")
    q = lambda i: tm.app(inv, (i,), "I")
    st = core.CUR
    rng = lambda t: tm.and_(tm.le(tm.ZERO, t), tm.lt(t, d.n))
    st.path.add(arr.reduce_dims("forall", [d], lambda r: tm.and_(rng(p(r[0])), tm.eq(q(p(r[0])), r[0]))))
    st.path.add(arr.reduce_dims("forall", [d], lambda r: tm.and_(rng(q(r[0])), tm.eq(p(q(r[0])), r[0]))))
    return new((d,), lambda idx: Num(p(idx[0])), "i")


def _shuffle(a):
    r = a[_permutation(a.shape[0])]
    a[...] = r


def _randint(low, high=None, size=None):
    if high is None:
        low, high = 0, low
    n = as_num(high) - as_num(low)
    r = _choice(n, size)
    return r + low


def _unsup(name):
    def g(*a, **k):
        if has_sym(a) or has_sym(k):
            raise Unsupported(name)
        return eval("np." + name, {"np": np})(*a, **k)

    return g


NP = {}
for n_, f_ in UF.items():
    NP[n_] = Ufunc(n_, f_, getattr(np, n_))
for n_, f_ in UFB.items():
    NP[n_] = Ufunc(n_, f_, getattr(np, n_), True, kind="b")
NP["logical_and"] = LogicalUfunc(tm.and_, np.logical_and)
NP["logical_or"] = LogicalUfunc(tm.or_, np.logical_or)
NP["logical_not"] = LogicalUfunc(tm.not_, np.logical_not)
NP["invert"] = lambda a: (~to_sarr(a)) if not isinstance(a, (SBool, bool)) else mkbool(tm.not_(bterm(a)))
NP.update(
    ndarray=ndarray_shim, pi=Num(core.PI), inf=_math.inf, nan=_math.nan,
    zeros=lambda shape, dtype=None, **k: arr.const_arr(shape, 0, dt(dtype)),
    ones=lambda shape, dtype=None, **k: arr.const_arr(shape, 1, dt(dtype)),
    full=_full, empty=_empty, zeros_like=_like(0), ones_like=_like(1), full_like=_full_like,
    empty_like=lambda a, **k: _empty(tuple(to_sarr(a).dims)),
    array=_array, asarray=_asarray, asanyarray=_asarray, ascontiguousarray=_asarray,
    copy=_copyf, sum=red(arr.np_sum), mean=red(arr.np_mean), prod=_prod, max=red(arr.np_max), amax=red(arr.np_max),
    min=red(arr.np_min), amin=red(arr.np_min), nanmax=lambda a, axis=None: arr.np_nanmax(a, axis),
    var=_var, std=_std, any=_any, all=_all, argmax=lambda a, axis=None: arr.np_argmax(a, axis),
    argmin=lambda a, axis=None: arr.np_argmin(a, axis),
    dot=arr.matmul, matmul=arr.matmul, outer=arr.np_outer, diag=arr.np_diag, eye=arr.np_eye, identity=arr.np_eye,
    trace=lambda a: arr.np_sum(arr.np_diag(a)), arange=arr.np_arange, linspace=arr.np_linspace, cumsum=arr.np_cumsum,
    concatenate=lambda x, axis=0: arr.concatenate(list(x), axis), append=_append, polyfit=_polyfit, hstack=_hstack, vstack=_vstack,
    stack=lambda x, axis=0: arr.stack(list(x), axis), tile=arr.tile, repeat=arr.repeat, delete=_delete,
    reshape=lambda a, shape, order="C": arr.reshape(a, shape, order), ravel=lambda a, order="C": arr.ravel(a, order),
    squeeze=lambda a, axis=None: arr.squeeze(a, axis), transpose=lambda a, axes=None: arr.transpose(a, axes),
    expand_dims=lambda a, axis: arr.expand(to_sarr(a), axis if axis >= 0 else to_sarr(a).ndim + 1 + axis),
    atleast_1d=_atleast(1), atleast_2d=_atleast(2), where=_where, argwhere=arr.np_argwhere,
    nonzero=lambda a: arr.np_where1(to_sarr(a) != 0), flatnonzero=lambda a: arr.np_where1(arr.ravel(to_sarr(a)))[0],
    ndim=_ndim, shape=_shape, size=_size, isscalar=_isscalar, array_equal=_array_equal, clip=_clip, copyto=_copyto,
    einsum=_einsum, argsort=_argsort, sort=_sort, finfo=_Finfo, spacing=_spacing, errstate=_ErrState,
    count_nonzero=lambda a: arr.np_sum(to_sarr(a) != 0 if to_sarr(a).kind != "b" else a),
    flip=lambda a, axis=None: to_sarr(a)[::-1] if axis in (None, 0) else _u("flip"),
    seterr=lambda **k: dict(divide="warn", over="warn", under="ignore", invalid="warn"),
    isclose=_unsup("isclose"), allclose=_unsup("allclose"),
    divide=Ufunc("divide", core.n_div, np.divide),
)
NP["abs"] = NP["absolute"]


def _u(n):
    raise Unsupported(n)


NP_RANDOM = dict(
    rand=_rand, randn=_randn, standard_normal=_standard_normal, uniform=_uniform, normal=_normal, choice=_choice,
    permutation=_permutation, shuffle=_shuffle, randint=_randint, random=_rand, random_sample=lambda size=None: _fresh_rand(size, 0, 1, strict=True),
    gamma=lambda shape, scale=1.0, size=None: _pos_rand(size),
    multivariate_normal=lambda mean, cov, size=None, **k: _fresh_rand((() if size is None else (size,)) + (_size(mean),)),
)


def _pos_rand(size):
    r = _fresh_rand(size)
    return NP["exp"](r)


def _solve_triangular(*a, **k):
    if has_sym(a):
        raise Unsupported("solve_triangular")
    return scipy.linalg.solve_triangular(*a, **k)


def _small(a):
    """entries of a square matrix with literal size <= 4 (list of lists of Num)"""
    a = to_sarr(a)
    if a.ndim != 2:
        raise Unsupported("linalg: not a matrix")
    n, m = (arr.dsize(d) for d in a.dims)
    if n.op != "const" or m.op != "const" or max(n.args[0], m.args[0]) > 4:
        raise Unsupported("linalg: size")
    n, m = n.args[0], m.args[0]
    return [[as_num(a[int(i), int(j)]) for j in range(int(m))] for i in range(int(n))]


def _detl(r):
    if not r:
        return as_num(1)
    if len(r) == 1:
        return r[0][0]
    t = as_num(0)
    for j in range(len(r)):
        c = core.n_mul(r[0][j], _detl([x[:j] + x[j + 1:] for x in r[1:]]))
        t = core.n_add(t, c) if j % 2 == 0 else core.n_sub(t, c)
    return t


def _det(a):
    """determinant by cofactor expansion"""
    if not is_sym(a) and not has_sym(a):
        return np.linalg.det(a)
    return _detl(_small(a))


def _invl(r):
    d = _detl(r)
    if not bool(d != 0):
        raise np.linalg.LinAlgError("Singular matrix")
    n = len(r)
    cof = lambda i, j: _detl([[r[a][b] for b in range(n) if b != j] for a in range(n) if a != i])
    return [[core.n_div(cof(j, i) if (i + j) % 2 == 0 else core.n_neg(cof(j, i)), d) for j in range(n)] for i in range(n)]


def _inv(a):
    """inverse by the adjugate formula (LinAlgError if singular)"""
    if not has_sym(a):
        return np.linalg.inv(a)
    return _array(_invl(_small(a)))


def _solve(a, b):
    if not (has_sym(a) or has_sym(b)):
        return np.linalg.solve(a, b)
    return _inv(a) @ b


def _lstsq(a, b, rcond=None):
    """least squares with a square nonsingular matrix: the exact solution (assumed contract of LAPACK)"""
    if not (has_sym(a) or has_sym(b)):
        return np.linalg.lstsq(a, b, rcond=rcond)
    x = _inv(a) @ b
    return x, None, None, None


def _cov(m, **k):
    """sample covariance of the rows (unbiased)"""
    if not has_sym(m):
        return np.cov(m, **k)
    if k:
        raise Unsupported("cov options")
    m = to_sarr(m)
    if m.ndim == 1:
        m = m.reshape(1, -1)
    n = m.shape[1]
    d = m - arr.np_mean(m, axis=1).reshape(-1, 1) if hasattr(arr, "np_mean") else m - NP["mean"](m, axis=1).reshape(-1, 1)
    c = d @ d.T / (n - 1)
    return c[0, 0] if core.CUR.decide(tm.eq(arr.dsize(m.dims[0]), tm.ONE)) else c


NP["cov"] = _cov
LINALG = dict(det=_det, inv=_inv, solve=_solve, lstsq=_lstsq)
MATH = dict(
    ceil=lambda x: core.n_ceil(as_num(x)) if is_sym(x) else _math.ceil(x),
    floor=lambda x: core.n_floor(as_num(x)) if is_sym(x) else _math.floor(x),
    sqrt=lambda x: core.n_sqrt(as_num(x)), log=lambda x: core.n_log(as_num(x)), exp=lambda x: core.n_exp(as_num(x)),
    isfinite=lambda x: core.n_isfinite(as_num(x)) if is_sym(x) else _math.isfinite(x),
    isnan=lambda x: core.n_isnan(as_num(x)) if is_sym(x) else _math.isnan(x),
    isinf=lambda x: core.n_isinf(as_num(x)) if is_sym(x) else _math.isinf(x),
    pi=Num(core.PI), remainder=lambda a, b: _math.remainder(a, b),
)
SPECIAL = dict(
    erfc=Ufunc("erfc", core.n_erfc, scipy.special.erfc), erf=Ufunc("erf", core.n_erf, scipy.special.erf),
    erfcinv=Ufunc("erfcinv", core.n_erfcinv, scipy.special.erfcinv), erfinv=Ufunc("erfinv", core.n_erfinv, scipy.special.erfinv),
    ndtr=Ufunc("ndtr", core.n_phi, scipy.special.ndtr), ndtri=Ufunc("ndtri", core.n_ppf, scipy.special.ndtri),
    expit=Ufunc("expit", lambda a: core.n_div(as_num(1), core.n_add(as_num(1), core.n_exp(core.n_neg(a)))), scipy.special.expit),
    log1p=Ufunc("log1p", core.n_log1p, scipy.special.log1p),
    gammaln=Ufunc("gammaln", core.n_fun("gammaln"), scipy.special.gammaln),
)


class _NormShim:
    """scipy.stats.norm with the standard parameters"""

    @staticmethod
    def cdf(x, loc=0, scale=1):
        return ew(lambda a, m, s: core.n_phi(core.n_div(core.n_sub(a, m), s)), x, loc, scale)

    @staticmethod
    def ppf(x, loc=0, scale=1):
        return ew(lambda a, m, s: core.n_add(m, core.n_mul(s, core.n_ppf(a))), x, loc, scale)

    def __getattr__(self, n):
        return getattr(scipy.stats.norm, n)


import scipy.stats, scipy.special, scipy.linalg, scipy.optimize  # noqa

MODS = {}
NUMPY = ModShim(np, NP)
MODS["numpy"] = NUMPY
MODS["numpy.random"] = ModShim(np.random, NP_RANDOM)
MODS["math"] = ModShim(_math, MATH)
MODS["scipy.special"] = ModShim(scipy.special, SPECIAL)
MODS["scipy.stats"] = ModShim(scipy.stats, {})
MODS["scipy.linalg"] = ModShim(scipy.linalg, {})
MODS["scipy"] = ModShim(scipy, {})
MODS["numpy.linalg"] = ModShim(np.linalg, LINALG)

# name -> shim for functions imported with `from numpy/scipy import f`
BY_OBJ = {}
for _m, _o in ((np, NP), (scipy.special, SPECIAL), (_math, MATH), (np.random, NP_RANDOM)):
    for _n, _v in _o.items():
        if hasattr(_m, _n):
            try:
                BY_OBJ[id(getattr(_m, _n))] = _v
            except Exception:
                pass
_KEEP = [getattr(m, n) for m, o in ((np, NP), (scipy.special, SPECIAL), (_math, MATH)) for n in o if hasattr(m, n)]


def shim_global(v):
    """shim for a module-level value of the code under verification"""
    if isinstance(v, type(np)):
        s = MODS.get(v.__name__)
        if s is not None:
            return s
        if v.__name__.split(".")[0] in ("numpy", "scipy", "math"):
            return ModShim(v, {})
        return None
    if isinstance(v, np.ufunc) or callable(v) and not isinstance(v, type):
        if id(v) in BY_OBJ and not isinstance(v, (bool, int, float)):
            return BY_OBJ[id(v)]
        mod = getattr(v, "__module__", "") or ""
        if isinstance(v, np.ufunc) or mod.split(".")[0] in ("numpy", "scipy"):
            return Guard(v, f"{mod}.{getattr(v, '__name__', v)}")
    if isinstance(v, float) and v == _math.pi:
        return Num(core.PI)
    return None


# ------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, SArr):
        return x.length()
    return builtins.len(x)


class SRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside a for statement")

    def __len__(self):
        raise Unsupported("len of symbolic range")


def b_range(*a):
    if not any(is_sym(x) for x in a):
        return builtins.range(*a)
    a = [as_num(x) for x in a]
    for x in a:
        core.fin_req(x)
        if x.t.sort != "I":
            raise TypeError("'float' object cannot be interpreted as an integer")
    if all(x.t.op == "const" for x in a):
        return builtins.range(*[int(x.t.args[0]) for x in a])
    s, e, st = (as_num(0), a[0], as_num(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else as_num(1))
    if st.t is not tm.ONE:
        raise Unsupported("symbolic range with step")
    d = core.n_sub(e, s)
    if d.t.op == "const":
        n = int(d.t.args[0])
        return [core.n_add(s, as_num(i)) for i in builtins.range(n)]
    return SRange(s, e, 1)


def b_int(x=0, *a):
    if isinstance(x, (SArr,)):
        x = x.item()
    if isinstance(x, (Num, SBool)):
        return core.num_int(as_num(x))
    return builtins.int(x, *a)


def b_float(x=0.0):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, (Num, SBool)):
        return as_num(x)
    return builtins.float(x)


def b_bool(x=False):
    return builtins.bool(x)


def b_isinstance(x, c):
    if isinstance(c, tuple):
        return any(b_isinstance(x, i) for i in c)
    if isinstance(x, Num):
        isint = x.t.sort == "I" and x.k is None
        if c in (int, np.integer, np.int64):
            return isint
        if c in (float, np.floating, np.float64, np.number):
            return not isint or c is np.number
        import numbers

        if c is numbers.Number or c is numbers.Real:
            return True
        return builtins.isinstance(x, c)
    if isinstance(x, SBool):
        return c in (bool, np.bool_)
    return builtins.isinstance(x, c)


def _mm(which):
    real = builtins.max if which > 0 else builtins.min

    def g(*a, **k):
        if k or not has_sym(a):
            return real(*a, **k)
        items = [i for i in a[0]] if len(a) == 1 else list(a)
        r = items[0]
        if isinstance(r, SArr):
            r = r.scalar() if r.size_is_one() else _raise_ambig()
        for x in items[1:]:
            if isinstance(x, SArr):
                x = x.scalar() if x.size_is_one() else _raise_ambig()
            xx, rr = as_num(x), as_num(r)
            # python semantics: keep r unless x > r (nan-insensitive)
            c = core.c_lt(rr, xx) if which > 0 else core.c_lt(xx, rr)
            if c is tm.FALSE:
                continue
            r = x if c is tm.TRUE else core.n_ite(c, xx, rr)
        return r

    return g


def _raise_ambig():
    raise ValueError("The truth value of an array with more than one element is ambiguous.")


def b_sum(x, start=0):
    if isinstance(x, SArr):
        n = arr.dsize(x.dims[0])
        if not tm.isconst(n):
            return arr.np_sum(x, 0) + start
    r = start
    for i in x:
        r = r + i
    return r


def b_round(x, nd=None):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, Num):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def b_any(x):
    if isinstance(x, SArr):
        return bool(arr.np_any(x)) if x.ndim == 1 else _raise_ambig()
    return builtins.any(x)


def b_all(x):
    if isinstance(x, SArr):
        return bool(arr.np_all(x)) if x.ndim == 1 else _raise_ambig()
    return builtins.all(x)


BUILTINS = dict(len=b_len, range=b_range, int=b_int, float=b_float, isinstance=b_isinstance, max=_mm(1), min=_mm(-1),
                sum=b_sum, round=b_round, any=b_any, all=b_all)
