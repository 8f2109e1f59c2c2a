"""Symbolic n-dimensional arrays with symbolic dimensions, views and aliasing."""
import builtins
import math

import numpy as np

from . import core
from . import terms as tm
from .core import (Num, SBool, SArrBase, Unsupported, as_num, bterm, mkbool, is_sym, v_ite, scoped)
from .terms import T


# ------------------------------------------------------------------ dims
class SDim:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Dim({tm.show(self.n)})"


class MDim:
    """compressed dimension: entries of the base dims where pred holds, in order"""

    __slots__ = ("base", "pred", "cnt", "key")

    def __init__(self, base, pred, cnt, key):
        self.base, self.pred, self.cnt, self.key = base, pred, cnt, key


class PDim:
    """flattened product of dims (first part slowest)"""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)


class CDim:
    """concatenation of segments"""

    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)


ONE_D = SDim(tm.ONE)


def dsize(d):
    if isinstance(d, SDim):
        return d.n
    if isinstance(d, MDim):
        return d.cnt
    if isinstance(d, PDim):
        return tm.mul(*[dsize(p) for p in d.parts])
    return tm.add(*[dsize(s) for s in d.segs])


def is_one(d):
    return isinstance(d, SDim) and d.n is tm.ONE


def zero_idx(d):
    if isinstance(d, SDim):
        return tm.ZERO
    raise Unsupported("zero index of structured dim")


_eqcache = {}


def same_dim(a, b):
    """structurally the same dimension (provable)"""
    if a is b:
        return True
    if isinstance(a, SDim) and isinstance(b, SDim):
        if a.n is b.n:
            return True
        if tm.isconst(a.n) and tm.isconst(b.n):
            return False
        return core.CUR is not None and core.CUR.truth(tm.eq(a.n, b.n)) is True
    if isinstance(a, MDim) and isinstance(b, MDim):
        if a.key == b.key:
            return True
        if len(a.base) != len(b.base) or not all(same_dim(x, y) for x, y in zip(a.base, b.base)):
            return False
        # provably equivalent predicates?
        for idx, facts in generic(a.base):
            with scoped(*facts):
                pa, pb = a.pred(idx), b.pred(idx)
                if core.CUR.truth(tm.eq(pa, pb)) is not True and not (
                    core.CUR.truth(tm.implies(pa, pb)) and core.CUR.truth(tm.implies(pb, pa))
                ):
                    return False
        return True
    if isinstance(a, PDim) and isinstance(b, PDim):
        return len(a.parts) == len(b.parts) and all(same_dim(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, CDim) and isinstance(b, CDim):
        return len(a.segs) == len(b.segs) and all(same_dim(x, y) for x, y in zip(a.segs, b.segs))
    return False


def gen_dim(d, prefix="i"):
    """list of (generic index, facts) covering the dim; const small dims are enumerated"""
    if isinstance(d, SDim):
        if tm.isconst(d.n) and tm.cval(d.n) <= 64:
            return [(tm.const(i), []) for i in range(int(tm.cval(d.n)))]
        v = tm.fresh(prefix, "I")
        return [(v, [tm.le(tm.ZERO, v), tm.lt(v, d.n)])]
    if isinstance(d, MDim):
        out = []
        for idx, facts in generic(d.base, prefix):
            out.append((idx, facts + [d.pred(idx)]))
        return out
    if isinstance(d, PDim):
        return [(idx, f) for idx, f in generic(d.parts, prefix)]
    out = []
    for s, seg in enumerate(d.segs):
        for idx, f in gen_dim(seg, prefix):
            out.append(((s, idx), f))
    return out


def generic(dims, prefix="i"):
    res = [((), [])]
    for d in dims:
        g = gen_dim(d, prefix)
        res = [(i + (j,), f + f2) for i, f in res for j, f2 in g]
    return res


def reduce_dims(kind, dims, body, idx=()):
    """kind in sum/forall/exists ; body(idx)->T ; nested binder over dims"""
    if not dims:
        return body(idx)
    d, rest = dims[0], dims[1:]
    return _red(kind, d, lambda i: reduce_dims(kind, rest, body, idx + (i,)))


def _red(kind, d, f):
    if isinstance(d, SDim):
        if tm.isconst(d.n) and tm.cval(d.n) <= 64:
            items = [f(tm.const(i)) for i in range(int(tm.cval(d.n)))]
            if kind == "sum":
                return tm.add(*items) if items else tm.ZERO
            return tm.and_(*items) if kind == "forall" else tm.or_(*items)
        v = tm.fresh("b", "I")
        with scoped(tm.le(tm.ZERO, v), tm.lt(v, d.n)):
            core.CUR.binders.append(v)
            try:
                b = f(v)
            finally:
                core.CUR.binders.pop()
        return tm.bind(kind, d.n, v, b, "B" if kind != "sum" else ("R" if b.sort == "R" else "I"))
    if isinstance(d, MDim):

        def g(idx):
            p = core.cbool(d.pred(idx))
            if p is tm.FALSE:
                return {"sum": tm.ZERO, "forall": tm.TRUE, "exists": tm.FALSE}[kind]
            if kind == "sum":
                with scoped(p):
                    return tm.ite(p, f(idx), tm.ZERO)
            with scoped(p):
                b = f(idx)
            return tm.implies(p, b) if kind == "forall" else tm.and_(p, b)

        return reduce_dims(kind, list(d.base), g)
    if isinstance(d, PDim):
        return reduce_dims(kind, list(d.parts), f)
    items = [_red(kind, s, lambda i, k=k: f((k, i))) for k, s in enumerate(d.segs)]
    if kind == "sum":
        return tm.add(*items)
    return tm.and_(*items) if kind == "forall" else tm.or_(*items)


def size_num(t):
    if t.op == "const":
        return int(t.args[0])
    return Num(t)


def dim_of(n):
    """python int / Num -> SDim"""
    if isinstance(n, (SDim, MDim, PDim, CDim)):
        return n
    if isinstance(n, Num):
        core.fin_req(n)
        if n.t.sort != "I":
            raise TypeError("'float' object cannot be interpreted as an integer")
        if n.t.op != "const" and core.CUR.truth(tm.le(tm.ZERO, n.t)) is not True:
            if core.CUR.decide(tm.lt(n.t, tm.ZERO)):
                raise ValueError("negative dimensions are not allowed")
        d = _named_dims.get(n.t)
        return d if d is not None else SDim(n.t)
    if isinstance(n, (float, np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    n = int(n)
    if n < 0:
        raise ValueError("negative dimensions are not allowed")
    return SDim(tm.const(n))


_named_dims = {}


def register_dim(t, d):
    """remember the structured dimension behind a size term (so np.zeros(x.shape) keeps it)"""
    if not isinstance(d, SDim):
        _named_dims.setdefault(t, d)


class Buf:
    __slots__ = ("dims", "f", "kind", "cache", "name", "version", "frozen", "serial")

    def __init__(self, dims, f, kind, name=None):
        self.dims = tuple(dims)
        self.f = f
        self.kind = kind
        self.cache = {}
        self.name = name
        self.version = 0
        self.frozen = False
        core.SERIAL[0] += 1
        self.serial = core.SERIAL[0]

    def get(self, idx):
        scope = tuple(core.CUR.scope) if core.CUR is not None else ()
        key = (idx, scope)
        r = self.cache.get(key)
        if r is None:
            r = self.f(idx)
            self.cache[key] = r
        return r

    def put(self, cond, val):
        """cond(idx)->B term, val(idx)->value"""
        if self.frozen:
            raise ValueError("assignment destination is read-only")
        st = core.CUR
        if st is not None and st.journal is not None:
            st.journal.setdefault(id(self), (self, self.f, dict()))
        old = self.f
        oldcache = self.cache

        def oget(idx):
            scope = tuple(core.CUR.scope) if core.CUR is not None else ()
            k = (idx, scope)
            r = oldcache.get(k)
            if r is None:
                r = old(idx)
                oldcache[k] = r
            return r

        def new(idx):
            c = core.cbool(cond(idx))
            if c is tm.FALSE:
                return oget(idx)
            if c is tm.TRUE:
                return val(idx)
            if core.CUR is not None and core.CUR.scope:
                t = core.CUR.truth(c)
                if t is True:
                    return val(idx)
                if t is False:
                    return oget(idx)
            with scoped(c):
                v = val(idx)
            with scoped(tm.not_(c)):
                o = oget(idx)
            return v_ite(c, v, o)

        self.f = new
        self.cache = {}
        self.version += 1


def cast(kind, v):
    if kind == "b":
        return mkbool(bterm(v))
    v = as_num(v)
    if kind == "i" and (v.k is not None or v.t.sort != "I"):
        if v.k is None and v.t.op == "const":
            return core.num_int(v)
        return core.num_int(v)
    return v


def val_kind(v):
    if isinstance(v, (SBool, bool, np.bool_)):
        return "b"
    if isinstance(v, Num):
        return "i" if v.t.sort == "I" and v.k is None else "f"
    if isinstance(v, (int, np.integer)):
        return "i"
    if isinstance(v, SArr):
        return v.kind
    if isinstance(v, np.ndarray):
        return "b" if v.dtype == bool else ("i" if v.dtype.kind in "iu" else ("f" if v.dtype.kind == "f" else "o"))
    return "f"


class SArr(SArrBase):
    __slots__ = ("buf", "dims", "tob", "fromb", "__weakref__")

    def __init__(self, buf, dims=None, tob=None, fromb=None):
        self.buf = buf
        self.dims = tuple(buf.dims if dims is None else dims)
        self.tob = tob
        self.fromb = fromb

    # -------------------------------------------------- basic protocol
    @property
    def kind(self):
        return self.buf.kind

    def at(self, idx):
        return self.buf.get(idx if self.tob is None else self.tob(idx))

    @property
    def shape(self):
        out = []
        for d in self.dims:
            n = dsize(d)
            register_dim(n, d)
            out.append(size_num(n))
        return tuple(out)

    @shape.setter
    def shape(self, s):
        r = reshape(self, s)
        if r.buf is not self.buf:
            raise Unsupported("in-place reshape")
        self.dims, self.tob, self.fromb = r.dims, r.tob, r.fromb

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        return size_num(tm.mul(*[dsize(d) for d in self.dims]) if self.dims else tm.ONE)

    @property
    def dtype(self):
        return {"f": np.dtype(float), "i": np.dtype(int), "b": np.dtype(bool)}[self.kind]

    @property
    def T(self):
        return transpose(self)

    def transpose(self, *axes):
        return transpose(self, axes or None)

    def size_is_one(self):
        return all(is_one(d) or (core.CUR is not None and core.CUR.truth(tm.eq(dsize(d), tm.ONE)) is True) for d in self.dims)

    def scalar(self):
        idx = []
        for d in self.dims:
            if isinstance(d, SDim):
                idx.append(tm.ZERO)
            else:
                raise Unsupported("scalar of structured dims")
        return self.at(tuple(idx))

    def item(self, *a):
        if a:
            raise Unsupported("item with args")
        if not self.size_is_one():
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.scalar()

    def __len__(self):
        raise Unsupported("builtin len() of a symbolic array")

    def length(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __bool__(self):
        n = dsize_all(self)
        if n is tm.ONE or core.CUR.truth(tm.eq(n, tm.ONE)) is True:
            return bool(mkbool(bterm(self.scalar())))
        if core.CUR.decide(tm.eq(n, tm.ONE)):
            return bool(mkbool(bterm(self.scalar())))
        if core.CUR.decide(tm.eq(n, tm.ZERO)):
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __iter__(self):
        n = dsize(self.dims[0])
        if not tm.isconst(n):
            raise Unsupported("iteration over a symbolic dimension")
        for i in range(int(tm.cval(n))):
            yield self[i]

    def __index__(self):
        return as_num(self.item()).__index__()

    __int__ = __index__

    def __float__(self):
        return float(as_num(self.item()))

    def __repr__(self):
        return f"SArr{tuple(self.dims)}"

    def __format__(self, s):
        return repr(self)

    def __hash__(self):
        return id(self)

    # -------------------------------------------------- methods
    def copy(self, order=None):
        return copy(self)

    def astype(self, t, **kw):
        k = kind_of_dtype(t)
        return ew1(lambda v: cast(k, v), self, k)

    def ravel(self, order="C"):
        return ravel(self, order)

    def flatten(self, order="C"):
        return copy(ravel(self, order))

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        return reshape(self, shape, order)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def sum(self, axis=None, keepdims=False, **kw):
        return np_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        return np_mean(self, axis, keepdims)

    def max(self, axis=None, keepdims=False):
        return np_max(self, axis, keepdims)

    def min(self, axis=None, keepdims=False):
        return np_min(self, axis, keepdims)

    def any(self, axis=None, keepdims=False):
        return np_any(self, axis, keepdims)

    def all(self, axis=None, keepdims=False):
        return np_all(self, axis, keepdims)

    def argmax(self, axis=None):
        return np_argmax(self, axis)

    def argsort(self, axis=-1, **k):
        from . import npshim

        return npshim._argsort(self, axis)

    def argmin(self, axis=None):
        return np_argmin(self, axis)

    def prod(self, axis=None, keepdims=False):
        return np_prod(self, axis, keepdims)

    def dot(self, o):
        return matmul(self, o)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        if not all(tm.isconst(dsize(d)) for d in self.dims):
            raise Unsupported("tolist")
        if self.ndim == 0:
            return self.scalar()
        return [x.tolist() if isinstance(x, SArr) else x for x in self]

    @property
    def flat(self):
        return ravel(self)

    # -------------------------------------------------- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # -------------------------------------------------- operators
    def __add__(self, o):
        return ew(core.n_add, self, o)

    def __radd__(self, o):
        return ew(core.n_add, o, self)

    def __sub__(self, o):
        return ew(core.n_sub, self, o)

    def __rsub__(self, o):
        return ew(core.n_sub, o, self)

    def __mul__(self, o):
        return ew(core.n_mul, self, o)

    def __rmul__(self, o):
        return ew(core.n_mul, o, self)

    def __truediv__(self, o):
        return ew(core.n_div, self, o)

    def __rtruediv__(self, o):
        return ew(core.n_div, o, self)

    def __floordiv__(self, o):
        return ew(core.n_floordiv, self, o)

    def __mod__(self, o):
        return ew(core.n_mod, self, o)

    def __pow__(self, o):
        return ew(core.n_pow, self, o)

    def __rpow__(self, o):
        return ew(core.n_pow, o, self)

    def __neg__(self):
        return ew1(lambda v: core.n_neg(as_num(v)), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ew1(lambda v: core.n_abs(as_num(v)), self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def _inplace(self, r):
        r = to_sarr(r)
        if self.kind in "ib" and r.kind == "f":
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        setitem(self, Ellipsis, copy(r))
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __ipow__(self, o):
        return self._inplace(self**o)

    def __ior__(self, o):
        return self._inplace(self | o)

    def __iand__(self, o):
        return self._inplace(self & o)

    def __lt__(self, o):
        return ew(lambda a, b: mkbool(core.c_lt(a, b)), self, o, kind="b")

    def __le__(self, o):
        return ew(lambda a, b: mkbool(core.c_le(a, b)), self, o, kind="b")

    def __gt__(self, o):
        return ew(lambda a, b: mkbool(core.c_lt(b, a)), self, o, kind="b")

    def __ge__(self, o):
        return ew(lambda a, b: mkbool(core.c_le(b, a)), self, o, kind="b")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return ew1(lambda v: False, self, "b")
        return ew(lambda a, b: mkbool(core.c_eq(a, b)), self, o, kind="b")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return ew1(lambda v: True, self, "b")
        return ew(lambda a, b: mkbool(tm.not_(core.c_eq(a, b))), self, o, kind="b")

    def __and__(self, o):
        return ewb(tm.and_, self, o)

    __rand__ = __and__

    def __or__(self, o):
        return ewb(tm.or_, self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return ewb(lambda a, b: tm.not_(tm.eq(a, b)), self, o)

    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("~ on numbers")
        return ew1(lambda v: mkbool(tm.not_(bterm(v))), self, "b")


def dsize_all(a):
    return tm.mul(*[dsize(d) for d in a.dims]) if a.dims else tm.ONE


def kind_of_dtype(t):
    if t is None:
        return "f"
    if t in (float, np.float64, "float", np.floating):
        return "f"
    if t in (int, np.int64, "int", np.integer, np.intp):
        return "i"
    if t in (bool, np.bool_, "bool"):
        return "b"
    d = np.dtype(t)
    if d.kind == "f":
        return "f"
    if d.kind in "iu":
        return "i"
    if d.kind == "b":
        return "b"
    raise Unsupported(f"dtype {t}")


def new(dims, f, kind="f", name=None):
    return SArr(Buf(dims, f, kind, name))


def const_arr(shape, v, kind=None):
    dims = shape_dims(shape)
    if kind is None:
        kind = val_kind(v)
    v = cast(kind, v)
    return new(dims, lambda idx: v, kind)


def shape_dims(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(dim_of(s) for s in shape)
    if isinstance(shape, SArr):
        return tuple(dim_of(s) for s in shape)
    return (dim_of(shape),)


def from_np(a):
    """concrete ndarray -> SArr"""
    a = np.asarray(a)
    if a.dtype.kind not in "fiub" and a.dtype != object:
        raise Unsupported(f"array dtype {a.dtype}")
    dims = tuple(SDim(tm.const(n)) for n in a.shape)
    if a.dtype == object:
        kinds = {val_kind(x) for x in a.ravel()}
        kind = "f" if "f" in kinds else ("i" if "i" in kinds else "b")
        if not kinds:
            kind = "f"
    else:
        kind = {"f": "f", "i": "i", "u": "i", "b": "b"}[a.dtype.kind]
    vals = {}
    for i in np.ndindex(*a.shape):
        x = a[i]
        vals[i] = cast(kind, x if is_sym(x) else (x.item() if hasattr(x, "item") else x))

    def f(idx):
        if all(t.op == "const" for t in idx):
            return vals[tuple(int(t.args[0]) for t in idx)]
        # select with symbolic index
        r = None
        for i, v in vals.items():
            c = tm.and_(*[tm.eq(t, tm.const(j)) for t, j in zip(idx, i)])
            r = v if r is None else v_ite(c, v, r)
        if r is None:
            return cast(kind, 0)
        return r

    return new(dims, f, kind)


def to_sarr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        return from_np(x)
    if isinstance(x, (Num, SBool, int, float, bool, np.number, np.bool_)):
        v = x if is_sym(x) else (x.item() if hasattr(x, "item") else x)
        k = val_kind(v)
        v = cast(k, v)
        return new((), lambda idx: v, k)
    if isinstance(x, (list, tuple)):
        return from_nested(x)
    if type(x).__name__ == "ObjArr":
        return x.num()
    raise Unsupported(f"array from {type(x)}")


def from_nested(x):
    """np.array([...]) with symbolic leaves"""
    items = [to_sarr(i) for i in x]
    if not items:
        return const_arr((0,), 0.0, "f")
    kinds = {i.kind for i in items}
    kind = "f" if "f" in kinds else ("i" if "i" in kinds else "b")
    nd = items[0].ndim
    for it in items[1:]:
        if it.ndim != nd:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        for d1, d2 in zip(it.dims, items[0].dims):
            if not same_dim(d1, d2):
                if core.CUR.decide(tm.not_(tm.eq(dsize(d1), dsize(d2)))):
                    raise ValueError("inhomogeneous shape")
    items = [copy(i) for i in items]
    dims = (SDim(tm.const(len(items))),) + items[0].dims

    def f(idx):
        i = idx[0]
        if i.op == "const":
            return cast(kind, items[int(i.args[0])].at(idx[1:]))
        r = None
        for j, it in enumerate(items):
            v = cast(kind, it.at(idx[1:]))
            r = v if r is None else v_ite(tm.eq(i, tm.const(j)), v, r)
        return r

    return new(dims, f, kind)


def unwrap(a):
    """0-d results become scalars, as numpy does"""
    if isinstance(a, SArr) and a.ndim == 0:
        v = a.scalar()
        if isinstance(v, Num):
            c = v.const()
            if isinstance(c, int) and a.kind == "i":
                return c
        return v
    return a


def copy(a):
    a = to_sarr(a)
    f0, t0 = snapshot(a)
    return new(a.dims, f0, a.kind)


def snapshot(a):
    """element function frozen at the current buffer contents"""
    bf, bc = a.buf.f, a.buf.cache
    tob = a.tob

    def g(idx):
        bi = idx if tob is None else tob(idx)
        scope = tuple(core.CUR.scope) if core.CUR is not None else ()
        k = (bi, scope)
        r = bc.get(k)
        if r is None:
            r = bf(bi)
            bc[k] = r
        return r

    return g, None


# ------------------------------------------------------------------ elementwise
def bdim(da, db):
    """broadcast two dims"""
    if da is db:
        return da
    if is_one(da):
        return db
    if is_one(db):
        return da
    if same_dim(da, db):
        return da
    na, nb = dsize(da), dsize(db)
    if tm.isconst(na) and tm.isconst(nb):
        if na is not nb:
            raise ValueError("operands could not be broadcast together")
        return da
    if core.CUR.scope:
        raise Unsupported("broadcast decision on generic element")
    if core.CUR.decide(tm.eq(na, nb)):
        if isinstance(da, SDim) and isinstance(db, SDim):
            return da
        raise Unsupported("broadcast of structured dims")
    if core.CUR.decide(tm.eq(na, tm.ONE)):
        return db
    if core.CUR.decide(tm.eq(nb, tm.ONE)):
        return da
    raise ValueError("operands could not be broadcast together")


def bcast_dims(*dimss):
    n = max(len(d) for d in dimss)
    out = []
    for i in range(n):
        r = ONE_D
        first = True
        for d in dimss:
            j = i - (n - len(d))
            if j >= 0:
                r = d[j] if first else bdim(r, d[j])
                first = False
        out.append(r)
    return tuple(out)


def bidx(dims, out_dims):
    """index translator from broadcast result to operand"""
    off = len(out_dims) - len(dims)
    plan = []
    for j, d in enumerate(dims):
        od = out_dims[j + off]
        if is_one(d) and not is_one(od):
            plan.append(None)
        elif d is od or same_dim(d, od):
            plan.append(j + off)
        elif isinstance(d, SDim) and core.CUR.truth(tm.eq(d.n, tm.ONE)) is True:
            plan.append(None)
        else:
            plan.append(j + off)
    if len(plan) == len(out_dims) and all(p == i for i, p in enumerate(plan)):
        return lambda idx: idx
    return lambda idx: tuple(tm.ZERO if p is None else idx[p] for p in plan)


def ew(f, *args, kind=None):
    """elementwise op on Num elements; f(Num,...)->Num|bool"""
    arrs = [to_sarr(a) for a in args]
    dims = bcast_dims(*[a.dims for a in arrs])
    if not dims:
        return f(*[as_num(a.scalar()) for a in arrs])
    snaps = [(snapshot(a)[0], bidx(a.dims, dims)) for a in arrs]

    def g(idx):
        return f(*[as_num(s(b(idx))) for s, b in snaps])

    if kind is None:
        kind = "f"
        if all(a.kind in "ib" for a in arrs) and f in (core.n_add, core.n_sub, core.n_mul, core.n_floordiv, core.n_mod, core.n_max, core.n_min, core.n_pow):
            kind = "i"
    return new(dims, g, kind)


def ewb(f, *args):
    arrs = [to_sarr(a) for a in args]
    dims = bcast_dims(*[a.dims for a in arrs])
    if not dims:
        return mkbool(f(*[bterm(a.scalar()) for a in arrs]))
    snaps = [(snapshot(a)[0], bidx(a.dims, dims)) for a in arrs]
    return new(dims, lambda idx: mkbool(f(*[bterm(s(b(idx))) for s, b in snaps])), "b")


def ew1(f, a, kind=None):
    a = to_sarr(a)
    if not a.dims:
        return f(a.scalar())
    s, _ = snapshot(a)
    return new(a.dims, lambda idx: f(s(idx)), kind or a.kind)


def np_where3(c, a, b):
    arrs = [to_sarr(x) for x in (c, a, b)]
    dims = bcast_dims(*[x.dims for x in arrs])
    snaps = [(snapshot(x)[0], bidx(x.dims, dims)) for x in arrs]

    def g(idx):
        cc = core.cbool(bterm(snaps[0][0](snaps[0][1](idx))))
        if cc is tm.TRUE:
            return snaps[1][0](snaps[1][1](idx))
        if cc is tm.FALSE:
            return snaps[2][0](snaps[2][1](idx))
        with scoped(cc):
            x = snaps[1][0](snaps[1][1](idx))
        with scoped(tm.not_(cc)):
            y = snaps[2][0](snaps[2][1](idx))
        return v_ite(cc, x, y)

    if not dims:
        return g(())
    ks = {arrs[1].kind, arrs[2].kind}
    return new(dims, g, "f" if "f" in ks else ("i" if "i" in ks else "b"))


# ------------------------------------------------------------------ indexing
def norm_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n_adv = 0
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, (SArr, np.ndarray)) and val_kind(k) == "b":
            used += k.ndim
        else:
            used += 1
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i : i + 1] = [slice(None)] * (a.ndim - used)
    else:
        key += [slice(None)] * (a.ndim - used)
    if used > a.ndim:
        raise IndexError(f"too many indices for array: array is {a.ndim}-dimensional, but {used} were indexed")
    return key


def is_int_key(k):
    if isinstance(k, (bool, np.bool_, SBool)):
        return False
    if isinstance(k, (int, np.integer)):
        return True
    if isinstance(k, Num):
        return True
    if isinstance(k, SArr) and k.ndim == 0 and k.kind == "i":
        return True
    if isinstance(k, np.ndarray) and k.ndim == 0 and k.dtype.kind in "iu":
        return True
    return False


def resolve_int(k, d):
    k = as_num(k)
    if k.k is not None or k.t.sort != "I":
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    n = dsize(d)
    t = k.t
    st = core.CUR
    if tm.isconst(t) and tm.isconst(n):
        v, m = int(tm.cval(t)), int(tm.cval(n))
        if not -m <= v < m:
            raise IndexError(f"index {v} is out of bounds for axis with size {m}")
        return tm.const(v % m)
    if tm.isconst(t):
        v = int(tm.cval(t))
        need = tm.lt(tm.const(v), n) if v >= 0 else tm.le(tm.const(-v), n)
        if st.truth(need) is not True and not st.decide(need):
            raise IndexError("index out of bounds")
        return t if v >= 0 else tm.add(n, t)
    ok = tm.and_(tm.le(tm.ZERO, t), tm.lt(t, n))
    if st.truth(ok) is True:
        return t
    if st.decide(tm.lt(t, tm.ZERO)):
        t2 = tm.add(t, n)
        if not st.decide(tm.le(tm.ZERO, t2)):
            raise IndexError("index out of bounds")
        return t2
    if not st.decide(tm.lt(t, n)):
        raise IndexError("index out of bounds")
    return t


def clamp_bound(b, n, default):
    """python slice bound semantics -> term in [0,n]"""
    if b is None:
        return default
    if isinstance(b, (SArr, np.ndarray)) and not isinstance(b, Num):
        b = to_sarr(b).scalar()
    b = as_num(b)
    core.fin_req(b)
    if b.t.sort != "I":
        raise TypeError("slice indices must be integers or None or have an __index__ method")
    t = b.t
    st = core.CUR
    if tm.isconst(t) and tm.isconst(n):
        v, m = int(tm.cval(t)), int(tm.cval(n))
        if v < 0:
            v = max(v + m, 0)
        return tm.const(min(v, m))
    neg = tm.lt(t, tm.ZERO)
    if st.truth(neg) is True or (st.truth(neg) is None and st.decide(neg)):
        t = tm.add(t, n)
        if st.truth(tm.le(tm.ZERO, t)) is not True:
            if not st.decide(tm.le(tm.ZERO, t)):
                return tm.ZERO
        return t
    if st.truth(tm.le(t, n)) is not True:
        if not st.decide(tm.le(t, n)):
            return n
    return t


def _zero(t):
    return norm_is_zero(t)


def norm_is_zero(t):
    if t is tm.ZERO:
        return True
    r = core.CUR.truth(tm.eq(t, tm.ZERO))
    return r is True


def slice_dim(d, sl):
    """returns (new dim, to_base(idx), from_base(idx)->(cond, idx))"""
    step = sl.step
    if step is not None and not isinstance(step, int):
        step = as_num(step).__index__()
    step = 1 if step is None else step
    if sl.start is None and sl.stop is None and step == 1:
        return d, (lambda i: i), (lambda i: (tm.TRUE, i))
    n = dsize(d)
    if isinstance(d, CDim) and step == 1:
        return slice_cdim(d, sl)
    if isinstance(d, PDim) and step == 1:
        a, b = clamp_bound(sl.start, n, tm.ZERO), clamp_bound(sl.stop, n, n)
        if norm_is_zero(a) and norm_is_zero(tm.sub(b, n)):
            return d, (lambda i: i), (lambda i: (tm.TRUE, i))
        if norm_is_zero(tm.sub(b, a)):
            return SDim(tm.ZERO), (lambda i: i), (lambda i: (tm.FALSE, i))
        raise Unsupported("slice of flattened dim")
    if not isinstance(d, SDim):
        if step == -1 and sl.start is None and sl.stop is None:
            raise Unsupported("reverse of structured dim")
        raise Unsupported("slice of a structured dimension")
    if step > 0:
        a, b = clamp_bound(sl.start, n, tm.ZERO), clamp_bound(sl.stop, n, n)
        st = core.CUR
        if tm.isconst(a) and tm.isconst(b):
            ln = tm.const(max(0, -(-(int(tm.cval(b)) - int(tm.cval(a))) // step)))
        else:
            if a is tm.ZERO:
                ln = b
            elif st.truth(tm.le(a, b)) is True or st.decide(tm.le(a, b)):
                ln = tm.sub(b, a)
            else:
                ln = tm.ZERO
            if step != 1:
                ln = tm.idiv(tm.add(ln, tm.const(step - 1)), tm.const(step))
        nd = SDim(ln)
        if a is tm.ZERO and ln is n:
            nd = d
        s = tm.const(step)
        if step == 1:
            return nd, (lambda i: tm.add(i, a)), (
                lambda i: (tm.and_(tm.le(a, i), tm.lt(i, tm.add(a, ln))), tm.sub(i, a))
            )
        return nd, (lambda i: tm.add(tm.mul(i, s), a)), (
            lambda i: (
                tm.and_(tm.le(a, i), tm.lt(i, b), tm.eq(tm.mod(tm.sub(i, a), s), tm.ZERO)),
                tm.idiv(tm.sub(i, a), s),
            )
        )
    if step == -1 and sl.start is None and sl.stop is None:
        return d, (lambda i: tm.sub(tm.sub(n, tm.ONE), i)), (lambda i: (tm.TRUE, tm.sub(tm.sub(n, tm.ONE), i)))
    if tm.isconst(n):
        r = range(int(tm.cval(n)))[slice(
            None if sl.start is None else int(as_num(sl.start)), None if sl.stop is None else int(as_num(sl.stop)), step)]
        lst = list(r)

        def tob(i):
            return tm.const(lst[int(tm.cval(i))])

        def fromb(i):
            v = int(tm.cval(i))
            return (tm.TRUE, tm.const(lst.index(v))) if v in lst else (tm.FALSE, tm.ZERO)

        return SDim(tm.const(len(lst))), tob, fromb
    raise Unsupported("slice step")


def slice_cdim(d, sl):
    n = dsize(d)
    a, b = clamp_bound(sl.start, n, tm.ZERO), clamp_bound(sl.stop, n, n)
    off = [tm.ZERO]
    for s in d.segs:
        off.append(tm.add(off[-1], dsize(s)))

    def locate(x, end):
        rng = range(len(off))
        for i in rng:
            if norm_is_zero(tm.sub(x, off[i])):
                return i, None
        for i, s in enumerate(d.segs):
            if isinstance(s, SDim) and core.CUR.truth(tm.and_(tm.le(off[i], x), tm.le(x, off[i + 1]))) is True:
                return i, tm.sub(x, off[i])
        raise Unsupported("slice boundary inside a structured segment")

    ia, ra = locate(a, False)
    ib, rb = locate(b, True)
    segs = []  # (orig seg, start, dim)
    i = ia
    while i < ib or (i == ib and rb is not None):
        s = d.segs[i]
        st = ra if i == ia and ra is not None else None
        en = rb if i == ib else None
        if st is None and en is None:
            segs.append((i, None, s))
        else:
            st = st if st is not None else tm.ZERO
            en = en if en is not None else dsize(s)
            segs.append((i, st, SDim(tm.sub(en, st))))
        i += 1
    if not segs:
        return SDim(tm.ZERO), (lambda i: (0, i)), (lambda i: (tm.FALSE, tm.ZERO))
    if len(segs) == 1:
        k, st, nd = segs[0]
        if st is None:
            return nd, (lambda i: (k, i)), (lambda i: (tm.TRUE if i[0] == k else tm.FALSE, i[1]))
        return nd, (lambda i: (k, tm.add(i, st))), (
            lambda i: (tm.and_(tm.le(st, i[1]), tm.lt(i[1], tm.add(st, nd.n))), tm.sub(i[1], st)) if i[0] == k else (tm.FALSE, tm.ZERO)
        )
    nd = CDim([s for _, _, s in segs])

    def tob(i):
        k, st, _ = segs[i[0]]
        return (k, i[1] if st is None else tm.add(i[1], st))

    def fromb(i):
        for j, (k, st, dd) in enumerate(segs):
            if k == i[0]:
                if st is None:
                    return tm.TRUE, (j, i[1])
                return tm.and_(tm.le(st, i[1]), tm.lt(i[1], tm.add(st, dd.n))), (j, tm.sub(i[1], st))
        return tm.FALSE, (0, tm.ZERO)

    return nd, tob, fromb


def int_index_struct(d, t):
    """structured index of linear position t"""
    if isinstance(d, SDim):
        return t
    if isinstance(d, CDim):
        off = tm.ZERO
        for s, seg in enumerate(d.segs):
            nx = tm.add(off, dsize(seg))
            inside = tm.and_(tm.le(off, t), tm.lt(t, nx))
            if s == len(d.segs) - 1 or core.CUR.decide(inside):
                return (s, int_index_struct(seg, tm.sub(t, off)))
            off = nx
    if isinstance(d, PDim) and len(d.parts) == 2:
        n2 = dsize(d.parts[1])
        return (tm.idiv(t, n2), tm.mod(t, n2))
    if isinstance(d, MDim) and len(d.base) == 1 and isinstance(d.base[0], SDim) and t is tm.ZERO and not core.CUR.scope:
        key = ("first", d.key)
        w = core.CUR.memo.get(key)
        if w is None:
            w = core.CUR.memo[key] = tm.fresh("first", "I")
            n = d.base[0].n
            core.CUR.path.add(tm.and_(tm.le(tm.ZERO, w), tm.lt(w, n), d.pred((w,))))
            v = tm.fresh("b", "I")
            with scoped(tm.le(tm.ZERO, v), tm.lt(v, n)):
                pv = d.pred((v,))
            core.CUR.path.add(tm.forall(n, v, tm.or_(tm.le(w, v), tm.not_(pv))))
        return (w,)
    raise Unsupported("integer index into a compressed dimension")


def flat_cdim(d):
    return isinstance(d, CDim) and all(isinstance(s, SDim) for s in d.segs)


def linearize(a, axes=None):
    """the same array with concatenated plain dimensions turned into one plain dimension"""
    axes = [i for i in (range(a.ndim) if axes is None else axes) if flat_cdim(a.dims[i])]
    if not axes:
        return a
    src, _ = snapshot(a)
    dims = [SDim(dsize(d)) if i in axes else d for i, d in enumerate(a.dims)]

    def at(idx, axes):
        if not axes:
            return src(idx)
        ax, rest = axes[0], axes[1:]
        i = idx[ax]
        lo, r, parts = tm.ZERO, None, []
        for j, s in enumerate(a.dims[ax].segs):
            parts.append((j, lo, tm.add(lo, s.n)))
            lo = tm.add(lo, s.n)
        for j, lo, hi in reversed(parts):
            c = tm.lt(i, hi)
            inside = tm.and_(tm.le(lo, i), c)
            if core.CUR.truth(inside) is False:
                continue
            with scoped(inside):
                v = at(idx[:ax] + ((j, tm.sub(i, lo)),) + idx[ax + 1 :], rest)
            r = v if r is None else v_ite(c, v, r)
        if r is None:
            raise Unsupported("index outside every segment")
        return r

    return new(dims, lambda idx: at(tuple(idx), axes), a.kind)


def view(a, dims, tob, fromb):
    """compose a view; tob: idx->a idx ; fromb: a idx->(cond, idx)"""
    if a.tob is None:
        return SArr(a.buf, dims, tob, fromb)
    at, af = a.tob, a.fromb

    def tob2(idx):
        return at(tob(idx))

    fromb2 = None
    if af is not None and fromb is not None:

        def fromb2(b):
            c, i = af(b)
            if c is tm.FALSE:
                return c, None
            c2, j = fromb(i)
            return tm.and_(c, c2), j

    return SArr(a.buf, dims, tob2, fromb2)


def basic_view(a, key):
    """key: list of int/slice/None -> view"""
    dims = []
    plan = []  # per base axis: ('c', term) or ('s', out position, tob, fromb)
    ax = 0
    for k in key:
        if k is None:
            dims.append(ONE_D)
            continue
        d = a.dims[ax]
        if isinstance(k, slice):
            nd, tob, fromb = slice_dim(d, k)
            plan.append(("s", len(dims), tob, fromb))
            dims.append(nd)
        else:
            t = resolve_int(k, d)
            plan.append(("c", int_index_struct(d, t)))
        ax += 1
    ndims = len(dims)

    def tob(idx):
        return tuple(p[1] if p[0] == "c" else p[2](idx[p[1]]) for p in plan)

    def fromb(b):
        conds = []
        idx = [tm.ZERO] * ndims
        for x, p in zip(b, plan):
            if p[0] == "c":
                conds.append(idx_eq(x, p[1]))
            else:
                c, i = p[3](x)
                if c is tm.FALSE:
                    return tm.FALSE, None
                conds.append(c)
                idx[p[1]] = i
        return tm.and_(*conds), tuple(idx)

    return view(a, dims, tob, fromb)


def idx_eq(x, y):
    if isinstance(x, tuple):
        if isinstance(x[0], int):
            return idx_eq(x[1], y[1]) if x[0] == y[0] else tm.FALSE
        return tm.and_(*[idx_eq(a, b) for a, b in zip(x, y)])
    return tm.eq(x, y)


_mask_cnt = {}


def mask_dim(mask):
    """boolean SArr (any ndim) -> MDim over its dims"""
    s, _ = snapshot(mask)
    dims = mask.dims

    def pred(idx):
        return bterm(s(idx))

    # canonical key: predicate at canonical index variables
    facts = []
    cidx = []
    enum = all(isinstance(d, SDim) and tm.isconst(d.n) for d in dims)
    if enum:
        keyt = tuple(pred(idx) for idx, _ in generic(dims))
    else:
        def canon(d, pos):
            if isinstance(d, SDim):
                v = tm.var(f"cm{len(cidx)}", "I")
                cidx.append(v)
                facts.extend([tm.le(tm.ZERO, v), tm.lt(v, d.n)])
                return v
            if isinstance(d, (MDim,)):
                i = tuple(canon(x, pos) for x in d.base)
                facts.append(d.pred(i))
                return i
            if isinstance(d, PDim):
                return tuple(canon(x, pos) for x in d.parts)
            raise Unsupported("mask over concatenation")

        ci = tuple(canon(d, i) for i, d in enumerate(dims))
        with scoped(*facts):
            keyt = (pred(ci),)
    key = (tuple(dkey(d) for d in dims), keyt)
    cnt = _mask_cnt.get(key)
    if cnt is None:
        body = lambda idx: tm.ite(pred(idx), tm.ONE, tm.ZERO)
        cnt = reduce_dims("sum", list(dims), body)
        _mask_cnt[key] = cnt
        if cnt.op != "const" and core.CUR is not None and not core.CUR.scope:
            ex = reduce_dims("exists", list(dims), pred)
            fa = reduce_dims("forall", list(dims), pred)
            total = tm.mul(*[dsize(d) for d in dims])
            core.CUR.path.add(tm.le(tm.ZERO, cnt))
            core.CUR.path.add(tm.le(cnt, total))
            core.CUR.path.add(tm.eq(ex, tm.lt(tm.ZERO, cnt)))
            core.CUR.path.add(tm.eq(fa, tm.le(total, cnt)))
    return MDim(dims, pred, cnt, key)


def dkey(d):
    if isinstance(d, SDim):
        return ("S", d.n)
    if isinstance(d, MDim):
        return ("M", d.key)
    if isinstance(d, PDim):
        return ("P",) + tuple(dkey(p) for p in d.parts)
    return ("C",) + tuple(dkey(p) for p in d.segs)


def adv_arr(k):
    if isinstance(k, SArr):
        return k
    if isinstance(k, np.ndarray):
        return from_np(k)
    if isinstance(k, (list, range)):
        return to_sarr(list(k)) if len(k) else const_arr((0,), 0, "i")
    if isinstance(k, (bool, np.bool_, SBool)):
        raise Unsupported("scalar boolean index")
    raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")


def plan_adv(a, key):
    """general indexing plan.  Returns (dims, tob, setter_info) for keys with one
    advanced index (boolean mask or integer array) plus basic ones."""
    adv = [i for i, k in enumerate(key) if not (k is None or isinstance(k, slice) or is_int_key(k))]
    return adv


def fix_bool_scalar_mask(m):
    return m


def const_mask_to_idx(m):
    """mask whose entries are all constants and dims const -> list of indices"""
    if m.ndim != 1 or not tm.isconst(dsize(m.dims[0])) or not isinstance(m.dims[0], SDim):
        return None
    out = []
    for i in range(int(tm.cval(m.dims[0].n))):
        t = bterm(m.at((tm.const(i),)))
        if t is tm.TRUE:
            out.append(i)
        elif t is not tm.FALSE:
            return None
    return out


def getitem(a, key):
    key = norm_key(a, key)
    adv = plan_adv(a, key)
    if not adv:
        r = basic_view(a, key)
        if r.ndim == 0:
            return unwrap(SArr(r.buf, (), r.tob, r.fromb)) if True else r
        return r
    if len(adv) > 1:
        ks = [adv_arr(key[i]) for i in adv]
        if all(k.kind == "b" for k in ks):
            raise Unsupported("several boolean masks")
        # joint integer arrays (zip semantics): a[I, J]
        arrs = [k if k.kind == "i" else None for k in ks]
        if any(x is None for x in arrs):
            raise Unsupported("mixed advanced indices")
        if any(not (i in adv or isinstance(k, slice) or is_int_key(k)) for i, k in enumerate(key)):
            raise Unsupported("advanced with newaxis")
        jd = bcast_dims(*[x.dims for x in arrs])
        if adv != list(range(adv[0], adv[-1] + 1)):
            raise Unsupported("non adjacent advanced indices")
        snaps = [(snapshot(x)[0], bidx(x.dims, jd)) for x in arrs]
        dims = []
        plan = []
        for i, k in enumerate(key):
            if i in adv:
                j = adv.index(i)
                if j == 0:
                    base_pos = len(dims)
                    dims.extend(jd)
                plan.append(("a", j))
                check_bounds(arrs[j], a.dims[i])
            elif isinstance(k, slice):
                nd, tob, _ = slice_dim(a.dims[i], k)
                plan.append(("s", len(dims), tob))
                dims.append(nd)
            else:
                plan.append(("c", resolve_int(k, a.dims[i])))
        src, _ = snapshot(a)

        def g(idx):
            out = []
            for i, p in enumerate(plan):
                if p[0] == "a":
                    s, b = snaps[p[1]]
                    v = as_num(s(b(idx[base_pos : base_pos + len(jd)]))).t
                    out.append(wrap_neg(v, dsize(a.dims[i])))
                elif p[0] == "s":
                    out.append(p[2](idx[p[1]]))
                else:
                    out.append(p[1])
            return src(tuple(out))

        return new(dims, g, a.kind)
    i = adv[0]
    k = adv_arr(key[i])
    pre, post = key[:i], key[i + 1 :]
    if k.kind == "b":
        m = k.ndim
        ax = len([x for x in pre if x is not None])
        mdims = list(k.dims)
        adims = a.dims[ax : ax + m]
        for d1, d2 in zip(mdims, adims):
            if not same_dim(d1, d2):
                if core.CUR.decide(tm.not_(tm.eq(dsize(d1), dsize(d2)))):
                    raise IndexError("boolean index did not match indexed array")
        ci = const_mask_to_idx(k)
        if ci is not None:
            return getitem(a, tuple(pre + [from_np(np.array(ci, dtype=int))] + post))
        if any(flat_cdim(d) for d in adims):
            k = linearize(k)
            a = linearize(a, range(ax, ax + m))
            adims = a.dims[ax : ax + m]
        # view everything else basically, leaving the m mask axes intact
        base = basic_view(a, pre + [slice(None)] * m + post)
        out_pre = len([x for x in pre if x is None or isinstance(x, slice)])
        md = mask_dim(SArr(k.buf, adims, k.tob, k.fromb))
        if md.cnt.op == "const":
            pass
        dims = base.dims[:out_pre] + (md,) + base.dims[out_pre + m :]
        src, _ = snapshot(base)

        def g(idx):
            mi = idx[out_pre]
            return src(idx[:out_pre] + tuple(mi) + idx[out_pre + 1 :])

        return new(dims, g, a.kind)
    # integer array on one axis
    ax = len([x for x in pre if x is not None])
    check_bounds(k, a.dims[ax])
    base = basic_view(a, pre + [slice(None)] + post)
    out_pre = len([x for x in pre if x is None or isinstance(x, slice)])
    if any(is_int_key(x) for x in pre + post) and pre and False:
        raise Unsupported("mixed int and array index")
    nk = k.ndim
    dims = base.dims[:out_pre] + k.dims + base.dims[out_pre + 1 :]
    src, _ = snapshot(base)
    ks, _ = snapshot(k)
    bd = base.dims[out_pre]
    n = dsize(bd)

    def g(idx):
        kv = as_num(ks(idx[out_pre : out_pre + nk])).t
        kv = wrap_neg(kv, n)
        if not isinstance(bd, SDim):
            kv = int_index_struct(bd, kv)
        return src(idx[:out_pre] + (kv,) + idx[out_pre + nk :])

    r = new(dims, g, a.kind)
    return unwrap(r) if r.ndim == 0 else r


def wrap_neg(v, n):
    if tm.isconst(v):
        return v if tm.cval(v) >= 0 else tm.add(v, n)
    if core.CUR.truth(tm.le(tm.ZERO, v)) is True:
        return v
    return tm.ite(tm.lt(v, tm.ZERO), tm.add(v, n), v)


def check_bounds(k, d):
    n = dsize(d)
    s, _ = snapshot(k)

    def bad(idx):
        v = as_num(s(idx)).t
        if v.op == "argmax" and v.args[0] is n:
            return tm.FALSE  # the position of an extremum of a non-empty axis of the same length
        return tm.or_(tm.lt(v, tm.neg(n)), tm.le(n, v))

    b = reduce_dims("exists", list(k.dims), bad)
    if b is tm.FALSE:
        return
    if core.CUR.scope:
        if core.CUR.truth(b) is not False:
            raise Unsupported("bounds of a generic index array")
        return
    if core.CUR.decide(b):
        raise IndexError("index out of bounds")


def setitem(a, key, val):
    key = norm_key(a, key)
    adv = plan_adv(a, key)
    val = to_sarr(val)
    if a.kind == "i" and val.kind == "f":
        val = ew1(lambda v: core.num_int(as_num(v)), val, "i")
        if not isinstance(val, SArr):
            val = to_sarr(val)
    if a.kind == "b" and val.kind != "b":
        val = to_sarr(ew1(lambda v: mkbool(bterm(v)), val, "b"))
    kind = a.kind
    if not adv:
        v = basic_view(a, key)
        assign_view(v, val)
        return
    if len(adv) > 1:
        raise Unsupported("assignment with several advanced indices")
    i = adv[0]
    k = adv_arr(key[i])
    pre, post = key[:i], key[i + 1 :]
    out_pre = len([x for x in pre if x is None or isinstance(x, slice)])
    ax = len([x for x in pre if x is not None])
    if k.kind == "b":
        m = k.ndim
        adims = a.dims[ax : ax + m]
        for d1, d2 in zip(k.dims, adims):
            if not same_dim(d1, d2):
                if core.CUR.decide(tm.not_(tm.eq(dsize(d1), dsize(d2)))):
                    raise IndexError("boolean index did not match indexed array")
        ci = const_mask_to_idx(k)
        if ci is not None:
            setitem(a, tuple(pre + [from_np(np.array(ci, dtype=int))] + post), val)
            return
        base = basic_view(a, pre + [slice(None)] * m + post)
        md = mask_dim(SArr(k.buf, adims, k.tob, k.fromb))
        sel_dims = base.dims[:out_pre] + (md,) + base.dims[out_pre + m :]
        bcast_into(val.dims, sel_dims)
        tr = bidx(val.dims, sel_dims)
        vs, _ = snapshot(val)
        pred = md.pred
        put_view(
            base,
            lambda idx: pred(tuple(idx[out_pre : out_pre + m])),
            lambda idx: cast(kind, vs(tr(idx[:out_pre] + (tuple(idx[out_pre : out_pre + m]),) + idx[out_pre + m :]))),
        )
        return
    # integer-array scatter
    check_bounds(k, a.dims[ax])
    base = basic_view(a, pre + [slice(None)] + post)
    nk = k.ndim
    sel_dims = base.dims[:out_pre] + k.dims + base.dims[out_pre + 1 :]
    bcast_into(val.dims, sel_dims)
    tr = bidx(val.dims, sel_dims)
    vs, _ = snapshot(val)
    ks, _ = snapshot(k)
    n = dsize(a.dims[ax])
    if all(isinstance(d, SDim) and tm.isconst(d.n) for d in k.dims):
        for ki, _ in generic(k.dims):
            pos = wrap_neg(as_num(ks(ki)).t, n)
            put_view(
                base,
                lambda idx, pos=pos: tm.eq(idx[out_pre], pos),
                lambda idx, ki=ki: cast(kind, vs(tr(idx[:out_pre] + ki + idx[out_pre + 1 :]))),
            )
        return
    # scalar value scatter: position hit by some index
    if all(is_one(d) for d in val.dims) or val.ndim == 0:
        def cond(idx):
            return reduce_dims("exists", list(k.dims), lambda ki: tm.eq(wrap_neg(as_num(ks(ki)).t, n), idx[out_pre]))

        z = tuple(tm.ZERO for _ in val.dims)
        put_view(base, cond, lambda idx: cast(kind, vs(z)))
        return
    raise Unsupported("scatter assignment")


def bcast_into(vdims, tdims):
    """value dims must broadcast into target dims"""
    if len(vdims) > len(tdims):
        extra = vdims[: len(vdims) - len(tdims)]
        if not all(is_one(d) for d in extra):
            raise ValueError("could not broadcast input array")
        vdims = vdims[len(vdims) - len(tdims) :]
    off = len(tdims) - len(vdims)
    for j, d in enumerate(vdims):
        t = tdims[j + off]
        if is_one(d) or same_dim(d, t):
            continue
        nd, nt = dsize(d), dsize(t)
        if tm.isconst(nd) and tm.isconst(nt):
            if nd is nt:
                continue
            raise ValueError("could not broadcast input array from shape into shape")
        if core.CUR.truth(tm.eq(nd, nt)) is True:
            if isinstance(d, SDim) and isinstance(t, SDim):
                continue
            raise Unsupported("assignment between differently structured dims")
        if core.CUR.decide(tm.eq(nd, nt)):
            if isinstance(d, SDim) and isinstance(t, SDim):
                continue
            raise Unsupported("assignment between differently structured dims")
        if core.CUR.decide(tm.eq(nd, tm.ONE)):
            continue
        raise ValueError("could not broadcast input array from shape into shape")


def put_view(v, cond, val):
    """write into view v where cond(idx) with val(idx)"""
    if v.tob is None:
        v.buf.put(cond, val)
        return
    fromb = v.fromb
    if fromb is None:
        raise Unsupported("write through a non-invertible view")

    def c2(b):
        c, i = fromb(b)
        if c is tm.FALSE:
            return c
        with scoped(c):
            return tm.and_(c, cond(i))

    def v2(b):
        c, i = fromb(b)
        return val(i)

    v.buf.put(c2, v2)


def assign_view(v, val):
    bcast_into(val.dims, v.dims)
    vd = val.dims
    if len(vd) > len(v.dims):
        k = len(vd) - len(v.dims)
        vs0, _ = snapshot(val)
        vs = lambda idx: vs0((tm.ZERO,) * k + idx)
        vd = vd[k:]
    else:
        vs, _ = snapshot(val)
    tr = bidx(vd, v.dims)
    kind = v.kind
    put_view(v, lambda idx: tm.TRUE, lambda idx: cast(kind, vs(tr(idx))))


# ------------------------------------------------------------------ shape ops
def transpose(a, axes=None):
    a = to_sarr(a)
    n = a.ndim
    if axes is None:
        axes = tuple(range(n))[::-1]
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
        axes = axes[0]
    axes = tuple(int(x) % n for x in axes)
    invp = [axes.index(i) for i in range(n)]
    dims = tuple(a.dims[x] for x in axes)
    return view(a, dims, lambda idx: tuple(idx[p] for p in invp), lambda b: (tm.TRUE, tuple(b[x] for x in axes)))


def drop_axes(a, axes):
    keep = [i for i in range(a.ndim) if i not in axes]
    dims = tuple(a.dims[i] for i in keep)

    def tob(idx):
        out = [tm.ZERO] * a.ndim
        for i, x in zip(keep, idx):
            out[i] = x
        return tuple(out)

    return view(a, dims, tob, lambda b: (tm.TRUE, tuple(b[i] for i in keep)))


def squeeze(a, axis=None):
    a = to_sarr(a)
    axes = []
    rng = range(a.ndim) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
    for i in rng:
        d = a.dims[i]
        n = dsize(d)
        one = n is tm.ONE
        if not one and not tm.isconst(n):
            one = core.CUR.decide(tm.eq(n, tm.ONE))
        if one:
            if not isinstance(d, SDim):
                raise Unsupported("squeeze structured")
            axes.append(i)
        elif axis is not None:
            raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    return drop_axes(a, axes)


def expand(a, pos):
    key = [slice(None)] * a.ndim
    key.insert(pos, None)
    return basic_view(a, key)


def all_const(a):
    return all(isinstance(d, SDim) and tm.isconst(d.n) for d in a.dims)


def ravel(a, order="C"):
    a = to_sarr(a)
    if order in ("A", "K"):
        order = "C"
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        return basic_view(a, [None])
    nz = [i for i in range(a.ndim) if not is_one(a.dims[i])]
    if len(nz) <= 1:
        r = drop_axes(a, [i for i in range(a.ndim) if i not in nz])
        return r if r.ndim == 1 else basic_view(r, [None])
    if all_const(a):
        sizes = [int(tm.cval(d.n)) for d in a.dims]
        total = math.prod(sizes)
        src, _ = snapshot(a)

        def f(idx):
            m = int(tm.cval(idx[0]))
            mi = np.unravel_index(m, sizes, order=order)
            return src(tuple(tm.const(int(x)) for x in mi))

        return new((SDim(tm.const(total)),), f, a.kind)
    src, _ = snapshot(a)
    if order == "C":
        pd = PDim([a.dims[i] for i in nz])

        def f(idx):
            full = [tm.ZERO] * a.ndim
            for i, x in zip(nz, idx[0]):
                full[i] = x
            return src(tuple(full))
    else:
        nzr = nz[::-1]
        pd = PDim([a.dims[i] for i in nzr])

        def f(idx):
            full = [tm.ZERO] * a.ndim
            for i, x in zip(nzr, idx[0]):
                full[i] = x
            return src(tuple(full))

    return new((pd,), f, a.kind)


def reshape(a, shape, order="C"):
    a = to_sarr(a)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = list(shape)
    total = dsize_all(a)
    neg = [i for i, s in enumerate(shape) if isinstance(s, (int, np.integer)) and s == -1]
    if len(shape) == 1 and neg:
        return ravel(a, order)
    if all_const(a) and all(not isinstance(s, Num) or s.const() is not None for s in shape):
        sizes = [int(tm.cval(d.n)) for d in a.dims]
        shp = [int(s) for s in shape]
        if -1 in shp:
            i = shp.index(-1)
            p = math.prod(x for x in shp if x != -1)
            if p == 0 or math.prod(sizes) % p:
                raise ValueError("cannot reshape array")
            shp[i] = math.prod(sizes) // p
        if math.prod(sizes) != math.prod(shp):
            raise ValueError(f"cannot reshape array of size {math.prod(sizes)} into shape {shp}")
        if math.prod(sizes) == 0:
            return new([SDim(tm.const(x)) for x in shp], lambda idx: cast(a.kind, 0), a.kind)
        oo = order if order != "A" else "C"

        def conv(idx, frm, to):
            """index conversion for indices that are not constants"""
            f1, t1 = [i for i, x in enumerate(frm) if x != 1], [i for i, x in enumerate(to) if x != 1]
            if [frm[i] for i in f1] == [to[i] for i in t1]:
                out = [tm.ZERO] * len(to)
                for i, j in zip(f1, t1):
                    out[j] = idx[i]
                return tuple(out)
            fi, ti = (range(len(frm)), range(len(to))) if oo == "C" else (range(len(frm))[::-1], range(len(to))[::-1])
            m = tm.ZERO
            for i in fi:
                m = tm.add(tm.mul(m, tm.const(frm[i])), idx[i])
            out = [None] * len(to)
            for j in list(ti)[::-1]:
                out[j] = tm.mod(m, tm.const(to[j]))
                m = tm.idiv(m, tm.const(to[j]))
            return tuple(out)

        def tob(idx):
            if not all(tm.isconst(t) for t in idx):
                return conv(idx, shp, sizes)
            m = np.ravel_multi_index([int(tm.cval(t)) for t in idx], shp, order=oo) if shp else 0
            return tuple(tm.const(int(x)) for x in np.unravel_index(int(m), sizes, order=oo)) if sizes else ()

        def fromb(b):
            if not all(tm.isconst(t) for t in b):
                return tm.TRUE, conv(b, sizes, shp)
            m = np.ravel_multi_index([int(tm.cval(t)) for t in b], sizes, order=oo) if sizes else 0
            return tm.TRUE, tuple(tm.const(int(x)) for x in np.unravel_index(int(m), shp, order=oo)) if shp else ()

        dims = [SDim(tm.const(x)) for x in shp]
        # numpy returns a view for C-contiguous sources with C order, a copy otherwise
        if oo == "C" and a.tob is None:
            return view(a, dims, tob, fromb)
        if sum(1 for s in sizes if s != 1) <= 1:
            return view(a, dims, tob, fromb)
        src, _ = snapshot(a)
        return new(dims, lambda idx: src(tob(idx)), a.kind)
    # symbolic: strip unit dims; compare the rest
    tdims = []
    for s in shape:
        tdims.append(None if (isinstance(s, (int, np.integer)) and s == -1) else dim_of(s))
    # same dims up to ones?
    src_nz = [i for i in range(a.ndim) if not is_one(a.dims[i])]
    if neg:
        known = [d for d in tdims if d is not None and not is_one(d)]
        # infer
        if len(known) == 0:
            r = ravel(a, order)
            i = neg[0]
            key = [None] * len(tdims)
            key[i] = slice(None)
            return basic_view(r, key)
        rem = [a.dims[j] for j in src_nz]
        for kd in known:
            hit = [j for j, d in enumerate(rem) if same_dim(d, kd)]
            if not hit:
                rem = None
                break
            rem.pop(hit[0])
        if rem is None:
            # flat PDim / generic
            if a.ndim == 1 and isinstance(a.dims[0], PDim) and len(a.dims[0].parts) == 2:
                parts = a.dims[0].parts
                hit = [j for j, d in enumerate(parts) if same_dim(d, known[0])]
                if hit:
                    rem = [parts[1 - hit[0]]]
        if rem is None or len(rem) > 1:
            raise Unsupported("reshape with -1")
        tdims[neg[0]] = rem[0] if rem else ONE_D
    t_nz = [i for i in range(len(tdims)) if not is_one(tdims[i])]
    if len(t_nz) == len(src_nz) and all(same_dim(tdims[i], a.dims[j]) for i, j in zip(t_nz, src_nz)) :
        r = drop_axes(a, [i for i in range(a.ndim) if i not in src_nz])
        key = [slice(None) if i in t_nz else None for i in range(len(tdims))]
        return basic_view(r, key)
    # flat -> 2d
    flat = ravel(a, order)
    d = flat.dims[0]
    s, _ = snapshot(flat)
    if len(t_nz) == 1 and len(tdims) >= 1:
        if core.CUR.truth(tm.eq(dsize(tdims[t_nz[0]]), dsize(d))) is True:
            key = [slice(None) if i in t_nz else None for i in range(len(tdims))]
            return basic_view(flat, key)
    if isinstance(d, PDim):
        want = [tdims[i] for i in t_nz]
        if order == "F":
            want = want[::-1]
        if len(want) == len(d.parts) and all(same_dim(x, y) for x, y in zip(want, d.parts)):
            def f(idx):
                sub = [idx[i] for i in t_nz]
                if order == "F":
                    sub = sub[::-1]
                return s((tuple(sub),))

            return new(tdims, f, a.kind)
    if isinstance(d, SDim) and len(t_nz) == 2:
        d1, d2 = tdims[t_nz[0]], tdims[t_nz[1]]
        if isinstance(d1, SDim) and isinstance(d2, SDim):
            need = tm.eq(tm.mul(d1.n, d2.n), d.n)
            if core.CUR.truth(need) is not True and not core.CUR.decide(need):
                raise ValueError("cannot reshape array")

            def f(idx):
                i, j = idx[t_nz[0]], idx[t_nz[1]]
                lin = tm.add(tm.mul(i, d2.n), j) if order == "C" else tm.add(i, tm.mul(j, d1.n))
                return s((lin,))

            return new(tdims, f, a.kind)
    # sizes provably different?
    tot2 = tm.mul(*[dsize(x) for x in tdims])
    if core.CUR.truth(tm.eq(total, tot2)) is not True:
        if core.CUR.decide(tm.not_(tm.eq(total, tot2))):
            raise ValueError("cannot reshape array")
    raise Unsupported(f"reshape {a.dims} -> {tdims}")


def concatenate(arrs, axis=0):
    arrs = [to_sarr(x) for x in arrs]
    if axis is None:
        arrs = [ravel(x) for x in arrs]
        axis = 0
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    for x in arrs:
        if x.ndim != nd:
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    axis = axis % nd
    for x in arrs[1:]:
        for j in range(nd):
            if j != axis and not same_dim(x.dims[j], arrs[0].dims[j]):
                if core.CUR.decide(tm.not_(tm.eq(dsize(x.dims[j]), dsize(arrs[0].dims[j])))):
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    kinds = {x.kind for x in arrs}
    kind = "f" if "f" in kinds else ("i" if "i" in kinds else "b")
    # drop provably empty ones
    arrs = [x for x in arrs if dsize(x.dims[axis]) is not tm.ZERO] or arrs[:1]
    arrs = [copy(x) for x in arrs]
    ds = [x.dims[axis] for x in arrs]
    if len(arrs) == 1:
        return arrs[0]
    if all(isinstance(d, SDim) for d in ds):
        offs = [tm.ZERO]
        for d in ds:
            offs.append(tm.add(offs[-1], d.n))
        if all(tm.isconst(d.n) for d in ds) or True:
            nd_ = SDim(offs[-1])
            symbolic = [d for d in ds if not tm.isconst(d.n)]
            if len(symbolic) <= 1 or all(tm.isconst(d.n) for d in ds):

                def f(idx):
                    i = idx[axis]
                    if i.op == "const" and all(o.op == "const" for o in offs):
                        v = tm.cval(i)
                        for k, x in enumerate(arrs):
                            if v < tm.cval(offs[k + 1]):
                                return cast(kind, x.at(idx[:axis] + (tm.sub(i, offs[k]),) + idx[axis + 1 :]))
                        raise IndexError
                    r = None
                    for k in reversed(range(len(arrs))):
                        c = tm.lt(i, offs[k + 1])
                        inside = tm.and_(tm.le(offs[k], i), c)
                        if core.CUR.truth(inside) is False:
                            continue
                        with scoped(inside):
                            v = cast(kind, arrs[k].at(idx[:axis] + (tm.sub(i, offs[k]),) + idx[axis + 1 :]))
                        r = v if r is None else v_ite(c, v, r)
                    return r

                dims = arrs[0].dims[:axis] + (nd_,) + arrs[0].dims[axis + 1 :]
                return new(dims, f, kind)
    segs = []
    where = []
    for k, d in enumerate(ds):
        if isinstance(d, CDim):
            for s, sg in enumerate(d.segs):
                segs.append(sg)
                where.append((k, s))
        else:
            segs.append(d)
            where.append((k, None))
    cd = CDim(segs)

    def f(idx):
        s, i = idx[axis]
        k, sub = where[s]
        return cast(kind, arrs[k].at(idx[:axis] + ((i if sub is None else (sub, i)),) + idx[axis + 1 :]))

    dims = arrs[0].dims[:axis] + (cd,) + arrs[0].dims[axis + 1 :]
    return new(dims, f, kind)


def stack(arrs, axis=0):
    arrs = [to_sarr(x) for x in arrs]
    return concatenate([expand(x, axis if axis >= 0 else x.ndim + 1 + axis) for x in arrs], axis)


def tile(a, reps):
    a = to_sarr(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = list(reps)
    while len(reps) < a.ndim:
        reps.insert(0, 1)
    while a.ndim < len(reps):
        a = basic_view(a, [None] + [slice(None)] * a.ndim)
    dims = []
    maps = []
    for d, r in zip(a.dims, reps):
        rn = dim_of(r)
        if is_one(rn):
            dims.append(d)
            maps.append(lambda i: i)
        elif is_one(d):
            dims.append(rn)
            maps.append(lambda i: tm.ZERO)
        elif isinstance(d, SDim) and tm.isconst(d.n) and tm.isconst(rn.n):
            dims.append(SDim(tm.mul(d.n, rn.n)))
            maps.append(lambda i, d=d: tm.mod(i, d.n))
        else:
            dims.append(PDim([rn, d]))
            maps.append(lambda i: i[1])
    src, _ = snapshot(a)
    return new(dims, lambda idx: src(tuple(m(i) for m, i in zip(maps, idx))), a.kind)


def repeat(a, reps, axis=None):
    a = to_sarr(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    if isinstance(reps, (SArr, np.ndarray, list)) and to_sarr(reps).ndim > 0:
        raise Unsupported("repeat with array counts")
    d = a.dims[axis]
    rn = dim_of(reps)
    src, _ = snapshot(a)
    if is_one(d):
        nd, mp = rn, (lambda i: tm.ZERO)
    elif isinstance(d, SDim) and tm.isconst(d.n) and tm.isconst(rn.n):
        nd, mp = SDim(tm.mul(d.n, rn.n)), (lambda i: tm.idiv(i, rn.n))
    else:
        nd, mp = PDim([d, rn]), (lambda i: i[0])
    dims = a.dims[:axis] + (nd,) + a.dims[axis + 1 :]
    return new(dims, lambda idx: src(idx[:axis] + (mp(idx[axis]),) + idx[axis + 1 :]), a.kind)


def delete(a, obj, axis=None):
    a = to_sarr(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    axis = axis % a.ndim
    d = a.dims[axis]
    if isinstance(obj, (SArr, np.ndarray, list, tuple)):
        o = to_sarr(obj)
        if o.ndim > 0 and not o.size_is_one():
            if o.kind == "b":
                return getitem(a, tuple([slice(None)] * axis + [ew1(lambda v: mkbool(tm.not_(bterm(v))), o, "b")]))
            raise Unsupported("delete with index array")
        obj = as_num(o.scalar())
    if not isinstance(d, SDim):
        raise Unsupported("delete on structured dim")
    t = resolve_int(obj, d)
    src, _ = snapshot(a)
    nd = SDim(tm.sub(d.n, tm.ONE))

    def f(idx):
        i = idx[axis]
        c = tm.lt(i, t)
        lo = src(idx[:axis] + (i,) + idx[axis + 1 :]) if c is not tm.FALSE else None
        hi = src(idx[:axis] + (tm.add(i, tm.ONE),) + idx[axis + 1 :]) if c is not tm.TRUE else None
        if lo is None:
            return hi
        if hi is None:
            return lo
        return v_ite(c, lo, hi)

    return new(a.dims[:axis] + (nd,) + a.dims[axis + 1 :], f, a.kind)


# ------------------------------------------------------------------ reductions
def axes_of(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        axs = tuple(int(x) for x in axis)
    else:
        axs = (int(axis),)
    for x in axs:
        if not -a.ndim <= x < a.ndim:
            raise np.exceptions.AxisError(x, a.ndim)
    return tuple(x % a.ndim for x in axs)


def reducer(a, axis, keepdims, f, kind):
    """f(dims, elem(idx_red)->value) -> value"""
    a = to_sarr(a)
    axs = axes_of(a, axis)
    red = [a.dims[x] for x in axs]
    keep = [i for i in range(a.ndim) if i not in axs]
    src, _ = snapshot(a)

    def mk(out):
        def elem(r):
            full = [None] * a.ndim
            for x, i in zip(axs, r):
                full[x] = i
            for x, i in zip(keep, out):
                full[x] = i
            return src(tuple(full))

        return f(red, elem)

    if not keep:
        v = mk(())
        if keepdims:
            return new((ONE_D,) * a.ndim, lambda idx: v, kind)
        return unwrap(new((), lambda idx: v, kind))
    if keepdims:
        dims = tuple(ONE_D if i in axs else a.dims[i] for i in range(a.ndim))
        return new(dims, lambda idx: mk(tuple(idx[i] for i in keep)), kind)
    return new(tuple(a.dims[i] for i in keep), mk, kind)


def sum_red(red, elem):
    ks = []

    def body(r):
        v = as_num(elem(r))
        if v.k is not None:
            ks.append(1)
        return v.t

    t = reduce_dims("sum", list(red), body)
    if not ks:
        return Num(t)
    anyk = lambda *vals: reduce_dims(
        "exists", list(red), lambda r: tm.or_(*[tm.eq(core.K(as_num(elem(r))), v) for v in vals])
    )
    nan, pinf, ninf = anyk(core.NAN), anyk(core.PINF), anyk(core.NINF)
    k = tm.ite(tm.or_(nan, tm.and_(pinf, ninf)), core.NAN, tm.ite(pinf, core.PINF, tm.ite(ninf, core.NINF, core.FIN)))
    return Num(t, k)


def np_sum(a, axis=None, keepdims=False):
    a = to_sarr(a)
    if a.ndim == 0:
        return unwrap(a)
    return reducer(a, axis, keepdims, sum_red, "i" if a.kind in "ib" else "f")


def np_mean(a, axis=None, keepdims=False):
    a = to_sarr(a)
    if a.ndim == 0:
        return unwrap(a)

    def f(red, elem):
        n = tm.mul(*[dsize(d) for d in red])
        return core.n_div(sum_red(red, elem), Num(n))

    return reducer(a, axis, keepdims, f, "f")


def np_all(a, axis=None, keepdims=False):
    a = to_sarr(a)
    if a.ndim == 0:
        return mkbool(bterm(a.scalar()))
    return reducer(a, axis, keepdims, lambda red, e: mkbool(reduce_dims("forall", list(red), lambda r: bterm(e(r)))), "b")


def np_any(a, axis=None, keepdims=False):
    a = to_sarr(a)
    if a.ndim == 0:
        return mkbool(bterm(a.scalar()))
    return reducer(a, axis, keepdims, lambda red, e: mkbool(reduce_dims("exists", list(red), lambda r: bterm(e(r)))), "b")


def np_prod(a, axis=None, keepdims=False):
    a = to_sarr(a)

    def f(red, elem):
        if all(isinstance(d, SDim) and tm.isconst(d.n) and tm.cval(d.n) <= 16 for d in red):
            r = as_num(1)
            for idx, _ in generic(red):
                r = core.n_mul(r, as_num(elem(idx)))
            return r
        # prod of positive reals = exp(sum(log))
        for idx, facts in generic(red):
            with scoped(*facts):
                v = as_num(elem(idx))
                core.fin_req(v)
                if not core.pos_known(v.t):
                    raise Unsupported("product over a symbolic dimension of possibly non-positive values")
        return Num(tm.fun("exp", reduce_dims("sum", list(red), lambda r: tm.fun("log", as_num(elem(r)).t))))

    return reducer(a, axis, keepdims, f, a.kind if a.kind != "b" else "i")


def ext_red(red, elem, which):
    """max (which=1) / min (-1) over dims; ValueError on empty"""
    n = tm.mul(*[dsize(d) for d in red])
    if n is tm.ZERO or (not tm.isconst(n) and core.CUR.truth(tm.lt(tm.ZERO, n)) is not True and not core.CUR.scope and core.CUR.decide(tm.eq(n, tm.ZERO))):
        raise ValueError("zero-size array to reduction operation which has no identity")
    pick = core.n_max if which > 0 else core.n_min
    if all(isinstance(d, SDim) and tm.isconst(d.n) and tm.cval(d.n) <= 16 for d in red):
        r = None
        for idx, _ in generic(red):
            v = as_num(elem(idx))
            r = v if r is None else pick(r, v)
        return r
    if all(isinstance(d, SDim) for d in red) and len(red) == 1:
        d = red[0]
        v = tm.fresh("b", "I")
        with scoped(tm.le(tm.ZERO, v), tm.lt(v, d.n)):
            e = as_num(elem((v,)))
        if e.k is None:
            t = tm.bind("maxr", d.n, v, e.t if which > 0 else tm.neg(e.t), "R" if e.t.sort == "R" else "I")
            return Num(t if which > 0 else tm.neg(t))
    # general: fresh value with defining facts
    if core.CUR.scope:
        raise Unsupported("generic max/min")
    mt, mk_ = tm.fresh("ext", "R"), tm.fresh("extk", "I")
    m = Num(mt, mk_)
    kinds_ok = tm.or_(*[tm.eq(mk_, c) for c in (core.FIN, core.PINF, core.NINF, core.NAN)])
    core.CUR.path.add(kinds_ok)
    anynan = reduce_dims("exists", list(red), lambda r: tm.eq(core.K(as_num(elem(r))), core.NAN))
    core.CUR.path.add(tm.eq(tm.eq(mk_, core.NAN), anynan))
    def bound(r):
        e = as_num(elem(r))
        return core.c_le(e, m) if which > 0 else core.c_le(m, e)
    core.CUR.path.add(tm.or_(anynan, tm.and_(
        reduce_dims("forall", list(red), bound),
        reduce_dims("exists", list(red), lambda r: core.c_eq(as_num(elem(r)), m)))))
    return m


def np_max(a, axis=None, keepdims=False):
    a = to_sarr(a)
    if a.ndim == 0:
        return unwrap(a)
    return reducer(a, axis, keepdims, lambda r, e: ext_red(r, e, 1), a.kind)


def np_min(a, axis=None, keepdims=False):
    a = to_sarr(a)
    if a.ndim == 0:
        return unwrap(a)
    return reducer(a, axis, keepdims, lambda r, e: ext_red(r, e, -1), a.kind)


def np_nanmax(a, axis=None):
    a = to_sarr(a)
    if axis is not None or a.ndim == 0:
        raise Unsupported("nanmax axis")
    if core.CUR.scope:
        raise Unsupported("nanmax generic")
    src, _ = snapshot(a)
    dims = list(a.dims)
    if tm.isconst(dsize_all(a)) and tm.cval(dsize_all(a)) == 0:
        raise ValueError("zero-size array")
    elem = lambda r: as_num(src(r))
    isn = lambda r: tm.eq(core.K(elem(r)), core.NAN)
    mt, mk_ = tm.fresh("nmax", "R"), tm.fresh("nmaxk", "I")
    m = Num(mt, mk_)
    allnan = reduce_dims("forall", dims, isn)
    core.CUR.path.add(tm.or_(*[tm.eq(mk_, c) for c in (core.FIN, core.PINF, core.NINF, core.NAN)]))
    core.CUR.path.add(tm.eq(tm.eq(mk_, core.NAN), allnan))
    core.CUR.path.add(tm.or_(allnan, tm.and_(
        reduce_dims("forall", dims, lambda r: tm.or_(isn(r), core.c_le(elem(r), m))),
        reduce_dims("exists", dims, lambda r: core.c_eq(elem(r), m)))))
    return m


def arg_red(red, elem, which):
    n = tm.mul(*[dsize(d) for d in red])
    if len(red) != 1 or not isinstance(red[0], SDim):
        raise Unsupported("arg-reduction over several dims")
    if n is tm.ZERO:
        raise ValueError("attempt to get argmax of an empty sequence")
    d = red[0]
    if not tm.isconst(n) and core.CUR.truth(tm.lt(tm.ZERO, n)) is not True:
        if core.CUR.scope:
            raise Unsupported("generic argmax")
        if core.CUR.decide(tm.eq(n, tm.ZERO)):
            raise ValueError("attempt to get argmax of an empty sequence")
    if core.CUR.scope:
        v = tm.fresh("b", "I")
        with scoped(tm.le(tm.ZERO, v), tm.lt(v, d.n)):
            e = as_num(elem((v,)))
        core.fin_req(e)
        return Num(tm.bind("argmax", d.n, v, e.t if which > 0 else tm.neg(e.t), "I"))
    j = tm.fresh("arg", "I")
    core.CUR.path.add(tm.and_(tm.le(tm.ZERO, j), tm.lt(j, n)))
    ej = as_num(elem((j,)))
    lt = (lambda a, b: core.c_lt(a, b)) if which > 0 else (lambda a, b: core.c_lt(b, a))
    nan = lambda e: tm.eq(core.K(e), core.NAN)

    def f(r):
        e = as_num(elem(r))
        # numpy: first nan wins; otherwise first extremum
        ok_val = tm.and_(tm.not_(nan(e)), tm.not_(lt(ej, e)), tm.implies(tm.lt(r[0], j), lt(e, ej)))
        ok_nan = tm.implies(tm.lt(r[0], j), tm.not_(nan(e)))
        return tm.ite(nan(ej), ok_nan, ok_val)

    core.CUR.path.add(reduce_dims("forall", [d], f))
    return Num(j)


def np_argmax(a, axis=None):
    a = to_sarr(a)
    if axis is None and a.ndim > 1:
        a = ravel(a)
    return reducer(a, axis, False, lambda r, e: arg_red(r, e, 1), "i")


def np_argmin(a, axis=None):
    a = to_sarr(a)
    if axis is None and a.ndim > 1:
        a = ravel(a)
    return reducer(a, axis, False, lambda r, e: arg_red(r, e, -1), "i")


def matmul(a, b):
    a, b = to_sarr(a), to_sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(core.n_mul, a, b)
    da, db = a.dims[-1], b.dims[0] if b.ndim == 1 else b.dims[-2]
    if not same_dim(da, db):
        na, nb = dsize(da), dsize(db)
        if tm.isconst(na) and tm.isconst(nb) or core.CUR.decide(tm.not_(tm.eq(na, nb))):
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("matmul ndim>2")
    sa, _ = snapshot(a)
    sb, _ = snapshot(b)
    dims = a.dims[:-1] + (() if b.ndim == 1 else (b.dims[-1],))

    def f(idx):
        ia = idx[: a.ndim - 1]
        ib = idx[a.ndim - 1 :]
        return sum_red([da], lambda r: core.n_mul(as_num(sa(ia + r)), as_num(sb(r + ib))))

    if not dims:
        return f(())
    return new(dims, f, "f" if "f" in (a.kind, b.kind) else "i")


def np_outer(a, b):
    a, b = ravel(a), ravel(b)
    return ew(core.n_mul, expand(a, 1), expand(b, 0))


def np_diag(a, k=0):
    a = to_sarr(a)
    s, _ = snapshot(a)
    if k:
        raise Unsupported("diag k")
    if a.ndim == 1:
        d = a.dims[0]
        return new((d, d), lambda idx: v_ite(idx_eq(idx[0], idx[1]), s((idx[0],)), as_num(0)), a.kind)
    if not same_dim(a.dims[0], a.dims[1]):
        raise Unsupported("diag of non-square")
    return new((a.dims[0],), lambda idx: s((idx[0], idx[0])), a.kind)


def np_eye(n, m=None, **kw):
    d = dim_of(n)
    return new((d, d if m is None else dim_of(m)), lambda idx: Num(tm.ite(tm.eq(idx[0], idx[1]), tm.ONE, tm.ZERO)), "f")


def np_arange(*a, **kw):
    if len(a) == 1:
        return new((dim_of(a[0]),), lambda idx: Num(idx[0]), "i")
    s, e = as_num(a[0]), as_num(a[1])
    if len(a) > 2:
        raise Unsupported("arange step")
    core.fin_req(s, e)
    n = core.n_sub(e, s)
    return new((dim_of(n),), lambda idx: Num(tm.add(s.t, idx[0])), "i")


def np_linspace(a, b, num=50):
    a, b = as_num(a), as_num(b)
    d = dim_of(num)
    nn = Num(d.n)
    if d.n is tm.ONE:
        return new((d,), lambda idx: a, "f")
    return new((d,), lambda idx: core.n_add(a, core.n_mul(Num(idx[0]), core.n_div(core.n_sub(b, a), core.n_sub(nn, as_num(1))))), "f")


def np_cumsum(a, axis=None):
    a = to_sarr(a)
    if a.ndim != 1 or not isinstance(a.dims[0], SDim):
        raise Unsupported("cumsum")
    s, _ = snapshot(a)

    def f(idx):
        return sum_red([SDim(tm.add(idx[0], tm.ONE))], lambda r: s(r))

    return new(a.dims, f, a.kind)


def np_where1(c):
    c = to_sarr(c)
    if c.ndim == 0:
        c = basic_view(c, [None])
    ci = const_mask_to_idx(c)
    if ci is not None:
        return (from_np(np.array(ci, dtype=int)),)
    c = linearize(c)
    md = mask_dim(c)
    out = []
    for ax in range(c.ndim):
        if not isinstance(c.dims[ax], SDim):
            raise Unsupported("where on structured dim")
        out.append(new((md,), lambda idx, ax=ax: Num(idx[0][ax]), "i"))
    return tuple(out)


def np_argwhere(c):
    cols = np_where1(c)
    return stack(list(cols), 1)


def atleast(a, n):
    a = to_sarr(a)
    if a.ndim >= n:
        return a
    if n == 1:
        return basic_view(a, [None])
    if a.ndim == 0:
        return basic_view(a, [None, None])
    return basic_view(a, [None, slice(None)])


def np_isin(*a):
    raise Unsupported("isin")


def to_concrete(a):
    """SArr with constant entries -> ndarray (or None)"""
    if isinstance(a, Num):
        return a.const()
    if isinstance(a, SBool):
        return None
    if not all_const(a):
        return None
    shp = [int(tm.cval(d.n)) for d in a.dims]
    out = np.empty(shp, dtype={"f": float, "i": int, "b": bool}[a.kind])
    for i in np.ndindex(*shp):
        v = a.at(tuple(tm.const(j) for j in i))
        if isinstance(v, Num):
            v = v.const()
        if v is None or isinstance(v, SBool):
            return None
        out[i] = v
    return out
