"""Symbolic values, path exploration, obligations."""
import math
import time
from fractions import Fraction

import numpy as np

from . import terms as tm
from . import norm, solve
from .terms import T


class Unsupported(BaseException):
    """construct outside the verifier's reach"""


class PathEnd(BaseException):
    """this path stops here (infeasible, or assumption false)"""


class Budget(BaseException):
    pass


class NeedSplit(BaseException):
    """case analysis requested while evaluating a goal at a generic element"""

    def __init__(self, cond):
        self.cond = cond


class State:
    """Exploration state of one symbolic run (one path)."""

    def __init__(self, decisions, deadline):
        self.path = solve.Path()
        self.prefix = list(decisions)
        self.pos = 0
        self.trail = []  # (choice, other_feasible)
        self.scope = []  # facts about generic index variables
        self.deadline = deadline
        self.scope_cache = {}
        self.records = []
        self.depth = 0
        self.log = []
        self.journal = None
        self.serial0 = SERIAL[0]
        self.splitting = False
        self.in_quick = False
        self._qctx = {}
        self.quick_cache = {}
        self.inst_cache = {}
        self.memo = {}
        self.in_inst = False
        self.binders = []  # variables of the binders being built

    def inst(self):
        """simplified instances of universally quantified facts at the scope's index variables"""
        key = (tuple(self.scope), len(self.path.facts))
        r = self.inst_cache.get(key)
        if r is None:
            if self.in_inst:
                return ()
            self.in_inst = True
            try:
                r = {}
                for f in solve.instances(self.path, self.scope, None):
                    if f.op == "or":
                        rest = []
                        done = False
                        for a in f.args:
                            v = self.lit(a)
                            if v is True:
                                done = True
                                break
                            if v is None:
                                rest.append(a)
                        if done:
                            continue
                        f = tm.or_(*rest)
                    for g in f.args if f.op == "and" else (f,):
                        r[g] = None
                        t, g2 = norm.quick(norm.Ctx(lambda b: self.lit(b)), g)
                        if t is None:
                            for h in g2.args if g2.op == "and" else (g2,):
                                r[h] = None
            finally:
                self.in_inst = False
            self.inst_cache[key] = r
        return r

    def lit(self, b):
        """truth of b from the facts in scope, without the solver"""
        if b.op == "bconst":
            return b.args[0]
        if b in self.path.fset:
            return True
        for s in self.scope:
            if b is s or (s.op == "and" and b in s.args):
                return True
        nb = tm.not_(b)
        if nb in self.path.fset:
            return False
        for s in self.scope:
            if nb is s or (s.op == "and" and nb in s.args):
                return False
        if self.path.foralls and self.scope:
            ins = self.inst()
            if b in ins:
                return True
            if nb in ins:
                return False
            # a <= 0 contradicts / follows from a fact about the same difference
            if b.op == "lt" and tm.le(*b.args) is not b and tm.lt(b.args[1], b.args[0]) in ins:
                return False
            if b.op == "le" and tm.lt(*b.args) in ins:
                return True
            if b.op == "eq" and b.args[0].sort != "B" and (tm.lt(*b.args) in ins or tm.lt(b.args[1], b.args[0]) in ins):
                return False
        if b.op == "not":
            r = self.lit(b.args[0])
            return None if r is None else not r
        if b.op in ("and", "or"):
            un = False
            for a in b.args:
                r = self.lit(a)
                if r is (b.op == "or"):
                    return r
                if r is None:
                    un = True
            return None if un else (b.op == "and")
        return None

    def quick(self, b):
        """sign analysis; (truth|None, equivalent simplified condition)"""
        if self.in_quick:
            return None, b
        key = (b, tuple(self.scope), len(self.path.facts))
        r = self.quick_cache.get(key)
        if r is None:
            self.in_quick = True
            try:
                t, b2 = norm.quick(self.qctx(), b)
            finally:
                self.in_quick = False
            if t is None:
                t = self.lit(b2)
            r = self.quick_cache[key] = (t, b2)
        return r

    def choose(self, b):
        """decide a condition inside an element computation; None: keep both"""
        r = self.lit(b)
        if r is not None:
            return r
        r, b = self.quick(b)
        if r is not None or not self.splitting:
            return r
        if time.time() > self.deadline:
            raise Budget()
        r = self.truth(b)
        if r is not None:
            return r
        for v in self.binders:
            if v in b.fv:
                return None
        if any(v.op == "bvar" for v in b.fv):
            return None
        raise NeedSplit(b)

    def decide(self, b):
        if b.op == "bconst":
            return b.args[0]
        if time.time() > self.deadline:
            raise Budget()
        if self.scope:
            # inside a generic-index context: only definite answers
            r = self.truth(b)
            if r is None:
                raise Unsupported("branch on a generic element: " + tm.show(b)[:200])
            return r
        if b in self.path.fset:
            return True
        nb = tm.not_(b)
        if nb in self.path.fset:
            return False
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.trail.append((c, False))
            self.path.add(b if c else nb)
            return c
        ft = self.path.feasible(b)
        if not ft:
            # implied
            self.prefix.append(False)
            self.pos += 1
            self.trail.append((False, False))
            self.path.add(nb)
            return False
        ff = self.path.feasible(nb)
        self.prefix.append(True)
        self.pos += 1
        self.trail.append((True, ff))
        self.path.add(b)
        if len(self.trail) > 400:
            raise Budget()
        return True

    def qctx(self):
        key = (tuple(self.scope), len(self.path.facts))
        c = self._qctx.get(key)
        if c is None:
            c = self._qctx[key] = norm.Ctx(lambda b: self.lit(b))
        return c

    def truth(self, b):
        if b.op == "bconst":
            return b.args[0]
        if not self.scope:
            return self.path.truth(b)
        key = (b, tuple(self.scope))
        if key in self.scope_cache:
            return self.scope_cache[key]
        r = self.lit(b)
        if r is None:
            r, b = self.quick(b)
        if r is None:
            import z3

            nb = tm.not_(b)
            ex = self.scope + list(self.inst())
            passes = (False, True)
            if solve.is_logic(b):
                passes = () if not solve.has_quant(b) else (False,)
                if self.path.check_logic(ex + [nb]) == z3.unsat:
                    r, passes = True, ()
                elif self.path.check_logic(ex + [b]) == z3.unsat:
                    r, passes = False, ()
            for nra in passes:
                r1 = self.path.check(ex + [nb], 400, ground=True, nra=nra)[0]
                if r1 == z3.unsat:
                    r = True
                    break
                r0 = self.path.check(ex + [b], 400, ground=True, nra=nra)[0]
                if r0 == z3.unsat:
                    r = False
                    break
                if r0 == z3.sat and r1 == z3.sat:
                    break
        self.scope_cache[key] = r
        return r


CUR = None
SERIAL = [0]


def cur():
    if CUR is None:
        raise RuntimeError("no symbolic state")
    return CUR


def set_cur(s):
    global CUR
    CUR = s


def choose(b):
    if b.op == "bconst":
        return b.args[0]
    return CUR.choose(b) if CUR is not None else None


def cite(c, a, b):
    """ite with case analysis; a, b thunks or terms"""
    r = choose(c)
    if r is True:
        return a() if callable(a) else a
    if r is False:
        return b() if callable(b) else b
    return tm.ite(c, a() if callable(a) else a, b() if callable(b) else b)


def cbool(b):
    r = choose(b)
    return b if r is None else (tm.TRUE if r else tm.FALSE)


class scoped:
    def __init__(self, *facts):
        self.facts = [f for f in facts if f is not tm.TRUE]

    def __enter__(self):
        CUR.scope.extend(self.facts)

    def __exit__(self, *a):
        for _ in self.facts:
            CUR.scope.pop()


PI = tm.var("pi", "R")


def frac(x):
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    return Fraction(repr(x))


def term_of_float(x):
    x = float(x)
    if x == math.pi:
        return PI
    if x == -math.pi:
        return tm.neg(PI)
    return tm.const(Fraction(repr(x)))


class SBool:
    __slots__ = ("t",)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().decide(self.t)

    def __and__(self, o):
        if isinstance(o, SArrBase):
            return NotImplemented
        return mkbool(tm.and_(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SArrBase):
            return NotImplemented
        return mkbool(tm.or_(self.t, bterm(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(tm.not_(tm.eq(self.t, bterm(o))))

    def __invert__(self):
        return mkbool(tm.not_(self.t))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return mkbool(tm.eq(self.t, bterm(o)))
        return as_num(self) == o

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return id(self)

    def _n(self):
        return Num(tm.ite(self.t, tm.ONE, tm.ZERO))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._n() < o

    def __gt__(self, o):
        return self._n() > o

    def __le__(self, o):
        return self._n() <= o

    def __ge__(self, o):
        return self._n() >= o

    def __repr__(self):
        return "SBool<" + tm.show(self.t)[:100] + ">"

    def any(self, *a, **k):
        return self

    all = any
    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self


def mkbool(t):
    if t.op == "bconst":
        return t.args[0]
    return SBool(t)


def bterm(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return tm.TRUE if x else tm.FALSE
    if isinstance(x, Num):
        # truthiness
        nz = tm.not_(tm.eq(x.t, tm.ZERO))
        if x.k is not None:
            nz = tm.or_(nz, tm.not_(tm.eq(x.k, tm.ZERO)))
        return nz
    if isinstance(x, (int, float, np.number)):
        return tm.TRUE if x else tm.FALSE
    if isinstance(x, SArrBase) and x.ndim == 0:
        return bterm(x.scalar())
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return bterm(x.item())
    raise Unsupported(f"bool of {type(x)}")


class SArrBase:
    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 2000


FIN, PINF, NINF, NAN = tm.ZERO, tm.ONE, tm.NEG1, tm.const(2)


def cleank(k):
    if k is None or k is FIN:
        return None
    return k


class Num:
    """extended real / integer scalar: finite part t, class k (None = finite)"""

    __slots__ = ("t", "k")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t, k=None):
        self.t = t
        self.k = cleank(k)

    # ---- python protocol
    def __bool__(self):
        return cur().decide(bterm(self))

    def const(self):
        """python number if constant else None"""
        if self.k is not None:
            if self.k.op == "const":
                v = self.k.args[0]
                return {1: math.inf, -1: -math.inf, 2: math.nan}.get(int(v))
            return None
        if self.t.op == "const":
            v = self.t.args[0]
            return int(v) if v.denominator == 1 and self.t.sort == "I" else float(v)
        return None

    def __index__(self):
        c = self.const()
        if isinstance(c, int):
            return c
        v = pin_int(self)
        if v is not None:
            return v
        raise Unsupported("symbolic integer used where a concrete one is needed: " + tm.show(self.t)[:120])

    def __int__(self):
        return self.__index__()

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported("float() of symbolic value")

    def __repr__(self):
        return "Num<" + tm.show(self.t)[:120] + ("" if self.k is None else " k=" + tm.show(self.k)[:60]) + ">"

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return hash(self.t.id)

    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def ravel(self):
        from .arr import from_nested

        return from_nested([self])

    flatten = ravel

    def astype(self, t, **k):
        if t in (int, np.int64):
            return num_int(self)
        return self

    def squeeze(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    max = min = mean = sum

    def all(self, *a, **k):
        return mkbool(bterm(self))

    any = all

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return np.dtype(float) if self.t.sort == "R" or self.k is not None else np.dtype(int)

    def __getitem__(self, key):
        if key == () or key is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    # ---- arithmetic
    def __add__(self, o):
        return binop(n_add, self, o)

    def __radd__(self, o):
        return binop(n_add, o, self)

    def __sub__(self, o):
        return binop(n_sub, self, o)

    def __rsub__(self, o):
        return binop(n_sub, o, self)

    def __mul__(self, o):
        return binop(n_mul, self, o)

    def __rmul__(self, o):
        return binop(n_mul, o, self)

    def __truediv__(self, o):
        return binop(n_div, self, o)

    def __rtruediv__(self, o):
        return binop(n_div, o, self)

    def __floordiv__(self, o):
        return binop(n_floordiv, self, o)

    def __rfloordiv__(self, o):
        return binop(n_floordiv, o, self)

    def __mod__(self, o):
        return binop(n_mod, self, o)

    def __rmod__(self, o):
        return binop(n_mod, o, self)

    def __pow__(self, o):
        return binop(n_pow, self, o)

    def __rpow__(self, o):
        return binop(n_pow, o, self)

    def __neg__(self):
        return n_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return n_abs(self)

    def __round__(self, nd=None):
        if nd:
            raise Unsupported("round")
        return n_round(self)

    def __ceil__(self):
        return n_ceil(self)

    def __floor__(self):
        return n_floor(self)

    def __lt__(self, o):
        return binop(lambda a, b: mkbool(c_lt(a, b)), self, o)

    def __le__(self, o):
        return binop(lambda a, b: mkbool(c_le(a, b)), self, o)

    def __gt__(self, o):
        return binop(lambda a, b: mkbool(c_lt(b, a)), self, o)

    def __ge__(self, o):
        return binop(lambda a, b: mkbool(c_le(b, a)), self, o)

    def __eq__(self, o):
        return binop(lambda a, b: mkbool(c_eq(a, b)), self, o, eq=True)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, bool):
            return not r
        return ~r


def pin_int(n):
    """if the path condition determines the integer, return it"""
    if CUR is None or n.k is not None:
        return None
    import z3

    r, m = CUR.path.check(list(CUR.scope), 1000)
    if r == z3.sat and m is not None:
        v = m.eval(solve.tr(n.t), model_completion=True)
        if z3.is_int_value(v):
            c = v.as_long()
            if CUR.truth(tm.eq(n.t, tm.const(c))) is True:
                return c
    return None


def is_sym(x):
    return isinstance(x, (Num, SBool, SArrBase))


def as_num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, SBool):
        return x._n()
    if isinstance(x, (bool, np.bool_)):
        return Num(tm.ONE if x else tm.ZERO)
    if isinstance(x, (int, np.integer)):
        return Num(tm.const(int(x)))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return Num(tm.ZERO, NAN)
        if math.isinf(x):
            return Num(tm.ZERO, PINF if x > 0 else NINF)
        return Num(term_of_float(x))
    if isinstance(x, SArrBase) and x.size_is_one():
        return x.scalar()
    if isinstance(x, np.ndarray) and x.size == 1:
        return as_num(x.item())
    if isinstance(x, Fraction):
        return Num(tm.const(x))
    raise Unsupported(f"number expected, got {type(x)}")


def binop(f, a, b, eq=False):
    for x in (a, b):
        if isinstance(x, (SArrBase, np.ndarray)):
            if isinstance(x, SArrBase) or x.ndim > 0:
                from .arr import ew

                return ew(f, a, b)
    try:
        return f(as_num(a), as_num(b))
    except Unsupported:
        if eq:
            return False
        if not isinstance(a, (Num, SBool, int, float, np.number, np.ndarray)) or not isinstance(
            b, (Num, SBool, int, float, np.number, np.ndarray)
        ):
            return NotImplemented
        raise


def K(n):
    return FIN if n.k is None else n.k


def eqk(k, v):
    return tm.eq(k, v)


def n_add(a, b):
    if a.k is None and b.k is None:
        return Num(tm.add(a.t, b.t))
    ka, kb = K(a), K(b)
    k = cite(eqk(ka, FIN), kb, lambda: cite(eqk(kb, FIN), ka, lambda: cite(tm.eq(ka, kb), ka, NAN)))
    return Num(tm.add(a.t, b.t), k)


def n_neg(a):
    return Num(tm.neg(a.t), None if a.k is None else tm.ite(eqk(a.k, NAN), NAN, kneg(a.k)))


def kneg(k):
    if k.op == "const":
        v = k.args[0]
        return NAN if v == 2 else tm.const(-v)
    if k.op == "ite":
        return tm.ite(k.args[0], kneg(k.args[1]), kneg(k.args[2]))
    return tm.neg(k)


def n_sub(a, b):
    if a.k is None and b.k is None:
        return Num(tm.sub(a.t, b.t))
    return n_add(a, n_neg(b))


def sgn(n):
    """sign term of an extended number that is not nan: -1,0,1"""
    def fs():
        return cite(tm.lt(tm.ZERO, n.t), tm.ONE, lambda: cite(tm.lt(n.t, tm.ZERO), tm.NEG1, tm.ZERO))

    if n.k is None:
        return fs()
    return cite(eqk(n.k, FIN), fs, n.k)


def n_mul(a, b):
    if a.k is None and b.k is None:
        return Num(tm.mul(a.t, b.t))
    ka, kb = K(a), K(b)

    def inf():
        sa, sb = sgn(a), sgn(b)
        return cite(
            tm.or_(tm.eq(sa, tm.ZERO), tm.eq(sb, tm.ZERO)),
            NAN,
            lambda: cite(tm.eq(sa, sb), PINF, NINF),
        )

    k = cite(
        tm.and_(eqk(ka, FIN), eqk(kb, FIN)),
        FIN,
        lambda: cite(tm.or_(eqk(ka, NAN), eqk(kb, NAN)), NAN, inf),
    )
    return Num(tm.mul(a.t, b.t), k)


def nonzero_known(t):
    if t.op == "const":
        return t.args[0] != 0
    if norm.syn_pos(t):
        return True
    if CUR is None:
        return False
    return CUR.truth(tm.eq(t, tm.ZERO)) is False


def pos_known(t):
    if norm.syn_pos(t):
        return True
    if t.op == "const":
        return False
    if CUR is None:
        return False
    return CUR.truth(tm.lt(tm.ZERO, t)) is True


def n_div(a, b):
    if b.k is None:
        if nonzero_known(b.t):
            if a.k is None:
                return Num(tm.div(a.t, b.t))
            return n_mul(a, Num(tm.inv(b.t)))
        k0 = tm.eq(b.t, tm.ZERO)

        def kz():
            sa = sgn(a)
            return cite(tm.eq(sa, tm.ZERO), NAN, sa)

        if a.k is None:
            return Num(tm.div(a.t, b.t) if b.t is not tm.ZERO else tm.ZERO, cite(k0, kz, FIN))
        m = n_mul(a, Num(tm.inv(b.t) if b.t is not tm.ZERO else tm.ZERO))
        return Num(m.t, cite(eqk(a.k, NAN), NAN, lambda: cite(k0, kz, K(m))))
    # b possibly infinite
    isf = cbool(eqk(b.k, FIN))
    if isf is tm.FALSE:
        return Num(tm.ZERO, cite(tm.or_(eqk(b.k, NAN), tm.not_(eqk(K(a), FIN))), NAN, FIN))
    fin = n_div(a, Num(b.t))
    k = cite(
        isf,
        K(fin),
        lambda: cite(tm.or_(eqk(b.k, NAN), tm.not_(eqk(K(a), FIN))), NAN, FIN),
    )
    t = tm.ite(isf, fin.t, tm.ZERO)
    return Num(t, k)


def fin_req(*xs):
    for x in xs:
        if x.k is not None:
            if CUR is not None and CUR.truth(tm.eq(x.k, FIN)) is True:
                x.k = None
                continue
            raise Unsupported("operation on a possibly non-finite value")


def n_floordiv(a, b):
    fin_req(a, b)
    if a.t.sort == "I" and b.t.sort == "I":
        if pos_known(b.t):
            return Num(tm.idiv(a.t, b.t))
    q = n_div(a, b)
    fin_req(q)
    return Num(tm.fun("floor", q.t))


def n_mod(a, b):
    fin_req(a, b)
    if a.t.sort == "I" and b.t.sort == "I" and pos_known(b.t):
        return Num(tm.mod(a.t, b.t))
    q = n_floordiv(a, b)
    return n_sub(a, n_mul(q, b))


def n_pow(a, b):
    fin_req(b)
    if b.t.op != "const":
        if a.k is None and pos_known(a.t):
            return n_exp(n_mul(b, n_log(a)))
        raise Unsupported("power with symbolic exponent")
    e = b.t.args[0]
    if e.denominator == 1 and e >= 0:
        e = int(e)
        if a.k is None:
            return Num(tm.pow_(a.t, e)) if e else Num(tm.ONE)
        r = as_num(1)
        for _ in range(e):
            r = n_mul(r, a)
        return r
    if e.denominator == 1:
        return n_div(as_num(1), n_pow(a, as_num(int(-e))))
    if e.denominator == 2:
        s = n_sqrt(a)
        return n_pow(s, as_num(int(e * 2)))
    if a.k is None and pos_known(a.t):
        return Num(tm.pow_(a.t, e))
    raise Unsupported("fractional power")


def n_abs(a):
    k = None if a.k is None else cite(eqk(a.k, NINF), PINF, a.k)
    if norm.syn_pos(a.t) or (a.k is None and pos_known(a.t)):
        return Num(a.t, k)
    return Num(tm.fun("abs", a.t), k)


def n_exp(a):
    t = tm.fun("exp", a.t)
    if a.k is None:
        return Num(t)
    ni = cbool(eqk(a.k, NINF))
    return Num(tm.ite(ni, tm.ZERO, t), tm.ite(ni, FIN, a.k))


def n_log(a):
    t = tm.fun("log", a.t)
    if a.k is None and pos_known(a.t):
        return Num(t)

    def kf():
        return cite(tm.lt(tm.ZERO, a.t), FIN, lambda: cite(tm.eq(a.t, tm.ZERO), NINF, NAN))

    if a.k is None:
        return Num(t, kf())
    return Num(t, cite(eqk(a.k, FIN), kf, lambda: cite(eqk(a.k, PINF), PINF, NAN)))


def n_log1p(a):
    return n_log(n_add(as_num(1), a))


def n_sqrt(a):
    t = tm.pow_(a.t, Fraction(1, 2))
    if a.k is None and (solve.nonneg_syn(a.t) or pos_known(a.t) or (CUR and CUR.truth(tm.le(tm.ZERO, a.t)) is True)):
        return Num(t)
    kf = lambda: cite(tm.le(tm.ZERO, a.t), FIN, NAN)
    if a.k is None:
        return Num(t, kf())
    return Num(t, cite(eqk(a.k, FIN), kf, lambda: cite(eqk(a.k, PINF), PINF, NAN)))


def n_floor(a):
    fin_req(a)
    return Num(tm.fun("floor", a.t))


def n_ceil(a):
    fin_req(a)
    return Num(tm.neg(tm.fun("floor", tm.neg(a.t)))) if a.t.sort != "I" else a


def n_round(a):
    fin_req(a)
    if a.t.sort == "I":
        return a
    # round half to even
    f = tm.fun("floor", tm.add(a.t, tm.const(Fraction(1, 2))))
    tie = tm.and_(tm.eq(f, tm.add(a.t, tm.const(Fraction(1, 2)))), tm.eq(tm.mod(f, tm.const(2)), tm.ONE))
    return Num(tm.ite(tie, tm.sub(f, tm.ONE), f))


def num_int(a):
    """int(): truncation"""
    fin_req(a)
    if a.t.sort == "I":
        return a
    f = tm.fun("floor", a.t)
    c = tm.neg(tm.fun("floor", tm.neg(a.t)))
    return Num(tm.ite(tm.le(tm.ZERO, a.t), f, c))


def n_sign(a):
    if a.k is None:
        return Num(sgn(a))
    return Num(sgn(a), tm.ite(eqk(a.k, NAN), NAN, FIN))


def n_phi(a):
    """standard normal cdf"""
    t = tm.fun("Phi", a.t) if a.t is not tm.ZERO else tm.const(Fraction(1, 2))
    if a.k is None:
        return Num(t)
    t = cite(eqk(a.k, FIN), t, lambda: cite(eqk(a.k, PINF), tm.ONE, tm.ZERO))
    return Num(t, cite(eqk(a.k, NAN), NAN, FIN))


def n_ppf(a):
    """standard normal quantile"""
    t = tm.fun("ppf0", a.t)
    dom = tm.and_(tm.lt(tm.ZERO, a.t), tm.lt(a.t, tm.ONE))
    if a.k is None and CUR is not None and CUR.truth(dom) is True:
        return Num(t)
    kf = lambda: cite(dom, FIN, lambda: cite(tm.eq(a.t, tm.ZERO), NINF, lambda: cite(tm.eq(a.t, tm.ONE), PINF, NAN)))
    if a.k is None:
        return Num(t, kf())
    return Num(t, cite(eqk(a.k, FIN), kf, NAN))


def n_erfc(a):
    # erfc(x) = 2*Phi(-sqrt(2) x)
    return n_mul(as_num(2), n_phi(n_neg(n_mul(Num(tm.pow_(tm.const(2), Fraction(1, 2))), a))))


def n_erf(a):
    return n_sub(as_num(1), n_erfc(a))


def n_erfcinv(a):
    r = n_ppf(n_div(a, as_num(2)))
    return n_neg(n_div(r, Num(tm.pow_(tm.const(2), Fraction(1, 2)))))


def n_erfinv(a):
    return n_erfcinv(n_sub(as_num(1), a))


def n_fun(name):
    def f(a):
        fin_req(a)
        return Num(tm.fun(name, a.t))

    return f


def n_arccos(a):
    dom = tm.and_(tm.le(tm.NEG1, a.t), tm.le(a.t, tm.ONE))
    t = tm.fun("arccos", a.t)
    if a.k is None and CUR.truth(dom) is True:
        return Num(t)
    k = cite(tm.and_(dom, eqk(K(a), FIN)), FIN, NAN)
    return Num(t, k)


def c_lt(a, b):
    if a.k is None and b.k is None:
        return tm.lt(a.t, b.t)
    ka, kb = K(a), K(b)
    return tm.and_(
        tm.not_(eqk(ka, NAN)),
        tm.not_(eqk(kb, NAN)),
        tm.or_(klt(ka, kb), tm.and_(eqk(ka, FIN), eqk(kb, FIN), tm.lt(a.t, b.t))),
    )


def klt(ka, kb):
    # classes -1 < 0 < 1 (nan excluded by the caller)
    if ka.op == "const":
        v = ka.args[0]
        if v == -1:
            return tm.or_(eqk(kb, FIN), eqk(kb, PINF))
        if v == 0:
            return eqk(kb, PINF)
        return tm.FALSE
    if kb.op == "const":
        v = kb.args[0]
        if v == 1:
            return tm.or_(eqk(ka, FIN), eqk(ka, NINF))
        if v == 0:
            return eqk(ka, NINF)
        return tm.FALSE
    return tm.or_(
        tm.and_(eqk(ka, NINF), tm.or_(eqk(kb, FIN), eqk(kb, PINF))),
        tm.and_(eqk(ka, FIN), eqk(kb, PINF)),
    )


def c_eq(a, b):
    if a.k is None and b.k is None:
        return tm.eq(a.t, b.t)
    ka, kb = K(a), K(b)
    return tm.and_(
        tm.not_(eqk(ka, NAN)),
        tm.eq(ka, kb),
        tm.or_(tm.not_(eqk(ka, FIN)), tm.eq(a.t, b.t)),
    )


def c_same(a, b):
    """identity on extended values: nan == nan"""
    if a.k is None and b.k is None:
        return tm.eq(a.t, b.t)
    ka, kb = K(a), K(b)
    return tm.and_(tm.eq(ka, kb), tm.or_(tm.not_(eqk(ka, FIN)), tm.eq(a.t, b.t)))


def c_le(a, b):
    if a.k is None and b.k is None:
        return tm.le(a.t, b.t)
    ka, kb = K(a), K(b)
    return tm.and_(
        tm.not_(eqk(ka, NAN)),
        tm.not_(eqk(kb, NAN)),
        tm.or_(
            klt(ka, kb),
            tm.and_(eqk(ka, FIN), eqk(kb, FIN), tm.le(a.t, b.t)),
            tm.and_(tm.eq(ka, kb), tm.not_(eqk(ka, FIN))),
        ),
    )


def n_isnan(a):
    return mkbool(tm.FALSE if a.k is None else eqk(a.k, NAN))


def n_isinf(a):
    return mkbool(tm.FALSE if a.k is None else tm.or_(eqk(a.k, PINF), eqk(a.k, NINF)))


def n_isfinite(a):
    return mkbool(tm.TRUE if a.k is None else eqk(a.k, FIN))


def n_ite(c, a, b):
    """c: B term; a,b Num"""
    r = choose(c)
    if r is not None:
        return a if r else b
    k = None
    if a.k is not None or b.k is not None:
        k = tm.ite(c, K(a), K(b))
    return Num(tm.ite(c, a.t, b.t), k)


def v_ite(c, a, b):
    r = choose(c)
    if r is not None:
        return a if r else b
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return mkbool(tm.or_(tm.and_(c, bterm(a)), tm.and_(tm.not_(c), bterm(b))))
    return n_ite(c, as_num(a), as_num(b))


def n_max(a, b):
    """np.maximum: nan propagates"""
    if a.k is None and b.k is None:
        return Num(cite(tm.le(a.t, b.t), b.t, a.t))
    r = n_ite(c_le(a, b), b, a)
    nn = tm.or_(eqk(K(a), NAN), eqk(K(b), NAN))
    return Num(r.t, cite(nn, NAN, K(r)))


def n_min(a, b):
    if a.k is None and b.k is None:
        return Num(cite(tm.le(a.t, b.t), a.t, b.t))
    r = n_ite(c_le(a, b), a, b)
    nn = tm.or_(eqk(K(a), NAN), eqk(K(b), NAN))
    return Num(r.t, cite(nn, NAN, K(r)))


def n_nextafter(a, b):
    """real-arithmetic contract: strictly towards b by one (positive) ulp"""
    up = cbool(c_lt(a, b))
    dn = cbool(c_lt(b, a))
    t = tm.ite(up, tm.add(a.t, tm.fun("ulp_up", a.t)), tm.ite(dn, tm.sub(a.t, tm.fun("ulp_dn", a.t)), a.t))
    # nextafter(-inf, +inf) is the most negative finite float: keep as infinite class
    # towards the interior (representable bound), see DESIGN: only +-realmax
    k = None
    if a.k is not None:
        f = cbool(eqk(a.k, FIN))
        t = cite(f, t, lambda: cite(eqk(a.k, NINF), tm.neg(REALMAX), REALMAX))
        k = cite(f, FIN, lambda: cite(tm.or_(up, dn), FIN, a.k))
    return Num(t, k)


REALMAX = tm.const(int(np.finfo(np.float64).max))
