"""Hash-consed term language used by the verification-condition generator.

Sorts: 'B' (bool), 'I' (int), 'R' (real).  Binders (sum / forall / exists /
maxr / argmax ...) range over 0 <= b < n and use canonical bound-variable
levels, so alpha-equivalent terms are the same object.
"""
from fractions import Fraction

_table = {}
_counter = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "lvl", "fv", "__weakref__")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


BINDERS = ("sum", "forall", "exists", "maxr", "argmax", "lam")
_empty = frozenset()


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, args, sort
    _counter[0] += 1
    t.id = _counter[0]
    lvl = 0
    fvs = None
    for a in args:
        if type(a) is T:
            if a.lvl > lvl:
                lvl = a.lvl
            if a.fv:
                fvs = a.fv if fvs is None else (fvs if a.fv <= fvs else fvs | a.fv)
    if op in BINDERS:
        # args: (n, level, body)
        lvl = max(lvl, args[1])
        body = args[2]
        b = body.fv - {bvar(args[1])}
        fvs = args[0].fv | b
    if op == "var" or op == "bvar":
        fvs = frozenset((t,))
    t.lvl = lvl
    t.fv = fvs if fvs is not None else _empty
    _table[key] = t
    return t


def bvar(level):
    return mk("bvar", (level,), "I")


def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    f = Fraction(v)
    return mk("const", (f,), "I" if f.denominator == 1 else "R")


def rconst(v):
    return const(v)


TRUE = mk("bconst", (True,), "B")
FALSE = mk("bconst", (False,), "B")
ZERO = const(0)
ONE = const(1)
NEG1 = const(-1)


def var(name, sort):
    return mk("var", (name,), sort)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return var(f"{prefix}!{_fresh[0]}", sort)


def reset_fresh():
    _fresh[0] = 0


SIGNS = {}  # function symbol -> 'pos' | 'nonneg' (declared by the contract)


def app(fname, args, sort):
    return mk("app", (fname,) + tuple(args), sort)


def isconst(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def numsort(*ts):
    for t in ts:
        if t.sort == "R":
            return "R"
    return "I"


def add(*ts):
    c = Fraction(0)
    acc = []
    sort = "I"
    for t in ts:
        if t.sort == "R":
            sort = "R"
        if t.op == "const":
            c += t.args[0]
        elif t.op == "add":
            for a in t.args:
                if a.op == "const":
                    c += a.args[0]
                else:
                    acc.append(a)
        else:
            acc.append(t)
    # collect like terms (by coefficient)
    if len(acc) > 1:
        d = {}
        for a in acc:
            if a.op == "mul" and a.args[0].op == "const":
                k, base = a.args[0].args[0], a.args[1:]
            else:
                k, base = Fraction(1), (a,)
            d[base] = d.get(base, 0) + k
        acc = []
        for base, k in d.items():
            if k == 0:
                continue
            if k == 1:
                acc.append(base[0] if len(base) == 1 else mk("mul", base, numsort(*base)))
            else:
                kc = const(k)
                acc.append(mk("mul", (kc,) + base, numsort(kc, *base)))
    if not acc:
        return const(c)
    if c != 0:
        acc.append(const(c))
    if len(acc) == 1:
        return acc[0]
    acc.sort(key=lambda a: a.id)
    return mk("add", tuple(acc), numsort(*acc))


def mul(*ts):
    c = Fraction(1)
    acc = []
    for t in ts:
        if t.op == "const":
            c *= t.args[0]
        elif t.op == "mul":
            for a in t.args:
                if a.op == "const":
                    c *= a.args[0]
                else:
                    acc.append(a)
        else:
            acc.append(t)
    if c == 0:
        return ZERO
    if not acc:
        return const(c)
    if len(acc) == 1 and c == 1:
        return acc[0]
    if len(acc) == 1 and acc[0].op == "add" and c != 1:
        return add(*[mul(const(c), a) for a in acc[0].args])
    acc.sort(key=lambda a: a.id)
    if c != 1:
        acc.insert(0, const(c))
    return mk("mul", tuple(acc), numsort(*acc))


def neg(t):
    return mul(NEG1, t)


def sub(a, b):
    return add(a, neg(b))


def pow_(t, e):
    e = Fraction(e)
    if e == 1:
        return t
    if e == 0:
        return ONE
    if t.op == "const":
        v = t.args[0]
        if e.denominator == 1 and (v != 0 or e > 0):
            return const(v ** int(e))
        if e.denominator == 2 and v > 0:
            import math

            num, den = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if num * num == v.numerator and den * den == v.denominator:
                return const(Fraction(num, den) ** int(e * 2))
        if v == 1:
            return ONE
        if v == 0 and e > 0:
            return ZERO
    if t.op == "pow" and t.args[1].args[0].denominator == 1 and e.denominator == 1:
        if t.args[1].args[0] > 0 and e > 0:
            return pow_(t.args[0], t.args[1].args[0] * e)
    s = "I" if (t.sort == "I" and e.denominator == 1 and e > 0) else "R"
    return mk("pow", (t, mk("const", (e,), "R")), s)


def inv(t):
    return pow_(t, -1)


def div(a, b):
    if b.op == "const" and b.args[0] != 0:
        r = mul(const(1 / b.args[0]), a)
    else:
        r = mul(a, inv(b))
    return r


def fun(name, t):
    if t.op == "const":
        v = t.args[0]
        if name == "exp" and v == 0:
            return ONE
        if name == "log" and v == 1:
            return ZERO
        if name in ("erf", "sin", "ppf0") and v == 0:
            return ZERO
        if name == "abs":
            return const(abs(v))
        if name == "floor":
            import math

            return const(math.floor(v))
    if name == "floor" and t.sort == "I":
        return t
    return mk("fun", (name, t), "I" if name == "floor" or (name == "abs" and t.sort == "I") else "R")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B" or b.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
        if a is b:
            return a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
        if a is b:
            return a
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    return mk("ite", (c, a, b), numsort(a, b))


def not_(a):
    if a.op == "bconst":
        return FALSE if a.args[0] else TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "forall":
        n, l, body = a.args
        return mk("exists", (n, l, not_(body)), "B")
    if a.op == "exists":
        n, l, body = a.args
        return mk("forall", (n, l, not_(body)), "B")
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    return mk("not", (a,), "B")


def and_(*ts):
    acc = []
    seen = set()
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        for a in t.args if t.op == "and" else (t,):
            if a not in seen:
                if not_lit(a) in seen:
                    return FALSE
                seen.add(a)
                acc.append(a)
    if not acc:
        return TRUE
    if len(acc) == 1:
        return acc[0]
    acc.sort(key=lambda a: a.id)
    return mk("and", tuple(acc), "B")


def not_lit(a):
    if a.op in ("and", "or", "forall", "exists"):
        return None
    return not_(a)


def or_(*ts):
    acc = []
    seen = set()
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        for a in t.args if t.op == "or" else (t,):
            if a not in seen:
                if not_lit(a) in seen:
                    return TRUE
                seen.add(a)
                acc.append(a)
    if not acc:
        return FALSE
    if len(acc) == 1:
        return acc[0]
    acc.sort(key=lambda a: a.id)
    return mk("or", tuple(acc), "B")


def implies(a, b):
    return or_(not_(a), b)


def _cmp(op, a, b):
    """a op b ; canonical for constants"""
    d = sub(a, b)
    if d.op == "const":
        v = d.args[0]
        r = {"le": v <= 0, "lt": v < 0, "eq": v == 0}[op]
        return TRUE if r else FALSE
    return None


def le(a, b):
    r = _cmp("le", a, b)
    if r is not None:
        return r
    for x, y, flip in ((a, b, False), (b, a, True)):
        if x.op == "ite" and y.op == "const" and x.args[1].op == "const" and x.args[2].op == "const":
            f = (lambda p, q: le(q, p)) if flip else le
            return ite(x.args[0], f(x.args[1], y), f(x.args[2], y))
    return mk("le", (a, b), "B")


def lt(a, b):
    r = _cmp("lt", a, b)
    if r is not None:
        return r
    for x, y, flip in ((a, b, False), (b, a, True)):
        if x.op == "ite" and y.op == "const" and x.args[1].op == "const" and x.args[2].op == "const":
            f = (lambda p, q: lt(q, p)) if flip else lt
            return ite(x.args[0], f(x.args[1], y), f(x.args[2], y))
    return mk("lt", (a, b), "B")


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if a.id > b.id:
            a, b = b, a
        return mk("eq", (a, b), "B")
    r = _cmp("eq", a, b)
    if r is not None:
        return r
    # distribute over ite of constants (class tests)
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and y.op == "const":
            p, q = x.args[1], x.args[2]
            if p.op == "const" or q.op == "const":
                return ite(x.args[0], eq(p, y), eq(q, y))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


# ---------------------------------------------------------------- binders
def bind(op, n, v, body, sort):
    """Binder over fresh variable v (a 'var' term of sort I)."""
    if v in body.fv:
        # the range of v is known inside the body
        lo, hi = le(ZERO, v), lt(v, n)
        have = subterms(body)
        if lo in have or not_(lo) in have:
            body = subst_cond(body, lo, True)
        if hi in have or not_(hi) in have:
            body = subst_cond(body, hi, True)
    if op == "sum":
        if body is ZERO:
            return ZERO
        if v not in body.fv:
            return mul(n_nonneg(n), body)
    elif op in ("forall", "exists"):
        if body.op == "bconst":
            if op == "forall":
                return or_(body, le(n, ZERO))
            return and_(body, lt(ZERO, n))
        if v not in body.fv:
            if op == "forall":
                return or_(body, le(n, ZERO))
            return and_(body, lt(ZERO, n))
        # miniscope trivially: push conjuncts for forall / disjuncts for exists
        if op == "forall" and body.op == "and":
            return and_(*[bind(op, n, v, a, sort) for a in body.args])
        if op == "exists" and body.op == "or":
            return or_(*[bind(op, n, v, a, sort) for a in body.args])
        if op == "forall" and body.op == "or":
            dep = [a for a in body.args if v in a.fv]
            ind = [a for a in body.args if v not in a.fv]
            if ind:
                return or_(bind(op, n, v, or_(*dep), sort), *ind)
        if op == "exists" and body.op == "and":
            dep = [a for a in body.args if v in a.fv]
            ind = [a for a in body.args if v not in a.fv]
            if ind:
                return and_(bind(op, n, v, and_(*dep), sort), *ind)
    if isconst(n) and op in ("sum", "forall", "exists") and cval(n) <= 8:
        items = [subst(body, {v: const(i)}) for i in range(int(cval(n)))]
        if op == "sum":
            return add(*items) if items else ZERO
        return and_(*items) if op == "forall" else or_(*items)
    lvl = body.lvl + 1
    b = bvar(lvl)
    return mk(op, (n, lvl, subst(body, {v: b})), sort)


def n_nonneg(n):
    # lengths are non-negative by construction
    return n


def mksum(n, v, body):
    return bind("sum", n, v, body, "R" if body.sort == "R" else "I")


def forall(n, v, body):
    return bind("forall", n, v, body, "B")


def exists(n, v, body):
    return bind("exists", n, v, body, "B")


def open_binder(t, v=None):
    """returns (n, v, body[v])"""
    n, l, body = t.args
    if v is None:
        v = fresh("b", "I")
    return n, v, subst(body, {bvar(l): v})


def subst(t, m, cache=None):
    if cache is None:
        cache = {}
    keys = frozenset(m)

    def go(t):
        if not (t.fv & keys):
            return t
        r = cache.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ("var", "bvar"):
            r = m.get(t, t)
        elif op in BINDERS:
            n, l, body = t.args
            n2 = go(n)
            if not (body.fv - {bvar(l)}) & keys:
                r = t if n2 is n else rebuild_binder(t, n2, None)
            else:
                v = fresh("s", "I")
                b1 = subst(body, {bvar(l): v})
                b2 = subst(b1, m)
                r = bind(op, n2, v, b2, t.sort)
        else:
            r = rebuild(t, [go(a) if type(a) is T else a for a in t.args])
        cache[t] = r
        return r

    return go(t)


def rebuild_binder(t, n2, _):
    n, l, body = t.args
    v = fresh("s", "I")
    return bind(t.op, n2, v, subst(body, {bvar(l): v}), t.sort)


def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return pow_(args[0], args[1].args[0])
    if op == "ite":
        return ite(*args)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "le":
        return le(*args)
    if op == "lt":
        return lt(*args)
    if op == "eq":
        return eq(*args)
    if op == "fun":
        return fun(args[0], args[1])
    if op == "idiv":
        return idiv(*args)
    if op == "mod":
        return mod(*args)
    return mk(op, tuple(args), t.sort)


def idiv(a, b):
    if isconst(a) and isconst(b) and cval(b) != 0:
        return const(cval(a) // cval(b))
    if isconst(b) and cval(b) == 1:
        return a
    return mk("idiv", (a, b), "I")


def mod(a, b):
    if isconst(a) and isconst(b) and cval(b) != 0:
        return const(cval(a) % cval(b))
    return mk("mod", (a, b), "I")


def subterms(t, seen=None):
    """all subterms including under binders"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if type(a) is T:
                stack.append(a)
    return seen


def subst_term(t, old, new, cache=None):
    """replace every occurrence of the (binder-free) term old"""
    if cache is None:
        cache = {}

    def go(x):
        if x is old:
            return new
        if x in cache:
            return cache[x]
        if not any(type(a) is T for a in x.args):
            r = x
        elif x.op in BINDERS:
            n, l, body = x.args
            v = fresh("s", "I")
            b1 = subst(body, {bvar(l): v})
            r = bind(x.op, go(n), v, subst_term(b1, old, new), x.sort)
        else:
            r = rebuild(x, [go(a) if type(a) is T else a for a in x.args])
        cache[x] = r
        return r

    return go(t)


def contains_app(t, names):
    for s in subterms(t):
        if s.op == "app" and s.args[0] in names:
            return True
    return False


def replace_apps(t, fmap, cache=None):
    """replace app terms: fmap[fname](args)->T"""
    if cache is None:
        cache = {}

    def go(t):
        r = cache.get(t)
        if r is not None:
            return r
        op = t.op
        if op == "app":
            args = [go(a) for a in t.args[1:]]
            f = fmap.get(t.args[0])
            r = f(*args) if f is not None else mk("app", (t.args[0],) + tuple(args), t.sort)
        elif op in ("var",) and t.args[0] in fmap:
            r = fmap[t.args[0]]()
        elif op in BINDERS:
            n, l, body = t.args
            v = fresh("s", "I")
            b1 = subst(body, {bvar(l): v})
            b2 = replace_apps(b1, fmap)
            n2 = go(n)
            r = t if (b2 is b1 and n2 is n) else bind(op, n2, v, b2, t.sort)
        elif not any(type(a) is T for a in t.args):
            r = t
        else:
            r = rebuild(t, [go(a) if type(a) is T else a for a in t.args])
        cache[t] = r
        return r

    return go(t)


def show(t, depth=0):
    if depth > 12:
        return "..."
    s = lambda x: show(x, depth + 1) if type(x) is T else str(x)
    op = t.op
    if op in ("const", "bconst", "var"):
        return str(t.args[0])
    if op == "bvar":
        return f"#{t.args[0]}"
    if op == "app":
        return f"{t.args[0]}({', '.join(map(s, t.args[1:]))})"
    if op == "add":
        return "(" + " + ".join(map(s, t.args)) + ")"
    if op == "mul":
        return "*".join(map(s, t.args))
    if op == "pow":
        return f"{s(t.args[0])}^({t.args[1].args[0]})"
    if op == "ite":
        return f"(if {s(t.args[0])} then {s(t.args[1])} else {s(t.args[2])})"
    if op in ("le", "lt", "eq"):
        return f"{s(t.args[0])} {dict(le='<=', lt='<', eq='==')[op]} {s(t.args[1])}"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(map(s, t.args)) + ")"
    if op == "not":
        return f"!({s(t.args[0])})"
    if op in BINDERS:
        return f"{op}[#{t.args[1]}<{s(t.args[0])}]({s(t.args[2])})"
    if op == "fun":
        return f"{t.args[0]}({s(t.args[1])})"
    return f"{op}({', '.join(map(s, t.args))})"


class NoDiff(Exception):
    pass


def diff(t, fname, idx):
    """partial derivative of t with respect to the application fname(idx) (almost everywhere
    at case boundaries of ite)"""
    cache = {}
    pi = var("pi", "R")

    def hit(args):
        return and_(*[eq(a, b) for a, b in zip(args, idx)])

    def go(t):
        r = cache.get(t)
        if r is None:
            r = cache[t] = go_(t)
        return r

    def go_(t):
        op = t.op
        if op in ("const", "var", "bvar", "bconst"):
            return ZERO
        if op == "app":
            if t.args[0] == fname:
                return ite(hit(t.args[1:]), ONE, ZERO)
            for a in t.args[1:]:
                if go(a) is not ZERO:
                    raise NoDiff("index depends on the variable")
            return ZERO
        if op == "add":
            return add(*[go(a) for a in t.args])
        if op == "mul":
            out = []
            for i, a in enumerate(t.args):
                d = go(a)
                if d is not ZERO:
                    out.append(mul(*[d if j == i else b for j, b in enumerate(t.args)]))
            return add(*out) if out else ZERO
        if op == "pow":
            d = go(t.args[0])
            if d is ZERO:
                return ZERO
            e = t.args[1].args[0]
            return mul(const(e), pow_(t.args[0], e - 1), d)
        if op == "fun":
            name, a = t.args
            d = go(a)
            if d is ZERO:
                return ZERO
            if name == "exp":
                return mul(t, d)
            if name == "log":
                return mul(inv(a), d)
            if name == "sin":
                return mul(fun("cos", a), d)
            if name == "cos":
                return neg(mul(fun("sin", a), d))
            if name in ("Phi", "ppf0"):
                y = a if name == "Phi" else t
                pdf = mul(fun("exp", mul(const(Fraction(-1, 2)), pow_(y, 2))), pow_(mul(const(2), pi), Fraction(-1, 2)))
                return mul(pdf, d) if name == "Phi" else mul(inv(pdf), d)
            if name == "abs":
                return mul(ite(lt(a, ZERO), NEG1, ONE), d)
            raise NoDiff(name)
        if op == "ite":
            a, b = go(t.args[1]), go(t.args[2])
            return ite(t.args[0], a, b)
        if op == "sum":
            n, v, body = open_binder(t)
            if go(n) is not ZERO:
                raise NoDiff("sum bound")
            d = go(body)
            return ZERO if d is ZERO else mksum(n, v, d)
        if any(isinstance(a, T) and go(a) is not ZERO for a in t.args):
            raise NoDiff(op)
        return ZERO

    return go(t)


def subst_cond(t, c, val):
    """t with every ite on condition c (or its negation) resolved"""
    cache = {}
    nc = not_(c)

    def go(x):
        if not isinstance(x, T):
            return x
        r = cache.get(x)
        if r is None:
            if x.op == "ite" and x.args[0] is c:
                r = go(x.args[1] if val else x.args[2])
            elif x.op == "ite" and x.args[0] is nc:
                r = go(x.args[2] if val else x.args[1])
            elif x is c:
                r = TRUE if val else FALSE
            elif x is nc:
                r = FALSE if val else TRUE
            elif any(isinstance(a, T) for a in x.args):
                args = tuple(go(a) for a in x.args)
                r = x if all(a is b for a, b in zip(args, x.args)) else rebuild(x, args)
            else:
                r = x
            cache[x] = r
        return r

    return go(t)
