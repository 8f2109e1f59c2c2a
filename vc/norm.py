"""Ring normaliser with indicators, exponentials, sums (the algebraic back end).

A polynomial is a dict  mono -> Fraction,  mono = (powers, expo, inds) with
 powers : tuple of (atom T, Fraction exponent) sorted by atom id
 expo   : tuple of (mono, Fraction) sorted  -- the argument of one exp factor
 inds   : frozenset of indicator conditions (B terms)

`Ctx` carries an oracle deciding sign/truth facts about terms under the path
condition; every non-trivial algebraic step that needs a side condition
(x != 0, x > 0) asks the oracle and is not taken when it says no.
"""
from fractions import Fraction
from itertools import permutations

from . import terms as tm
from .terms import T

ONEM = ((), (), frozenset())


class Ctx:
    """Default oracle: purely syntactic"""

    def __init__(self, oracle=None):
        self.oracle = oracle
        self.cache = {}
        self.pos_cache = {}

    def truth(self, b):
        """None / True / False"""
        if b.op == "bconst":
            return b.args[0]
        if self.oracle is None:
            return None
        return self.oracle(b)

    def pos(self, t):
        """is t > 0 known"""
        r = self.pos_cache.get(t)
        if r is None:
            r = self._pos(t)
            self.pos_cache[t] = r
        return r

    def _pos(self, t):
        if syn_pos(t):
            return True
        return self.truth(tm.lt(tm.ZERO, t)) is True

    def nonzero(self, t):
        if self.pos(t):
            return True
        return self.truth(tm.not_(tm.eq(t, tm.ZERO))) is True


def syn_pos(t):
    if t.op == "const":
        return t.args[0] > 0
    if t.op == "fun":
        return t.args[0] == "exp"
    if t.op == "app":
        return tm.SIGNS.get(t.args[0]) == "pos"
    if t.op == "ite":
        return syn_pos(t.args[1]) and syn_pos(t.args[2])
    if t.op == "sum" and False:
        return False
    if t.op == "mul":
        return all(syn_pos(a) for a in t.args)
    if t.op == "add":
        from .solve import nonneg_syn

        return any(syn_pos(a) for a in t.args) and all(nonneg_syn(a) for a in t.args)
    if t.op == "pow":
        return syn_pos(t.args[0])
    return False


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def pconst(c):
    return {ONEM: Fraction(c)} if c else {}


def _merge_expo(e1, e2):
    if not e1:
        return e2
    if not e2:
        return e1
    d = dict(e1)
    for m, c in e2:
        v = d.get(m, 0) + c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    return tuple(sorted(d.items(), key=_mkey))


def _mkey(mc):
    m = mc[0]
    return mono_key(m)


def mono_key(m):
    return (
        tuple((a.id, e) for a, e in m[0]),
        tuple((mono_key(x), c) for x, c in m[1]),
        tuple(sorted(b.id for b in m[2])),
    )


class Blowup(Exception):
    pass


LIMIT = 6000


def mmul(ctx, m1, m2):
    """returns poly"""
    p1, e1, i1 = m1
    p2, e2, i2 = m2
    if p1 and p2:
        d = dict(p1)
        for a, e in p2:
            old = d.get(a)
            if old is None:
                d[a] = e
            else:
                v = old + e
                if (old < 0) != (e < 0) or old.denominator != 1 or e.denominator != 1:
                    # x^a * x^b with mixed signs needs x != 0 ; fractional needs x >= 0
                    if not ctx.nonzero(a):
                        a2 = tm.pow_(a, e)  # keep separate
                        d[a2] = d.get(a2, 0) + 1
                        continue
                if v == 0:
                    del d[a]
                else:
                    d[a] = v
        pw = tuple(sorted(d.items(), key=lambda ae: ae[0].id))
    else:
        pw = p1 or p2
    k0 = Fraction(1)
    if p1 and p2:
        for a, e in pw:
            if a.op == "const" and not 0 < e < 1 and a.args[0] > 0:
                f = e.__floor__()
                k0 *= a.args[0] ** f
                d[a] = e - f
                if d[a] == 0:
                    del d[a]
        if k0 != 1:
            pw = tuple(sorted(d.items(), key=lambda ae: ae[0].id))
    ex = _merge_expo(e1, e2)
    if i1 and i2:
        ii = i1 | i2
        for b in ii:
            if tm.not_(b) in ii:
                return {}
    else:
        ii = i1 or i2
    # an atom that is itself an expandable polynomial raised to positive power
    res = {(pw, ex, ii): k0}
    for a, e in pw:
        if a.op in ("add",) and e > 0 and e.denominator == 1:
            # expand
            rest = tuple(x for x in pw if x[0] is not a)
            base = poly(ctx, a)
            r = {(rest, ex, ii): k0}
            for _ in range(int(e)):
                r = pmul(ctx, r, base)
            return r
    return res


def pmul(ctx, p, q):
    r = {}
    if len(p) * len(q) > LIMIT:
        raise Blowup()
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            for m, c in mmul(ctx, m1, m2).items():
                v = r.get(m, 0) + c * c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
    return r


def atom(t, e=1):
    return {(((t, Fraction(e)),), (), frozenset()): Fraction(1)}


def ind(ctx, b):
    """indicator polynomial of a boolean term"""
    tv = ctx.truth(b) if b.op == "bconst" or not any(v.op == "bvar" for v in b.fv) else None
    if tv is True:
        return pconst(1)
    if tv is False:
        return {}
    if b.op == "not":
        return padd(pconst(1), ind(ctx, b.args[0]), -1)
    if b.op == "and":
        r = pconst(1)
        for a in b.args:
            r = pmul(ctx, r, ind(ctx, a))
        return r
    if b.op == "or":
        r = pconst(1)
        for a in b.args:
            r = pmul(ctx, r, padd(pconst(1), ind(ctx, a), -1))
        return padd(pconst(1), r, -1)
    if b.op == "le":  # a <= b  ==  1 - [b < a]
        return padd(pconst(1), ind(ctx, tm.lt(b.args[1], b.args[0])), -1)
    if b.op == "exists":
        return padd(pconst(1), ind(ctx, tm.not_(b)), -1)
    if b.op in ("lt", "eq") and b.args[0].sort != "B":
        # canonical difference
        d = poly(ctx, tm.sub(b.args[0], b.args[1]))
        if not d:
            return pconst(1) if b.op == "eq" else {}
        lead = min(d.items(), key=lambda mc: mono_key(mc[0]))[1]
        if b.op == "eq":
            d = pscale(d, 1 / lead)
            b = tm.eq(to_term(d), tm.ZERO)
        else:
            d = pscale(d, 1 / abs(lead))
            b = tm.lt(to_term(d), tm.ZERO)
        if b.op == "bconst":
            return pconst(1) if b.args[0] else {}
        if b.op not in ("lt", "eq"):
            return {((), (), frozenset((b,))): Fraction(1)}
    return {((), (), frozenset((b,))): Fraction(1)}


def poly(ctx, t):
    r = ctx.cache.get(t)
    if r is None:
        r = _poly(ctx, t)
        ctx.cache[t] = r
    return r


def split_mono_content(ctx, p):
    """p (>=2 monomials) -> (coef, common mono powers, residual poly)"""
    items = list(p.items())
    common = None
    for m, c in items:
        d = dict(m[0])
        if common is None:
            common = d
        else:
            common = {
                a: min(e, d[a]) if e > 0 else max(e, d[a])
                for a, e in common.items()
                if a in d and (d[a] > 0) == (e > 0)
            }
    ie = None
    for m, c in items:
        ie = m[2] if ie is None else ie & m[2]
    ex = items[0][0][1]
    exs = all(m[1] == ex for m, _ in items)
    return common, ie, ex if exs else ()


def common_den(ctx, p, need_pos=False):
    """p == num / den with den a product of (nonzero / positive) sum atoms; None if no denominators"""
    den = {}
    for m in p:
        for a, e in m[0]:
            if e < 0 and e.denominator == 1 and a.op == "add" and (ctx.pos(a) if need_pos else ctx.nonzero(a)):
                den[a] = min(den.get(a, 0), e)
    if not den:
        return None
    num = p
    for a, e in sorted(den.items(), key=lambda ae: ae[0].id):
        num = mul_den(ctx, num, a, int(-e))
    d = {(tuple(sorted(((a, -e) for a, e in den.items()), key=lambda ae: ae[0].id)), (), frozenset()): Fraction(1)}
    return num, d


def mul_den(ctx, p, a, k):
    pa = poly(ctx, a)
    r = {}
    for m, c in p.items():
        d = dict(m[0])
        x = d.pop(a, Fraction(0)) + k
        mm = (tuple(sorted(d.items(), key=lambda ae: ae[0].id)), m[1], m[2])
        q = {mm: c}
        if x.denominator == 1 and x >= 0:
            for _ in range(int(x)):
                q = pmul(ctx, q, pa)
        else:
            q = pmul(ctx, q, {(((a, x),), (), frozenset()): Fraction(1)})
        r = padd(r, q)
    return r


def const_pow(c, e):
    """positive rational c ** e  ->  (rational factor, ((prime, exponent in (0,1)), ...))"""
    ct = tm.pow_(tm.const(c), e)
    if ct.op == "const":
        return ct.args[0], ()
    k, ex = Fraction(1), {}
    for v, s in ((c.numerator, 1), (c.denominator, -1)):
        if v > 10 ** 7:
            return Fraction(1), ((tm.const(c), e),)
        d = 2
        while v > 1:
            while v % d == 0:
                v //= d
                ex[d] = ex.get(d, 0) + s
            d += 1
            if d * d > v > 1:
                ex[v] = ex.get(v, 0) + s
                break
    out = []
    for q, n in ex.items():
        x = n * e
        f = x.__floor__()
        k *= Fraction(q) ** f
        if x - f:
            out.append((tm.const(q), x - f))
    return k, tuple(out)


def const_lead(p):
    """constant part (coefficient and powers of rational constants) of the leading monomial"""
    best = None
    for m, c in p.items():
        k = (mono_key((tuple((a, e) for a, e in m[0] if a.op != "const"), m[1], m[2])), mono_key(m))
        if best is None or k < best[0]:
            best = (k, m, c)
    _, m, c = best
    return c, tuple((a, e) for a, e in m[0] if a.op == "const")


def ppow(ctx, p, e):
    """p ** e (Fraction)"""
    if len(p) > 1 and (e < 0 or e.denominator != 1):
        cd = common_den(ctx, p, e.denominator != 1)
        if cd is not None:
            num, den = cd
            return pmul(ctx, ppow(ctx, num, e), ppow(ctx, den, -e))
    if e.denominator == 1 and e >= 0:
        r = pconst(1)
        for _ in range(int(e)):
            r = pmul(ctx, r, p)
        return r
    if not p:
        return atom(tm.ZERO, e) if e < 0 else {}
    if len(p) == 1:
        (m, c), = p.items()
        pw, ex, ii = m
        if not ii:
            ok = True
            if e.denominator != 1:
                if c < 0:
                    ok = False
                for a, x in pw:
                    if not ctx.pos(a):
                        ok = False
            if ok:
                cpart = Fraction(1)
                extra = ()
                if c != 1:
                    cpart, extra = const_pow(c, e)
                pw2 = []
                for a, x in pw:
                    if a.op == "const" and a.args[0] > 0:
                        kk, xx = const_pow(a.args[0], x * e)
                        cpart *= kk
                        extra += xx
                    else:
                        pw2.append((a, x * e))
                pw2 = tuple(sorted(pw2, key=lambda ae: ae[0].id)) + tuple(extra)
                # an exponent back to positive int of an 'add' atom must expand
                res = {((), tuple((mm, cc * e) for mm, cc in ex), frozenset()): cpart}
                for a, x in pw2:
                    if a.op == "add" and x > 0 and x.denominator == 1:
                        res = pmul(ctx, res, ppow(ctx, poly(ctx, a), x))
                    else:
                        res = pmul(ctx, res, {(((a, x),), (), frozenset()): Fraction(1)})
                return res
        t = to_term(p)
        if ii:
            # ([b] * s)^e with e<0 : keep atomic
            return atom(t, e) if t.op != "pow" else atom(t, e)
        return {(((t, e),), (), frozenset()): Fraction(1)}
    # integer-exponent: pull out leading coefficient & monomial content
    if e.denominator == 1:
        common, ie, ex = split_mono_content(ctx, p)
        lead = min(p.items(), key=lambda mc: mono_key(mc[0]))[1]
        q = pscale(p, 1 / lead)
        if common or ex:
            cm = {(tuple(sorted(((a, -x) for a, x in common.items()), key=lambda ae: ae[0].id)),
                   tuple((mm, -cc) for mm, cc in ex), frozenset()): Fraction(1)}
            okc = all(ctx.nonzero(a) for a in common)
            if okc:
                q2 = pmul(ctx, q, cm)
                # re-normalise lead
                base = {(tuple(sorted(((a, x * e) for a, x in common.items()), key=lambda ae: ae[0].id)),
                         tuple((mm, cc * e) for mm, cc in ex), frozenset()): lead ** int(e)}
                rest = ppow(ctx, q2, e)
                return pmul(ctx, base, rest)
        return pscale({(((to_term(q), e),), (), frozenset()): Fraction(1)}, lead ** int(e))
    # fractional exponent: pull out the positive content  (c*m*q)^e = (c*m)^e * q^e  for c*m > 0
    common, ie, ex = split_mono_content(ctx, p)
    common = {a: x for a, x in common.items() if ctx.pos(a) and a.op != "const"}
    lead, lc = const_lead(p)
    lead = abs(lead)
    if common or ex or lead != 1 or lc:
        pull = {(tuple(sorted(list(common.items()) + list(lc), key=lambda ae: ae[0].id)), ex, frozenset()): lead}
        cm = {(tuple(sorted(((a, -x) for a, x in common.items()), key=lambda ae: ae[0].id)),
               tuple((mm, -cc) for mm, cc in ex), frozenset()): 1 / lead}
        q = pmul(ctx, p, cm)
        for a, x in lc:
            q = pmul(ctx, q, {(((a, -x),), (), frozenset()): Fraction(1)})
        if len(q) > 1:
            return pmul(ctx, ppow(ctx, pull, e), {(((to_term(q), e),), (), frozenset()): Fraction(1)})
    return {(((to_term(p), e),), (), frozenset()): Fraction(1)}


def _poly(ctx, t):
    op = t.op
    if op == "const":
        return pconst(t.args[0])
    if op == "add":
        r = {}
        for a in t.args:
            r = padd(r, poly(ctx, a))
        return r
    if op == "mul":
        r = pconst(1)
        for a in t.args:
            r = pmul(ctx, r, poly(ctx, a))
        return r
    if op == "pow":
        return ppow(ctx, poly(ctx, t.args[0]), t.args[1].args[0])
    if op == "ite":
        c = ind(ctx, t.args[0])
        a, b = t.args[1], t.args[2]
        if not c:
            return poly(ctx, b)
        if c == pconst(1):
            return poly(ctx, a)
        pa, pb = poly(ctx, a), poly(ctx, b)
        return padd(pmul(ctx, c, pa), padd(pb, pmul(ctx, c, pb), -1))
    if op == "fun":
        name, a = t.args
        if name == "exp":
            pa = poly(ctx, a)
            # move c*log(x) terms
            r = pconst(1)
            ex = []
            for m, c in pa.items():
                if len(m[0]) == 1 and m[0][0][1] == 1 and not m[1] and not m[2]:
                    at = m[0][0][0]
                    if at.op == "fun" and at.args[0] == "log" and (
                        ctx.pos(at.args[1])
                    ):
                        r = pmul(ctx, r, ppow(ctx, poly(ctx, at.args[1]), c))
                        continue
                ex.append((m, c))
            if ex:
                r = pmul(ctx, r, {((), tuple(sorted(ex, key=_mkey)), frozenset()): Fraction(1)})
            return r
        pa = poly(ctx, a)
        if name == "log":
            return plog(ctx, pa)
        if name == "abs":
            if not pa:
                return {}
            lead = min(pa.items(), key=lambda mc: mono_key(mc[0]))[1]
            if lead < 0:
                pa = pscale(pa, -1)
            ta = to_term(pa)
            if ctx.pos(ta):
                return pa
            return atom(tm.fun("abs", ta))
        if name in ("erf", "sin", "arctan"):  # odd
            if pa:
                lead = min(pa.items(), key=lambda mc: mono_key(mc[0]))[1]
                if lead < 0:
                    return pscale(atom(tm.fun(name, to_term(pscale(pa, -1)))), -1)
        if name == "cos" and pa:
            lead = min(pa.items(), key=lambda mc: mono_key(mc[0]))[1]
            if lead < 0:
                pa = pscale(pa, -1)
        if name == "Phi" and pa:
            # Phi(-x) = 1 - Phi(x)
            lead = min(pa.items(), key=lambda mc: mono_key(mc[0]))[1]
            if lead < 0:
                return padd(pconst(1), poly(ctx, tm.fun("Phi", to_term(pscale(pa, -1)))), -1)
            ta = to_term(pa)
            if ta.op == "fun" and ta.args[0] == "ppf0":
                # argument in (0,1) needed
                x = ta.args[1]
                if ctx.truth(tm.lt(tm.ZERO, x)) and ctx.truth(tm.lt(x, tm.ONE)):
                    return poly(ctx, x)
        if name == "ppf0" and pa:
            ta = to_term(pa)
            if ta.op == "fun" and ta.args[0] == "Phi":
                return poly(ctx, ta.args[1])
            # ppf(1-Phi(x)) = -x
            q = padd(pconst(1), pa, -1)
            tq = to_term(q)
            if tq.op == "fun" and tq.args[0] == "Phi":
                return pscale(poly(ctx, tq.args[1]), -1)
            # canonical orientation ppf(1-z) = -ppf(z)
            lead = min(((m, c) for m, c in pa.items() if m != ONEM), key=lambda mc: mono_key(mc[0]), default=None)
            if lead is not None and lead[1] < 0:
                return pscale(atom(tm.fun("ppf0", tq)), -1)
        return atom(tm.fun(name, to_term(pa)))
    if op == "sum":
        return psum(ctx, t)
    if op == "app":
        args = [to_term(poly(ctx, a)) if a.sort != "B" else a for a in t.args[1:]]
        # keep integer-sorted arguments exactly
        return atom(tm.app(t.args[0], args, t.sort))
    if op in ("maxr", "argmax", "lam"):
        n, v, body = tm.open_binder(t)
        b2 = to_term(poly(ctx, body)) if body.sort != "B" else body
        return atom(tm.bind(op, to_term(poly(ctx, n)), v, b2, t.sort))
    return atom(t)


def plog(ctx, pa):
    if len(pa) > 1:
        cd = common_den(ctx, pa, True)
        if cd is not None and ctx.pos(to_term(cd[0])):
            return padd(plog(ctx, cd[0]), plog(ctx, cd[1]), -1)
    if len(pa) == 1:
        (m, c), = pa.items()
        pw, ex, ii = m
        if not ii and c > 0 and all(ctx.pos(a) for a, _ in pw):
            r = {}
            if c != 1:
                # factor integers? keep log of prime factorisation canonical
                r = padd(r, log_const(c))
            for a, e in pw:
                if a.op == "const":
                    r = padd(r, log_const(a.args[0]), e)
                elif a.op == "fun" and a.args[0] == "exp":
                    r = padd(r, poly(ctx, a.args[1]), e)
                else:
                    r = padd(r, atom(tm.fun("log", a)), e)
            for mm, cc in ex:
                r = padd(r, {mm: cc})
            return r
    elif len(pa) > 1:
        if len(pa) <= 6 and any(m[1] for m in pa):
            best = None
            for mb in pa:
                shift = tuple((mm, -cc) for mm, cc in mb[1])
                q = {(m[0], _merge_expo(m[1], shift), m[2]): c for m, c in pa.items()}
                key = sorted(mono_key((tuple((a, e) for a, e in m[0] if a.op != "const"), m[1], m[2])) for m in q)
                if best is None or key < best[0]:
                    best = (key, q, mb[1])
            if best[2] and ctx.pos(to_term(pa)):
                r = plog(ctx, best[1])
                for mm, cc in best[2]:
                    r = padd(r, {mm: cc})
                return r
        common, ie, ex = split_mono_content(ctx, pa)
        common = {a: x for a, x in common.items() if a.op != "const"}
        lead, lc = const_lead(pa)
        if lead > 0 and all(ctx.pos(a) for a in common) and (common or ex or lead != 1 or lc):
            whole = to_term(pa)
            if ctx.pos(whole):
                cm = {(tuple(sorted(((a, -x) for a, x in common.items()), key=lambda ae: ae[0].id)),
                       tuple((mm, -cc) for mm, cc in ex), frozenset()): 1 / lead}
                q = pmul(ctx, pa, cm)
                for a, x in lc:
                    q = pmul(ctx, q, {(((a, -x),), (), frozenset()): Fraction(1)})
                base = {(tuple(sorted(list(common.items()) + list(lc), key=lambda ae: ae[0].id)), ex, frozenset()): lead}
                return padd(plog(ctx, base), atom(tm.fun("log", to_term(q))))
    return atom(tm.fun("log", to_term(pa)))


def log_const(c):
    """log of a positive rational as sum over prime factors"""
    r = {}
    for v, s in ((c.numerator, 1), (c.denominator, -1)):
        d = 2
        n = v
        if n > 10 ** 7:
            r = padd(r, atom(tm.fun("log", tm.const(n))), s)
            continue
        while n > 1:
            k = 0
            while n % d == 0:
                n //= d
                k += 1
            if k:
                r = padd(r, atom(tm.fun("log", tm.const(d))), s * k)
            d += 1
            if d * d > n and n > 1:
                r = padd(r, atom(tm.fun("log", tm.const(n))), s)
                break
    return r


def mono_vars(m):
    s = set()
    for a, _ in m[0]:
        s |= a.fv
    for mm, _ in m[1]:
        s |= mono_vars(mm)
    for b in m[2]:
        s |= b.fv
    return s


def solve_eq_for(ctx, b, v):
    """b: eq(lhs, rhs) int; solve for var v : returns term or None"""
    if b.op != "eq" or b.args[0].sort == "B":
        return None
    d = poly(ctx, tm.sub(b.args[0], b.args[1]))
    c = None
    rest = {}
    for m, k in d.items():
        if m == (((v, Fraction(1)),), (), frozenset()):
            c = k
        elif v in mono_vars(m):
            return None
        else:
            rest[m] = k
    if c is None or abs(c) != 1:
        return None
    r = pscale(rest, -1 / c)
    if any(k.denominator != 1 for k in r.values()):
        return None
    t = to_term(r)
    return t if t.sort == "I" else None


def psum(ctx, t):
    n, v, body = tm.open_binder(t)
    return psum_body(ctx, n, v, poly(ctx, body), 0)


def psum_body(ctx, n, v, pb, depth):
    n = to_term(poly(ctx, n))
    res = {}
    for m, c in pb.items():
        pw, ex, ii = m
        # Kronecker collapse
        done = False
        for b in ii:
            if v in b.fv and b.op == "eq":
                e = solve_eq_for(ctx, b, v)
                if e is not None:
                    rest = (pw, ex, ii - {b})
                    tr = to_term({rest: Fraction(1)})
                    tr = tm.subst(tr, {v: e})
                    rng = pmul(ctx, ind(ctx, tm.le(tm.ZERO, e)), ind(ctx, tm.lt(e, n)))
                    res = padd(res, pmul(ctx, rng, poly(ctx, tr)), c)
                    done = True
                    break
        if done:
            continue
        dep_p = tuple(x for x in pw if v in x[0].fv)
        ind_p = tuple(x for x in pw if v not in x[0].fv)
        dep_e = tuple(x for x in ex if v in mono_vars(x[0]))
        ind_e = tuple(x for x in ex if v not in mono_vars(x[0]))
        dep_i = frozenset(b for b in ii if v in b.fv)
        ind_i = ii - dep_i
        core = (dep_p, dep_e, dep_i)
        outer = {(ind_p, ind_e, ind_i): c}
        if core == ONEM:
            s = poly(ctx, n)
        else:
            s = sum_core(ctx, n, v, core)
        res = padd(res, pmul(ctx, outer, s))
    return res


def sum_core(ctx, n, v, core):
    """canonical multi-sum atom"""
    binders = [(v, n)]
    pw = []
    ex = core[1]
    ii = core[2]
    todo = list(core[0])
    while todo:
        a, e = todo.pop()
        if a.op == "sum" and e > 0 and e.denominator == 1 and e <= 2:
            for _ in range(int(e)):
                n2, v2, b2 = tm.open_binder(a)
                pb2 = poly(ctx, b2)
                if len(pb2) != 1:
                    pw.append((a, Fraction(1)))
                    continue
                (m2, c2), = pb2.items()
                if c2 != 1:
                    pw.append((a, Fraction(1)))
                    continue
                binders.append((v2, n2))
                todo.extend(m2[0])
                ex = _merge_expo(ex, m2[1])
                ii = ii | m2[2]
        else:
            pw.append((a, e))
    d = {}
    for a, e in pw:
        d[a] = d.get(a, 0) + e
    mono = (tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id)), ex, ii)
    if ORTHO:
        r = ortho_rule(ctx, binders, mono)
        if r is not None:
            return r
    body = to_term({mono: Fraction(1)})
    if len(binders) == 1:
        return atom(tm.bind("sum", n, v, body, "R"))
    best = None
    perms = permutations(range(len(binders))) if len(binders) <= 4 else [range(len(binders))]
    for perm in perms:
        # outermost first: binder ranges must not depend on inner vars
        ok = True
        seen = set(bv for bv, _ in binders)
        for i in perm:
            bv, bn = binders[i]
            if bn.fv & seen:
                ok = False
                break
            seen.discard(bv)
        # (ranges never depend on later binders)
        if not ok:
            continue
        tt = body
        for i in reversed(list(perm)):
            bv, bn = binders[i]
            tt = tm.bind("sum", bn, bv, tt, "R")
        if best is None or tt.id < best.id:
            best = tt
    if best is None or best.op != "sum":
        return atom(tm.bind("sum", n, v, body, "R"))
    return atom(best)


ORTHO = {}  # name of an orthogonal matrix symbol -> its dimension


def ortho_rule(ctx, binders, mono):
    """sum_v R[v,i] R[v,k] = [i==k] = sum_v R[i,v] R[k,v] for R in ORTHO"""
    pw, ex, ii = mono
    fac = [(a, e) for a, e in pw if a.op == "app" and a.args[0] in ORTHO and e in (1, 2)]
    if not fac:
        return None
    for bi, (bv, bn) in enumerate(binders):
        for pos in (1, 2):
            hits = [(a, e) for a, e in fac if a.args[pos] is bv and bv not in a.args[3 - pos].fv]
            if sum(e for _, e in hits) != 2:
                continue
            if ORTHO[hits[0][0].args[0]] is not bn or len({a.args[0] for a, _ in hits}) != 1:
                continue
            rest = tuple((a, e) for a, e in pw if (a, e) not in hits)
            if any(bv in a.fv for a, _ in rest) or any(bv in mono_vars(m) for m, _ in ex) or any(bv in b.fv for b in ii):
                continue
            i, k = hits[0][0].args[3 - pos], hits[-1][0].args[3 - pos]
            p = pmul(ctx, {(rest, ex, ii): Fraction(1)}, ind(ctx, tm.eq(i, k)))
            for bj, (v2, n2) in enumerate(binders):
                if bj != bi:
                    p = psum_body(ctx, n2, v2, p, 0)
            return p
    return None


def mono_term(m):
    pw, ex, ii = m
    parts = []
    for a, e in pw:
        parts.append(tm.pow_(a, e))
    if ex:
        parts.append(tm.fun("exp", to_term(dict(ex))))
    r = tm.mul(*parts) if parts else tm.ONE
    if ii:
        r = tm.ite(tm.and_(*ii), r, tm.ZERO)
    return r


def to_term(p):
    if not p:
        return tm.ZERO
    return tm.add(*[tm.mul(tm.const(c), mono_term(m)) for m, c in p.items()])


def normalise(ctx, t):
    try:
        return to_term(poly(ctx, t))
    except Blowup:
        return t


def is_zero(ctx, t, depth=0):
    """True if t is provably zero by ring reasoning (None if not shown)."""
    try:
        p = poly(ctx, t)
        return _pzero(ctx, p, 0)
    except Blowup:
        return None


def _pzero(ctx, p, depth):
    if not p:
        return True
    if depth > 6:
        return None
    if any(m[0] and any(a.op == "fun" and a.args[0] == "log" for a, _ in m[0]) for m in p):
        lg, rest = {}, {}
        for m, c in p.items():
            islog = not m[1] and not m[2] and len(m[0]) == 1 and m[0][0][1] == 1 and m[0][0][0].op == "fun" and m[0][0][0].args[0] == "log"
            (lg if islog else rest)[m] = c
        if lg and not any(a.op == "fun" and a.args[0] == "log" for m in rest for a, _ in m[0]):
            t2 = log_combine(ctx, lg)
            if t2 is not None and is_zero(ctx, tm.sub(t2, tm.ONE), depth + 1):
                return _pzero(ctx, rest, depth + 1)
    # clear denominators: atoms that are sums-of-terms with negative powers
    worst = {}
    for m in p:
        for a, e in m[0]:
            if e < 0 and a.op in ("add", "sum", "ite"):
                worst[a] = min(worst.get(a, 0), e)
    # only atoms which appear as a polynomial elsewhere are useful
    for a, e in sorted(worst.items(), key=lambda ae: -ae[0].id):
        if a.op != "add":
            continue
        if not ctx.nonzero(a):
            continue
        k = -e
        if k.denominator != 1:
            k = Fraction(int(k) + 1)
        r = {}
        pa = poly(ctx, a)
        for m, c in p.items():
            d = dict(m[0])
            x = d.pop(a, Fraction(0)) + k
            mm = (tuple(sorted(d.items(), key=lambda ae: ae[0].id)), m[1], m[2])
            q = {mm: c}
            if x.denominator == 1:
                for _ in range(int(x)):
                    q = pmul(ctx, q, pa)
            else:
                q = pmul(ctx, q, atom(a, x))
            r = padd(r, q)
        return _pzero(ctx, r, depth + 1)
    # indicator case split
    inds = set()
    for m in p:
        inds |= m[2]
    if inds:
        b = min(inds, key=lambda x: x.id)
        tp, fp = {}, {}
        for m, c in p.items():
            if b in m[2]:
                m2 = (m[0], m[1], m[2] - {b})
                tp = padd(tp, {m2: c})
            else:
                tp = padd(tp, {m: c})
                fp = padd(fp, {m: c})
        ctx_t = ctx.assume(b) if hasattr(ctx, "assume") else ctx
        ctx_f = ctx.assume(tm.not_(b)) if hasattr(ctx, "assume") else ctx
        if ctx_t is not None:
            tt = to_term(tp)
            if ctx_t is not ctx:
                if b.op == "eq":
                    tt = apply_eq(ctx_t, tt, b)
                tp = poly(ctx_t, tt)
            if not _pzero(ctx_t, tp, depth + 1):
                return None
        if ctx_f is not None:
            if ctx_f is not ctx:
                fp = poly(ctx_f, to_term(fp))
            if not _pzero(ctx_f, fp, depth + 1):
                return None
        return True
    return None


def apply_eq(ctx, t, b):
    """substitute using an equality var == term"""
    for v in sorted(b.fv, key=lambda v: v.id):
        if v.op == "var" and v.sort == "I":
            e = solve_eq_for(ctx, b, v)
            if e is not None and v not in e.fv:
                return tm.subst(t, {v: e})
    # atom equality  app == const etc.
    x, y = b.args
    return t


def numerator(ctx, p, limit=6):
    """multiply p by known-positive denominators; returns an equivalent-sign polynomial"""
    for _ in range(limit):
        worst = {}
        for m in p:
            for a, e in m[0]:
                if e < 0 and (syn_pos(a) or ctx.pos(a)):
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            return p
        for a, e in sorted(worst.items(), key=lambda ae: -ae[0].id):
            k = -e
            if k.denominator != 1:
                k = Fraction(int(k) + 1)
            pa = poly(ctx, a)
            r = {}
            for m, c in p.items():
                d = dict(m[0])
                x = d.pop(a, Fraction(0)) + k
                mm = (tuple(sorted(d.items(), key=lambda ae: ae[0].id)), m[1], m[2])
                q = {mm: c}
                if x.denominator == 1 and a.op == "add":
                    for _ in range(int(x)):
                        q = pmul(ctx, q, pa)
                elif x:
                    q = pmul(ctx, q, atom(a, x))
                r = padd(r, q)
            p = r
            break
    return p


def sign(ctx, t):
    """('+'|'-'|'0'|'>='|'<='|None, simplified term of the same sign)"""
    from .solve import nonneg_syn

    p = poly(ctx, t)
    p = numerator(ctx, p)
    if not p:
        return "0", tm.ZERO
    # common positive factor
    p = strip_common(ctx, p)
    r = to_term(p)
    if syn_pos(r):
        return "+", r
    if nonneg_syn(r):
        return ">=", r
    n = to_term(pscale(p, Fraction(-1)))
    if syn_pos(n):
        return "-", r
    if nonneg_syn(n):
        return "<=", r
    t2 = log_combine(ctx, p)
    if t2 is not None:
        s2, r2 = sign(ctx, tm.sub(t2, tm.ONE))
        return s2, r2
    return None, r


def log_combine(ctx, p):
    """T with sign(p) == sign(log T), when p is a rational combination of logs"""
    den = 1
    for m, c in p.items():
        if m[1] or m[2] or len(m[0]) != 1 or m[0][0][1] != 1:
            return None
        a = m[0][0][0]
        if a.op != "fun" or a.args[0] != "log" or not (syn_pos(a.args[1]) or ctx.pos(a.args[1])):
            return None
        den = den * c.denominator // __import__("math").gcd(den, c.denominator)
    if any(abs(c * den) > 12 for c in p.values()):
        return None
    return tm.mul(*[tm.pow_(m[0][0][0].args[1], c * den) for m, c in p.items()])


def strip_common(ctx, p):
    ms = list(p)
    common = dict(ms[0][0])
    for m in ms[1:]:
        d = dict(m[0])
        for a in list(common):
            if a not in d or (common[a] > 0) != (d[a] > 0):
                del common[a]
            else:
                common[a] = min(common[a], d[a]) if common[a] > 0 else max(common[a], d[a])
    common = {a: e for a, e in common.items() if syn_pos(a) or ctx.pos(a)}
    if not common:
        return p
    out = {}
    for m, c in p.items():
        d = dict(m[0])
        for a, e in common.items():
            d[a] -= e
            if not d[a]:
                del d[a]
        mm = (tuple(sorted(d.items(), key=lambda ae: ae[0].id)), m[1], m[2])
        out[mm] = out.get(mm, 0) + c
    return out


def quick(ctx, b):
    """(truth or None, simplified condition) of an arithmetic comparison by sign analysis"""
    if b.op == "not":
        r, s = quick(ctx, b.args[0])
        return (None if r is None else not r), tm.not_(s)
    if b.op in ("and", "or"):
        rs = [quick(ctx, a) for a in b.args]
        isor = b.op == "or"
        if any(r[0] is isor for r in rs):
            return isor, (tm.TRUE if isor else tm.FALSE)
        if all(r[0] is (not isor) for r in rs):
            return (not isor), (tm.FALSE if isor else tm.TRUE)
        f = tm.or_ if isor else tm.and_
        return None, f(*[r[1] for r in rs if r[0] is None])
    if b.op not in ("le", "lt", "eq") or b.args[0].sort == "B":
        return None, b
    if b.args[0].sort == "I" and b.args[1].sort == "I":
        return None, b
    if sum(1 for x in tm.subterms(b) if x.op == "ite") > 5:
        return None, b  # case analysis is the solver's job
    try:
        s, t = sign(ctx, tm.sub(b.args[0], b.args[1]))
    except Blowup:
        return None, b
    Z = tm.ZERO
    if b.op == "eq":
        if s == "0":
            return True, tm.TRUE
        if s in ("+", "-"):
            return False, tm.FALSE
        return None, tm.eq(t, Z)
    if b.op == "lt":
        if s == "-":
            return True, tm.TRUE
        if s in ("+", "0", ">="):
            return False, tm.FALSE
        return None, tm.lt(t, Z)
    if s in ("-", "0", "<="):
        return True, tm.TRUE
    if s == "+":
        return False, tm.FALSE
    return None, tm.le(t, Z)
