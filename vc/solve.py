"""Back ends: z3 (logic + linear/non-linear arithmetic over reals/ints) and the
ring normaliser (norm.py).  cvc5 is used to re-discharge a sample of z3 proofs
in the thorough tier (see crosscheck)."""
import sys, time
from fractions import Fraction

_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _P not in sys.path:
    sys.path.append(_P)
import sys

import z3

sys.set_int_max_str_digits(0)

from . import terms as tm
from . import norm
from .terms import T

STATS = {"z3_queries": 0, "z3_time": 0.0, "norm_time": 0.0, "norm_proofs": 0, "z3_proofs": 0,
         "feas_queries": 0, "syntactic": 0}

import os

TRACE = float(os.environ.get("VC_TRACE", "0"))
_R = z3.RealSort()
_I = z3.IntSort()
_B = z3.BoolSort()
_sorts = {"R": _R, "I": _I, "B": _B}
_funcs = {}
_tr_cache = {}
_skeletons = {}


def F(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    f = _funcs.get(key)
    if f is None:
        f = z3.Function(name, *sorts)
        _funcs[key] = f
    return f


def real(e):
    return z3.ToReal(e) if e.sort() == _I else e


def num(fr, sort):
    if sort == "I":
        return z3.IntVal(int(fr))
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


def tr(t):
    r = _tr_cache.get(t)
    if r is None:
        r = _tr(t)
        _tr_cache[t] = r
    return r


def _num2(a, b):
    if a.sort() != b.sort():
        return real(a), real(b)
    return a, b


def _tr(t):
    op = t.op
    if op == "const":
        return num(t.args[0], t.sort)
    if op == "bconst":
        return z3.BoolVal(t.args[0])
    if op == "var":
        return z3.Const(t.args[0], _sorts[t.sort])
    if op == "bvar":
        return z3.Const(f"#b{t.args[0]}", _I)
    if op == "app":
        args = [tr(a) for a in t.args[1:]]
        f = F(t.args[0], *[a.sort() for a in args], _sorts[t.sort])
        return f(*args) if args else z3.Const(t.args[0], _sorts[t.sort])
    if op == "add":
        es = [tr(a) for a in t.args]
        if t.sort == "R":
            es = [real(e) for e in es]
        return z3.Sum(es)
    if op == "mul":
        es = [tr(a) for a in t.args]
        if t.sort == "R":
            es = [real(e) for e in es]
        return z3.Product(es)
    if op == "pow":
        base = tr(t.args[0])
        e = t.args[1].args[0]
        if e.denominator == 1:
            n = abs(int(e))
            if e > 0:
                r = base
                for _ in range(n - 1):
                    r = r * base
                return r
            base = real(base)
            r = base
            for _ in range(n - 1):
                r = r * base
            return z3.RealVal(1) / r
        base = real(base)
        if e.denominator == 2:
            s = F("SQRT", _R, _R)(base)
            n = abs(e.numerator)
            r = s
            for _ in range(n - 1):
                r = r * s
            return r if e > 0 else z3.RealVal(1) / r
        return F(f"POW_{e.numerator}_{e.denominator}", _R, _R)(base)
    if op == "fun":
        name = t.args[0]
        a = tr(t.args[1])
        if name == "abs":
            return z3.If(a >= 0, a, -a)
        if name == "floor":
            return z3.ToInt(real(a))
        return F("fn_" + name, _R, _R)(real(a))
    if op == "ite":
        a, b = _num2(tr(t.args[1]), tr(t.args[2]))
        return z3.If(tr(t.args[0]), a, b)
    if op == "not":
        return z3.Not(tr(t.args[0]))
    if op == "and":
        return z3.And([tr(a) for a in t.args])
    if op == "or":
        return z3.Or([tr(a) for a in t.args])
    if op == "le":
        a, b = _num2(tr(t.args[0]), tr(t.args[1]))
        return a <= b
    if op == "lt":
        a, b = _num2(tr(t.args[0]), tr(t.args[1]))
        return a < b
    if op == "eq":
        a, b = tr(t.args[0]), tr(t.args[1])
        if t.args[0].sort != "B":
            a, b = _num2(a, b)
        return a == b
    if op == "idiv":
        return tr(t.args[0]) / tr(t.args[1])
    if op == "mod":
        return tr(t.args[0]) % tr(t.args[1])
    if op in ("forall", "exists"):
        n, l, body = t.args
        v = z3.Const(f"#b{l}", _I)
        rng = z3.And(v >= 0, v < tr(n))
        if op == "forall":
            return z3.ForAll([v], z3.Implies(rng, tr(body)))
        return z3.Exists([v], z3.And(rng, tr(body)))
    if op in ("sum", "maxr", "argmax", "lam"):
        n, l, body = t.args
        skel, params = skeleton(t)
        args = [tr(n)] + [tr(p) for p in params]
        f = F(f"{op}_{skel}", *[a.sort() for a in args], _sorts[t.sort])
        return f(*args)
    raise NotImplementedError(op)


_shape = {}


def shape_key(x, bound):
    """structural key of a term that does not depend on what its parameters are"""
    if type(x) is not T:
        return repr(x)
    if x.op in ("const", "bconst"):
        return str(x.args[0])
    if not (x.fv & bound):
        return "@" + x.sort
    if x.op == "bvar":
        return repr(x.args)
    k = (x, bound)
    r = _shape.get(k)
    if r is None:
        if x.op in tm.BINDERS:
            r = f"({x.op} {shape_key(x.args[0], bound)} {x.args[1]} {shape_key(x.args[2], bound | {tm.bvar(x.args[1])})})"
        else:
            ks = [shape_key(a, bound) for a in x.args]
            if x.op in ("add", "mul", "and", "or", "eq"):
                ks.sort()
            r = f"({x.op} {' '.join(ks)})"
        _shape[k] = r
    return r


def skeleton(t):
    n, l, body = t.args
    params = []
    idx = {}

    def go(x, bound):
        if x.op in ("const", "bconst"):
            return x
        if not (x.fv & bound) and not (x.op == "bvar"):
            if x in idx:
                return idx[x]
            h = tm.var(f"@{len(params)}:{x.sort}", x.sort)
            params.append(x)
            idx[x] = h
            return h
        if x.op == "bvar":
            if x in bound:
                return x
            if x in idx:
                return idx[x]
            h = tm.var(f"@{len(params)}:{x.sort}", x.sort)
            params.append(x)
            idx[x] = h
            return h
        if x.op in tm.BINDERS:
            n2, l2, b2 = x.args
            return ("BIND", x.op, go(n2, bound), l2, go(b2, bound | {tm.bvar(l2)}))
        args = x.args
        if x.op in ("add", "mul", "and", "or", "eq"):
            args = sorted(args, key=lambda a: shape_key(a, bound))
        return (x.op,) + tuple(go(a, bound) if type(a) is T else a for a in args)

    sk = (t.op, l, go(body, frozenset({tm.bvar(l)})))
    k = _skeletons.get(sk)
    if k is None:
        k = len(_skeletons)
        _skeletons[sk] = k
    return k, params


def ground_funs(ts):
    """all 'fun'/'pow'/binder terms without bound variables in the given terms"""
    seen = set()
    for t in ts:
        tm.subterms(t, seen)
    res = []
    for x in seen:
        if x.op in ("fun", "pow", "sum", "maxr", "argmax") and not any(v.op == "bvar" for v in x.fv):
            res.append(x)
    res.sort(key=lambda t: t.id)
    return res


def fun_axioms(funs):
    """ground instances of the axioms for the transcendental functions"""
    ax = []
    by = {}
    for x in funs:
        if x.op == "fun":
            by.setdefault(x.args[0], []).append(x.args[1])
        elif x.op == "pow" and x.args[1].args[0].denominator == 2:
            by.setdefault("sqrt", []).append(x.args[0])
    # close under inverse pairs (one round)
    for a in by.get("exp", []):
        if a.op == "fun" and a.args[0] == "log":
            pass
    out = []

    def f(n, a):
        return tm.fun(n, a)

    Z, O = tm.ZERO, tm.ONE
    exps = list(dict.fromkeys(by.get("exp", [])))
    logs = list(dict.fromkeys(by.get("log", [])))
    for a in exps:
        e = tm.mk("fun", ("exp", a), "R")
        out.append(tm.lt(Z, e))
        out.append(tm.eq(tm.lt(Z, a), tm.lt(O, e)))
        out.append(tm.eq(tm.eq(Z, a), tm.eq(O, e)))
        out.append(tm.le(tm.add(O, a), e))
    for a in logs:
        l = tm.mk("fun", ("log", a), "R")
        out.append(tm.implies(tm.lt(Z, a), tm.le(l, tm.sub(a, O))))
        out.append(tm.implies(tm.lt(Z, a), tm.eq(tm.lt(O, a), tm.lt(Z, l))))
        out.append(tm.implies(tm.eq(O, a), tm.eq(Z, l)))
        out.append(tm.implies(tm.lt(Z, a), tm.eq(tm.mk("fun", ("exp", l), "R"), a)))
        for e in exps:
            le_ = tm.mk("fun", ("exp", e), "R")
            # log(a) < e  <=> a < exp e
            out.append(tm.implies(tm.lt(Z, a), tm.eq(tm.lt(l, e), tm.lt(a, le_))))
            out.append(tm.implies(tm.lt(Z, a), tm.eq(tm.eq(l, e), tm.eq(a, le_))))
    _mono(out, "exp", exps, None)
    _mono(out, "log", logs, lambda a: tm.lt(Z, a))
    phis = list(dict.fromkeys(by.get("Phi", [])))
    ppfs = list(dict.fromkeys(by.get("ppf0", [])))
    for a in phis:
        p = f("Phi", a)
        out.append(tm.and_(tm.lt(Z, p), tm.lt(p, O)))
    _mono(out, "Phi", phis, None)
    for a in ppfs:
        p = tm.mk("fun", ("ppf0", a), "R")
        dom = tm.and_(tm.lt(Z, a), tm.lt(a, O))
        out.append(tm.implies(dom, tm.eq(tm.mk("fun", ("Phi", p), "R"), a)))
        for e in phis:
            out.append(tm.implies(dom, tm.eq(tm.lt(p, e), tm.lt(a, f("Phi", e)))))
            out.append(tm.implies(dom, tm.eq(tm.eq(p, e), tm.eq(a, f("Phi", e)))))
    _mono(out, "ppf0", ppfs, lambda a: tm.and_(tm.lt(Z, a), tm.lt(a, O)))
    for a in dict.fromkeys(by.get("sqrt", [])):
        s = tm.mk("pow", (a, tm.mk("const", (Fraction(1, 2),), "R")), "R")
        out.append(tm.implies(tm.le(Z, a), tm.and_(tm.le(Z, s), tm.eq(tm.mk("mul", (s, s), "R"), a))))
        out.append(tm.implies(tm.lt(Z, a), tm.lt(Z, s)))
    for n in ("erf", "tanh"):
        for a in by.get(n, []):
            p = f(n, a)
            out.append(tm.and_(tm.lt(tm.NEG1, p), tm.lt(p, O)))
    for a in by.get("ulp_up", []) + []:
        out.append(tm.lt(Z, f("ulp_up", a)))
    for a in by.get("ulp_dn", []):
        out.append(tm.lt(Z, f("ulp_dn", a)))
    for a in by.get("cos", []):
        p = f("cos", a)
        out.append(tm.and_(tm.le(tm.NEG1, p), tm.le(p, O)))
    for b in by.get("arccos", []):
        # c = cos(arccos(b)/3): 4c^3-3c = b, 1/2 <= c <= 1   for b in [-1,1]
        c = tm.fun("cos", tm.mul(tm.const(Fraction(1, 3)), tm.fun("arccos", b)))
        dom = tm.and_(tm.le(tm.NEG1, b), tm.le(b, O))
        out.append(tm.implies(dom, tm.and_(
            tm.eq(tm.sub(tm.mul(tm.const(4), c, c, c), tm.mul(tm.const(3), c)), b),
            tm.le(tm.const(Fraction(1, 2)), c), tm.le(c, O))))
    return out


def _mono(out, name, args, dom):
    if len(args) > 12:
        args = args[:12]
    for i in range(len(args)):
        for j in range(i):
            a, b = args[i], args[j]
            fa = tm.mk("fun", (name, a), "R")
            fb = tm.mk("fun", (name, b), "R")
            c = tm.and_(tm.eq(tm.lt(a, b), tm.lt(fa, fb)), tm.eq(tm.eq(a, b), tm.eq(fa, fb)))
            if dom:
                c = tm.implies(tm.and_(dom(a), dom(b)), c)
            out.append(c)


_lg = {}


def is_logic(t):
    """no real-sorted part: index arithmetic and boolean structure only"""
    r = _lg.get(t)
    if r is None:
        r = all(x.sort != "R" and x.op not in ("fun", "pow") for x in tm.subterms(t))
        _lg[t] = r
    return r


_hq = {}


def has_quant(t):
    r = _hq.get(t)
    if r is None:
        r = any(x.op in ("forall", "exists") for x in tm.subterms(t))
        _hq[t] = r
    return r


def instances(path, scope, simplify):
    """ground instances of the universally quantified facts at the index variables in scope,
    resolved against the scope and simplified; sound consequences of path + scope"""
    ups = {}
    for f in scope:
        if f.op == "lt" and f.args[0].op == "var" and f.args[0].sort == "I":
            ups.setdefault(f.args[1], []).append(f.args[0])
    out = []
    seen = set()

    def go(f):
        if f in seen or len(out) > 200:
            return
        seen.add(f)
        if f.op == "forall":
            n, v, body = tm.open_binder(f)
            if tm.isconst(n) and tm.cval(n) <= 4:
                cands = [tm.const(i) for i in range(int(tm.cval(n)))]
            else:
                cands = ups.get(n, [])
            for c in cands:
                go(tm.subst(body, {v: c}))
            return
        if f.op == "and":
            for a in f.args:
                go(a)
            return
        if not has_quant(f):
            out.append(f)

    for f in path.foralls:
        go(f)
    for f in scope:
        if f.op in ("forall", "and"):
            go(f)
    return out


class Path:
    """A path condition with an incremental z3 solver"""

    def __init__(self, facts=()):
        self.facts = []
        self.fset = set()
        self.solver = z3.Solver()
        self.solver.set("timeout", 2000)
        self.gsolver = z3.Solver()
        self.lsolver = z3.Solver()
        self.foralls = []
        self.truth_cache = {}
        self._ctx = None
        self.seen_funs = set()
        self.decl = set()
        self.klasses = {}
        self._assert(z3.Real("pi") > z3.RealVal("3.14159265"), z3.Real("pi") < z3.RealVal("3.14159266"))
        for f in facts:
            self.add(f)

    def _assert(self, *es, ground=True):
        self.solver.add(*es)
        if ground:
            self.gsolver.add(*es)

    def add(self, t):
        if t is tm.TRUE or t in self.fset:
            return
        for x in t.args if t.op == "and" else (t,):
            if x in self.fset:
                continue
            self.facts.append(x)
            self.fset.add(x)
            self._axioms_for([x])
            q = has_quant(x)
            if x.op == "forall":
                self.foralls.append(x)
            self._assert(tr(x), ground=not q)
            if not q and is_logic(x):
                self.lsolver.add(tr(x))
        self.truth_cache = {k: v for k, v in self.truth_cache.items() if v is not None}
        self._ctx = None

    def klass(self, name, arity, kinds):
        self.klasses[name] = tuple(kinds)
        self.truth_cache = {}
        self._ctx = None

    def _decl_axioms(self, ts):
        """declared ranges of input symbols: ground instances; quantified when used under a binder"""
        seen = set()
        for t in ts:
            tm.subterms(t, seen)
        for x in sorted((x for x in seen if x.op == "app" and (x.args[0] in tm.SIGNS or x.args[0] in self.klasses)), key=lambda t: t.id):
            nm = x.args[0]
            bound = any(v.op == "bvar" for v in x.fv)
            key = nm if bound else x
            if key in self.decl:
                continue
            self.decl.add(key)
            if bound:
                vs = [z3.Int(f"#d{i}") for i in range(len(x.args) - 1)]
                e = F(nm, *[_I] * len(vs), _sorts[x.sort])(*vs)
            else:
                e = tr(x)
            if nm in tm.SIGNS:
                ax = e > 0 if tm.SIGNS[nm] == "pos" else e >= 0
            else:
                ax = z3.Or([e == k for k in self.klasses[nm]])
            self._assert(z3.ForAll(vs, ax, patterns=[e]) if bound else ax, ground=not bound)

    def _axioms_for(self, ts):
        self._decl_axioms(ts)
        funs = ground_funs(ts)
        new = [f for f in funs if f not in self.seen_funs]
        if new:
            self.seen_funs.update(new)
            allf = [f for f in sorted(self.seen_funs, key=lambda t: t.id)]
            for a in fun_axioms(allf if len(allf) < 14 else new):
                self._assert(tr(a))
            for f in new:
                for a in binder_axioms(self, f):
                    self._assert(tr(a), ground=not has_quant(a))

    def clone(self):
        p = Path()
        p.klasses = dict(self.klasses)
        for f in self.facts:
            p.add(f)
        return p

    def check_logic(self, extra, timeout=400):
        STATS["z3_queries"] += 1
        t0 = time.time()
        self.lsolver.push()
        for e in extra:
            if not has_quant(e) and is_logic(e):
                self.lsolver.add(tr(e))
        self.lsolver.set("timeout", timeout)
        r = self.lsolver.check()
        self.lsolver.pop()
        STATS["z3_time"] += time.time() - t0
        return r

    def check(self, extra, timeout, ground=False, nra=True):
        STATS["z3_queries"] += 1
        t0 = time.time()
        r = None
        self.solver.push()
        self.gsolver.push()
        try:
            sv = set(self.seen_funs)
            dv = set(self.decl)
            self._axioms_for(extra)
            for e in extra:
                self._assert(tr(e), ground=not has_quant(e))
            sol = self.gsolver if ground else self.solver
            sol.set("timeout", int(timeout))
            sol.set("arith.nl.nra", nra)
            sol.set("rlimit", int(timeout) * RL)
            try:
                r = sol.check()
            except z3.Z3Exception:
                r = z3.unknown
            m = None
            if r == z3.sat:
                try:
                    m = sol.model()
                except z3.Z3Exception:
                    m = None
            return r, m
        finally:
            self.solver.pop()
            self.gsolver.pop()
            self.seen_funs = sv
            self.decl = dv
            dt = time.time() - t0
            STATS["z3_time"] += dt
            if TRACE and dt > TRACE:
                print("SLOW %.2fs to=%s %s | %s | nfacts %d" % (dt, timeout, r, [tm.show(e)[:700] for e in extra], len(self.facts)), flush=True)

    def has_quants(self):
        return any(has_quant(f) for f in self.facts) or any(isinstance(k, str) for k in self.decl)

    def feasible(self, b, timeout=1500):
        """can b hold under the path condition? (unknown counts as yes)"""
        if b is tm.FALSE:
            return False
        STATS["feas_queries"] += 1
        b = signsimp(b)
        if b.op == "bconst":
            return b.args[0]
        if b in self.fset:
            return True
        nb = tm.not_(b)
        if nb in self.fset:
            return False
        r, _ = self.check([b], timeout)
        return r != z3.unsat

    def truth(self, b, timeout=400):
        if b.op == "bconst":
            return b.args[0]
        if b in self.fset:
            return True
        nb = tm.not_(b)
        if nb in self.fset:
            return False
        if b in self.truth_cache:
            return self.truth_cache[b]
        r = None
        if is_logic(b) and not has_quant(b):
            if self.check_logic([nb]) == z3.unsat:
                r = True
            elif self.check_logic([b]) == z3.unsat:
                r = False
            if r is not None or any(v.op == "var" and v.args[0].startswith(("b!", "s!")) for v in b.fv):
                self.truth_cache[b] = r
                return r
        quants = self.has_quants() or has_quant(b)
        r1 = self.check([nb], timeout, ground=True, nra=False)[0]
        if r1 == z3.unsat:
            r = True
        else:
            r0 = self.check([b], timeout, ground=True, nra=False)[0]
            if r0 == z3.unsat:
                r = False
            elif quants or z3.unknown in (r0, r1):
                if self.check([nb], timeout, ground=not quants)[0] == z3.unsat:
                    r = True
                elif self.check([b], timeout, ground=not quants)[0] == z3.unsat:
                    r = False
        self.truth_cache[b] = r
        return r

    def ctx(self):
        if self._ctx is None:
            self._ctx = PCtx(self)
        return self._ctx


class PCtx(norm.Ctx):
    def __init__(self, path):
        super().__init__(path.truth)
        self.path = path

    def truth(self, b):
        if b.op == "bconst":
            return b.args[0]
        if any(v.op == "bvar" for v in b.fv):
            return None
        if any(v.op == "var" and (v.args[0].startswith("b!") or v.args[0].startswith("s!")) for v in b.fv):
            # generic binder variable: only sign facts known for every index
            return self.path.truth(b)
        return self.path.truth(b)

    def assume(self, b):
        if not self.path.feasible(b, 800):
            return None
        p = self.path.clone()
        p.add(b)
        return p.ctx()


def binder_axioms(path, t):
    if t.op == "maxr":
        n, v, body = tm.open_binder(t)
        w = tm.fresh("am", "I")
        return [
            tm.implies(tm.lt(tm.ZERO, n), tm.forall(n, v, tm.le(body, t))),
            tm.implies(tm.lt(tm.ZERO, n), tm.and_(tm.le(tm.ZERO, w), tm.lt(w, n), tm.eq(tm.subst(body, {v: w}), t))),
        ]
    if t.op == "argmax":
        n, v, body = tm.open_binder(t)
        bt = tm.subst(body, {v: t})
        return [
            tm.implies(tm.lt(tm.ZERO, n), tm.and_(tm.le(tm.ZERO, t), tm.lt(t, n))),
            tm.implies(tm.lt(tm.ZERO, n), tm.forall(n, v, tm.and_(tm.le(body, bt), tm.implies(tm.lt(v, t), tm.lt(body, bt))))),
        ]
    if t.op == "sum":
        n, v, body = tm.open_binder(t)
        out = []
        if nonneg_syn(body):
            out.append(tm.le(tm.ZERO, t))
            if norm.syn_pos(body):
                out.append(tm.implies(tm.lt(tm.ZERO, n), tm.lt(tm.ZERO, t)))
        if body.op == "ite" and body.args[1:] == (tm.ONE, tm.ZERO):
            # counting a predicate over 0..n-1 (counting lemma, proved by induction on n)
            c = body.args[0]
            w1, w2, u = tm.fresh("cw", "I"), tm.fresh("cw", "I"), tm.fresh("b!cu", "I")
            two = tm.const(2)
            cw1, cw2, cu = tm.subst(c, {v: w1}), tm.subst(c, {v: w2}), tm.subst(c, {v: u})
            out.append(tm.or_(tm.le(t, tm.ZERO), tm.eq(t, tm.ONE), tm.le(two, t)))
            out.append(tm.implies(tm.le(tm.ZERO, n), tm.le(t, n)))
            out.append(tm.implies(tm.le(tm.ONE, t), tm.and_(tm.le(tm.ZERO, w1), tm.lt(w1, n), cw1)))
            out.append(tm.implies(tm.le(two, t), tm.and_(tm.lt(w1, w2), tm.lt(w2, n), cw2)))
            out.append(tm.forall(n, v, tm.implies(c, tm.le(tm.ONE, t))))
            out.append(tm.forall(n, v, tm.forall(n, u, tm.implies(tm.and_(c, cu, tm.not_(tm.eq(u, v))), tm.le(two, t)))))
        return out
    return []


def nonneg_syn(t):
    if norm.syn_pos(t):
        return True
    if t.op == "const":
        return t.args[0] >= 0
    if t.op == "pow":
        e = t.args[1].args[0]
        if e.denominator == 1 and int(e) % 2 == 0:
            return True
        return nonneg_syn(t.args[0])
    if t.op == "mul":
        d = {}
        for a in t.args:
            d[a] = d.get(a, 0) + 1
        return all(k % 2 == 0 or nonneg_syn(a) for a, k in d.items())
    if t.op == "add":
        return all(nonneg_syn(a) for a in t.args)
    if t.op == "ite":
        return nonneg_syn(t.args[1]) and nonneg_syn(t.args[2])
    if t.op == "fun":
        return t.args[0] in ("abs", "exp")
    if t.op == "app":
        return t.args[0] in tm.SIGNS
    if t.op == "sum":
        return nonneg_syn(tm.open_binder(t)[2])
    if t.op == "var":
        return t.sort == "I" and t.args[0].startswith("d_")  # array dimension
    return False


RL = 3000  # z3 resource units per ms of requested time (bounds runs that ignore the timeout)
_SS = {}


def signsimp(t):
    """decide comparisons with 0 whose other side is syntactically non-negative"""
    if t in _SS:
        return _SS[t]
    r = t
    if t.op in ("lt", "le"):
        a, b = t.args
        if t.op == "lt" and b is tm.ZERO and nonneg_syn(a):
            r = tm.FALSE
        elif t.op == "le" and a is tm.ZERO and nonneg_syn(b):
            r = tm.TRUE
    elif t.op == "not":
        r = tm.not_(signsimp(t.args[0]))
    elif t.op == "and":
        r = tm.and_(*[signsimp(a) for a in t.args])
    elif t.op == "or":
        r = tm.or_(*[signsimp(a) for a in t.args])
    elif t.op in ("exists", "forall"):
        n, v, body = tm.open_binder(t)
        b2 = signsimp(body)
        if b2 is not body:
            if b2.op == "bconst":
                r = b2 if b2.args[0] == (t.op == "forall") else t
            else:
                r = (tm.exists if t.op == "exists" else tm.forall)(n, v, b2)
    _SS[t] = r
    return r


def sum_sign_lemmas(path, terms, timeout=1500):
    """prove body >= 0 (or > 0) for sums; returns lemmas"""
    out = []
    for s in ground_funs(terms):
        if s.op != "sum":
            continue
        n, v, body = tm.open_binder(s)
        rng = tm.and_(tm.le(tm.ZERO, v), tm.lt(v, n))
        if not path.feasible(rng, 500):
            continue
        p = path.clone()
        p.add(rng)
        for st in sum_sign_lemmas(p, [body]):
            p.add(st)
        if p.check([tm.le(body, tm.ZERO)], timeout)[0] == z3.unsat:
            out.append(tm.implies(tm.lt(tm.ZERO, n), tm.lt(tm.ZERO, s)))
        if p.check([tm.lt(body, tm.ZERO)], timeout)[0] == z3.unsat:
            out.append(tm.le(tm.ZERO, s))
    return out


def prove(path, goal, timeout=10000):
    """returns (status, backend, model)"""
    if goal is tm.TRUE:
        STATS["syntactic"] += 1
        return "proved", "syntactic", None
    if goal in path.fset:
        STATS["syntactic"] += 1
        return "proved", "syntactic", None
    if goal.op == "and":
        backs = []
        for g in goal.args:
            s, b, m = prove(path, g, timeout)
            if s != "proved":
                return s, b, m
            backs.append(b)
        return "proved", "+".join(sorted(set(backs))), None
    # skolemise universal goals
    if goal.op == "forall":
        n, v, body = tm.open_binder(goal, tm.fresh("sk", "I"))
        p = path.clone()
        p.add(tm.and_(tm.le(tm.ZERO, v), tm.lt(v, n)))
        return prove(p, body, timeout)
    if goal.op == "or":
        # negate all but one into the path: prefer keeping an arithmetic equality as goal
        eqs = [g for g in goal.args if g.op == "eq" and g.args[0].sort != "B"]
        if len(eqs) == 1:
            p = path.clone()
            for g in goal.args:
                if g is not eqs[0]:
                    p.add(tm.not_(g))
            return prove(p, eqs[0], timeout)
    if goal.op == "eq" and goal.args[0].sort == "B":
        a, b = goal.args
        p = path.clone(); p.add(a)
        s = prove(p, b, timeout)
        if s[0] != "proved":
            return s
        p = path.clone(); p.add(b)
        return prove(p, a, timeout)
    if goal.op == "eq":
        t0 = time.time()
        z = None
        try:
            z = norm.is_zero(path.ctx(), tm.sub(goal.args[0], goal.args[1]))
        except RecursionError:
            z = None
        STATS["norm_time"] += time.time() - t0
        if z:
            STATS["norm_proofs"] += 1
            return "proved", "ring-normaliser", None
    try:
        qt, qg = norm.quick(path.ctx(), goal)
    except (RecursionError, norm.Blowup):
        qt, qg = None, goal
    if qt is True:
        STATS["norm_proofs"] += 1
        return "proved", "ring-normaliser", None
    if qg is not goal and qg.op in ("eq", "le", "lt", "or", "and", "not"):
        r, m = path.check([tm.not_(qg)], 1500, ground=True, nra=False)
        if r == z3.unsat:
            STATS["z3_proofs"] += 1
            return "proved", "z3+ring-normaliser", None
    for nra, to in ((False, 1500), (True, 2500)):
        r, m = path.check([tm.not_(goal)], min(timeout, to), ground=True, nra=nra)
        if r == z3.unsat:
            STATS["z3_proofs"] += 1
            return "proved", "z3", None
        if r == z3.sat and not path.has_quants():
            break
    if path.has_quants() or r != z3.sat:
        r, m = path.check([tm.not_(goal)], min(timeout, 4000))
        if r == z3.unsat:
            STATS["z3_proofs"] += 1
            return "proved", "z3", None
    # normalised version + sum lemmas
    try:
        g2 = normalise_goal(path.ctx(), goal)
    except norm.Blowup:
        g2 = goal
    if g2 is tm.TRUE:
        STATS["norm_proofs"] += 1
        return "proved", "ring-normaliser", None
    lem = sum_sign_lemmas(path, [g2, goal])
    if g2 is not goal or lem:
        p = path
        if lem:
            p = path.clone()
            for l in lem:
                p.add(l)
        r2, m2 = p.check([tm.not_(g2)], timeout)
        if r2 == z3.unsat:
            STATS["z3_proofs"] += 1
            return "proved", "z3+ring-normaliser", None
        if lem:
            r2, m2 = p.check([tm.not_(goal)], timeout)
            if r2 == z3.unsat:
                STATS["z3_proofs"] += 1
                return "proved", "z3", None
        if r2 == z3.sat:
            return "refuted", "z3", m2
    if r == z3.sat:
        return "refuted", "z3", m
    r, m = path.check([tm.not_(goal)], timeout)
    if r == z3.unsat:
        STATS["z3_proofs"] += 1
        return "proved", "z3", None
    if r == z3.sat:
        return "refuted", "z3", m
    return "unknown", "z3", None


def normalise_goal(ctx, g):
    if g.op in ("and", "or"):
        f = tm.and_ if g.op == "and" else tm.or_
        return f(*[normalise_goal(ctx, a) for a in g.args])
    if g.op == "not":
        return tm.not_(normalise_goal(ctx, g.args[0]))
    if g.op in ("le", "lt", "eq") and g.args[0].sort != "B":
        d = norm.normalise(ctx, tm.sub(g.args[0], g.args[1]))
        return {"le": tm.le, "lt": tm.lt, "eq": tm.eq}[g.op](d, tm.ZERO)
    return g
