"""Verification environment: symbolic execution of the extracted code, obligations."""
import time
import traceback

import numpy as np
import z3

from . import arr, core, loops, norm, npshim, solve
from . import terms as tm
from .arr import Buf, SArr, to_sarr
from .core import Num, PathEnd, SArrBase, SBool, Unsupported, Budget, as_num, bterm, mkbool, scoped
from .harness import EnvBase


class SymEnv(EnvBase):
    sym = True
    np = npshim.NUMPY
    norm = npshim._NormShim()
    gammaln = staticmethod(npshim.SPECIAL["gammaln"])

    def __init__(self, case, shapes=None):
        self.case = dict(case)
        self.shapes = shapes
        self.patches = []
        self.inputs = []  # (key, kind, info)
        self.names = {}
        self.obl = []
        self.timeout = 12000

    # --------------------------------------------------------- inputs
    def _nm(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name + "'" * k

    def dim(self, name, lo=1, hi=None):
        key = self._nm("dim:" + name)
        if self.shapes is not None and name in self.shapes:
            v = self.shapes[name]
            self.inputs.append((key, "const", v))
            return v
        t = tm.var("d_" + name, "I")
        core.CUR.path.add(tm.le(tm.const(lo), t))
        self.inputs.append((key, "int", t))
        return Num(t)

    def int(self, name, lo, hi):
        key = self._nm("int:" + name)
        if self.shapes is not None and name in self.shapes:
            v = self.shapes[name]
            self.inputs.append((key, "const", v))
            return v
        t = tm.var("n_" + key[4:], "I")
        core.CUR.path.add(tm.le(as_num(lo).t, t))
        if hi is not None:
            core.CUR.path.add(tm.le(t, as_num(hi).t))
        self.inputs.append((key, "int", t))
        return Num(t)

    def bool(self, name):
        key = self._nm("bool:" + name)
        t = tm.var("p_" + key[5:], "B")
        self.inputs.append((key, "bool", t))
        return core.cur().decide(t)

    def choice(self, name, options):
        key = self._nm("choice:" + name)
        t = tm.var("c_" + key[7:], "I")
        core.CUR.path.add(tm.and_(tm.le(tm.ZERO, t), tm.lt(t, tm.const(len(options)))))
        self.inputs.append((key, "int", t))
        for i in range(len(options) - 1):
            if core.CUR.decide(tm.eq(t, tm.const(i))):
                return options[i]
        return options[-1]

    def _arr(self, name, dims, sort="R", sign=None, kname=None, kinds=None):
        key = self._nm(name)
        f = "x_" + key.replace(" ", "_")
        sd = [arr.dim_of(d) for d in dims]
        if sign:
            tm.SIGNS[f] = sign
        if kinds is not None:
            kf = f + "_k"
            core.CUR.path.klass(kf, len(sd), kinds)
        self.inputs.append((key, "arr", (f, [arr.dsize(d) for d in sd], sort, kinds)))

        def val(idx):
            fl = loops.flat(idx)
            if sort == "B":
                return mkbool(tm.app(f, fl, "B"))
            t = tm.app(f, fl, sort)
            if kinds is not None:
                return Num(t, tm.app(kf, fl, "I"))
            return Num(t)

        if not dims:
            return val(())
        return SArr(Buf(sd, val, "b" if sort == "B" else ("i" if sort == "I" else "f"), key))

    def real(self, name, *dims):
        return self._arr(name, dims)

    def pos(self, name, *dims):
        return self._arr(name, dims, sign="pos")

    def nonneg(self, name, *dims):
        return self._arr(name, dims, sign="nonneg")

    def unit(self, name, *dims):
        t = self.pos(name, *dims)
        return t / (1 + t)

    def ext(self, name, *dims, classes=(0, 1, -1, 2), scale=1.0):
        return self._arr(name, dims, kinds=tuple(classes))

    def mask(self, name, *dims, nonempty=False):
        m = self._arr(name, dims, sort="B")
        if nonempty:
            self.assume(arr.np_any(m))
        return m

    def orthogonal(self, name, n):
        """Q with Q Q^T = Q^T Q = I (trusted fact on an uninterpreted matrix)"""
        R = self._arr(name, (n, n))
        norm.ORTHO["x_" + R.buf.name] = arr.dsize(R.dims[0])
        return R

    def simplex(self, name, n):
        e = self.pos(name, n)
        return e / self.np.sum(e)

    def rng_log(self):
        """log of the raw random draws (standard normal / uniform arrays) made from now on"""
        core.CUR.draws = []
        return core.CUR.draws

    def rng_replay(self, log):
        """the next draws give the recorded values again"""
        core.CUR.draws = None
        core.CUR.replay = list(log)

    # --------------------------------------------------------- logic
    def assume(self, c):
        if isinstance(c, SArrBase):
            c = self.np.all(c)
        t = bterm(c)
        st = core.cur()
        if t is tm.TRUE:
            return
        if not st.path.feasible(t):
            raise PathEnd()
        st.path.add(t)

    def hint(self, *ts):
        """proof hint: adds the instances of the quantified facts at the given indices (sound: consequences of
        facts already on the path)"""
        path = core.cur().path
        ts = [as_num(t).t for t in ts]

        def go(f, guard, depth):
            if f.op == "and":
                for a in f.args:
                    go(a, guard, depth)
            elif f.op == "forall":
                if depth == 0:
                    return
                n, v, body = tm.open_binder(f)
                for t in ts:
                    go(tm.subst(body, {v: t}), guard + [tm.le(tm.ZERO, t), tm.lt(t, n)], depth - 1)
            else:
                path.add(tm.implies(tm.and_(*guard), f))

        for f in list(path.foralls):
            go(f, [], 2)

    def rank_of(self, i):
        """position of index i in the order found by the most recent argsort"""
        return Num(tm.app(f"pinv!{core._perm}", (as_num(i).t,), "I"))

    def is_true(self, c):
        if isinstance(c, SArrBase):
            c = self.np.all(c)
        return bool(c) if not isinstance(c, SBool) else core.cur().decide(c.t)

    def _record(self, name, status, backend, dt, model=None, note=""):
        self.obl.append(dict(name=name, status=status, backend=backend, t=dt, model=model, note=note))

    def _prove(self, name, goal, facts=()):
        st = core.cur()
        p = st.path
        facts = [f for f in facts if f is not tm.TRUE]
        t0 = time.time()
        if facts:
            p = p.clone()
            for f in facts:
                p.add(f)
            if p.check([], 500, ground=True, nra=False)[0] == z3.unsat:
                self._record(name, "proved", "vacuous-cell", time.time() - t0)
                return
        try:
            s, b, m = solve.prove(p, goal, self.timeout)
        except norm.Blowup:
            s, b, m = "unknown", "ring-normaliser", None
        inp = None
        if s != "proved" and any(x.op in ("sum", "forall", "exists", "ite") for x in tm.subterms(goal)):
            try:
                if goal.op == "eq" and goal.args[0].sort != "B" and self._sumext(goal, facts, time.time() + 60):
                    self._record(name, "proved", "sum-extensionality+z3", time.time() - t0)
                    return
                if self._struct(goal, list(facts), time.time() + 60, 14, {}):
                    self._record(name, "proved", "binder-extensionality+z3", time.time() - t0)
                    return
            except (norm.Blowup, RecursionError):
                pass
        if s != "proved":
            inp = self.model_inputs(p, m, goal)
        self._record(name, s, b, time.time() - t0, inp, "" if s == "proved" else tm.show(goal)[:600])

    def _sumext(self, goal, facts, deadline):
        """sum_i f(i) == sum_i g(i) follows from f(i) == g(i) at a generic index (with case
        analysis on the conditions inside the bodies)"""
        d = tm.sub(goal.args[0], goal.args[1])
        ts = d.args if d.op == "add" else (d,)
        by = {}
        for t in ts:
            c, s = tm.ONE, t
            if t.op == "mul" and sum(a.op == "sum" for a in t.args) == 1:
                s = [a for a in t.args if a.op == "sum"][0]
                c = tm.mul(*[a for a in t.args if a is not s])
            if s.op != "sum":
                return False
            by.setdefault(s.args[0], []).append((c, s))
        for n, lst in by.items():
            v = tm.fresh("sx", "I")
            body = tm.add(*[tm.mul(c, tm.open_binder(s, v)[2]) for c, s in lst])
            fs = list(facts) + [tm.le(tm.ZERO, v), tm.lt(v, n)]
            if not self._byites(tm.eq(body, tm.ZERO), fs, deadline, 12):
                return False
        return True

    def _struct(self, goal, facts, deadline, depth, memo):
        """extensionality of binders and case analysis on ground conditions"""
        if goal is tm.TRUE:
            return True
        if time.time() > deadline or depth < 0 or core.cur().deadline < time.time():
            return False
        if goal.op == "and":
            return all(self._struct(g, facts, deadline, depth, memo) for g in goal.args)
        st = core.cur()
        # 1. merge binders with pointwise equal bodies
        for _ in range(6):
            bs = sorted((x for x in tm.subterms(goal) if x.op in ("sum", "forall", "exists") and not any(v.op == "bvar" for v in x.fv)), key=lambda t: t.id)
            hit = None
            for i, a in enumerate(bs):
                for b in bs[i + 1:]:
                    if a.op != b.op or a.args[0] is not b.args[0] or a.sort != b.sort:
                        continue
                    key = (a, b, tuple(facts))
                    if key not in memo:
                        v = tm.fresh("sx", "I")
                        memo[key] = self._struct(tm.eq(tm.open_binder(a, v)[2], tm.open_binder(b, v)[2]),
                                                 facts + [tm.le(tm.ZERO, v), tm.lt(v, a.args[0])], min(deadline, time.time() + 12), depth - 4, {})
                    if memo[key]:
                        hit = (a, b)
                        break
                if hit:
                    break
            if not hit:
                break
            goal = tm.subst_term(goal, hit[1], hit[0])
            if goal is tm.TRUE:
                return True
        if goal.op == "and":
            return all(self._struct(g, facts, deadline, depth, memo) for g in goal.args)
        # conditions that compare equal expressions are the same condition
        cs = sorted({x.args[0] for x in tm.subterms(goal) if x.op == "ite" and x.args[0].op in ("le", "lt") and not any(v.op == "bvar" for v in x.args[0].fv)}, key=lambda t: t.id)
        if 2 <= len(cs) <= 6:
            for i, a in enumerate(cs):
                for b in cs[i + 1:]:
                    if a.op == b.op and "R" in (a.args[0].sort, a.args[1].sort):
                        key = (a, b, "cond")
                        if key not in memo:
                            memo[key] = solve.prove(st.path, tm.eq(tm.sub(a.args[1], a.args[0]), tm.sub(b.args[1], b.args[0])), 500)[0] == "proved"
                        if memo[key]:
                            goal = tm.subst_term(goal, b, a)
            if goal is tm.TRUE:
                return True
        # 2. resolve / split ground conditions
        with scoped(*facts):
            c = None
            for _ in range(40):
                c = inner_ite(goal)
                if c is None:
                    break
                v = st.truth(c)
                if v is None:
                    break
                goal = tm.subst_cond(goal, c, v)
            ins = list(st.inst())
        if goal is tm.TRUE:
            return True
        if c is not None:
            return self._struct(tm.subst_cond(goal, c, True), facts + [c], deadline, depth - 1, memo) and self._struct(
                tm.subst_cond(goal, c, False), facts + [tm.not_(c)], deadline, depth - 1, memo)
        p = st.path.clone()
        for f in facts + ins:
            p.add(f)
        if p.check([], 500, ground=True, nra=False)[0] == z3.unsat:
            return True
        if solve.prove(p, goal, 3000)[0] == "proved":
            return True
        cs = [f for f in facts if f.op in ("le", "lt", "not") and not any(x.op in ("sum", "forall", "exists") for x in tm.subterms(f))]
        if cs and any(solve.prove(st.path, tm.implies(tm.and_(*cs), g), 2000)[0] == "proved" for g in (goal, tm.FALSE)):
            return True
        if goal.op == "or":
            # quantified alternatives become facts
            q = [g for g in goal.args if g.op in ("forall", "exists") or (g.op == "not" and g.args[0].op in ("forall", "exists"))]
            rest = [g for g in goal.args if g not in q]
            if q and rest:
                return self._struct(tm.or_(*rest), facts + [tm.not_(g) for g in q], deadline, depth - 1, memo)
        if goal.op == "eq" and goal.args[0].sort != "B":
            return self._sumext(goal, facts, deadline)
        return False

    def _byites(self, goal, facts, deadline, depth):
        if time.time() > deadline:
            return False
        st = core.cur()
        with scoped(*facts):
            for _ in range(40):
                c = inner_ite(goal)
                if c is None:
                    break
                v = st.truth(c)
                if v is None:
                    break
                goal = tm.subst_cond(goal, c, v)
            else:
                return False
            ins = list(st.inst())
        if c is not None:
            if depth == 0:
                return False
            return self._byites(tm.subst_cond(goal, c, True), facts + [c], deadline, depth - 1) and self._byites(
                tm.subst_cond(goal, c, False), facts + [tm.not_(c)], deadline, depth - 1)
        if goal is tm.TRUE:
            return True
        p = st.path.clone()
        for f in facts + ins:
            p.add(f)
        if p.check([], 500, ground=True, nra=False)[0] == z3.unsat:
            return True
        if solve.prove(p, goal, 3000)[0] == "proved":
            return True
        return self._sumext(goal, facts, deadline) if goal.op == "eq" and any(t.op == "sum" for t in tm.subterms(goal)) and depth > 6 else False

    def _elem(self, name, f, *args):
        args = [a if not isinstance(a, np.ndarray) else arr.from_np(a) for a in args]
        if all(not isinstance(a, SArrBase) for a in args):
            self._prove(name, f(*[as_num(a) if not isinstance(a, (SBool, bool, np.bool_)) else a for a in args]))
            return
        ar = [to_sarr(a) for a in args]
        nds = {a.ndim for a in ar if a.ndim > 0}
        dims = arr.bcast_dims(*[a.dims for a in ar])
        n0 = len(self.obl)
        for idx, facts in arr.generic(dims, "g"):
            self._cell(name, lambda: f(*[
                v if isinstance(v, (SBool, bool, np.bool_)) else as_num(v)
                for v in (a.at(arr.bidx(a.dims, dims)(idx)) for a in ar)]), facts)
        if len(self.obl) == n0:
            self._record(name, "proved", "empty-domain", 0.0)

    def _cell(self, name, goal, facts):
        """prove goal() at a generic element, by case analysis on element conditions"""
        st = core.cur()
        stack = [list(facts)]
        n = 0
        while stack:
            fs = stack.pop()
            n += 1
            if n > 300:
                raise Unsupported("too many element cases")
            if time.time() > st.deadline:
                raise Budget()
            old = st.splitting
            st.splitting = True
            try:
                with scoped(*fs):
                    g = goal()
                    ins = list(st.inst())
            except core.NeedSplit as e:
                stack.append(fs + [tm.not_(e.cond)])
                stack.append(fs + [e.cond])
                continue
            finally:
                st.splitting = old
            self._prove(name, g, fs + ins)

    def eq(self, name, a, b, rtol=None, atol=None):
        sa, sb = np.shape(a) if isinstance(a, (list, tuple)) else getattr(a, "shape", ()), getattr(b, "shape", ())
        if isinstance(b, (list, tuple)):
            sb = np.shape(b)
        if len(sa) != len(sb):
            self._prove(name + " [rank]", tm.FALSE)
            return
        if isinstance(a, SArrBase) or isinstance(b, SArrBase):
            A, B = to_sarr(a), to_sarr(b)
            for k, (x, y) in enumerate(zip(A.dims, B.dims)):
                if not arr.same_dim(x, y):
                    goal = tm.eq(arr.dsize(x), arr.dsize(y))
                    if goal is tm.TRUE and not (isinstance(x, arr.SDim) and isinstance(y, arr.SDim)):
                        raise Unsupported("comparison of differently structured dimensions")
                    self._prove(f"{name} [shape axis {k}]", goal)
                    if self.obl[-1]["status"] != "proved":
                        return
                    core.CUR.path.add(goal)

        def f(x, y):
            if isinstance(x, (SBool, bool, np.bool_)) and isinstance(y, (SBool, bool, np.bool_)):
                return tm.eq(bterm(x), bterm(y))
            return core.c_same(as_num(x), as_num(y))

        self._elem(name, f, a, b)

    same = eq

    def le(self, name, a, b, tol=0.0):
        self._elem(name, lambda x, y: core.c_le(as_num(x), as_num(y)), a, b)

    def lt(self, name, a, b):
        self._elem(name, lambda x, y: core.c_lt(as_num(x), as_num(y)), a, b)

    def ok(self, name, c, msg=""):
        if isinstance(c, SArrBase):
            self._elem(name, lambda x: bterm(x), c)
            return
        self._prove(name, bterm(c))

    def raises(self, name, exc, fn):
        try:
            r = fn()
        except exc:
            self._record(name, "proved", "path", 0.0)
            return None
        self._prove(name + " [no exception raised]", tm.FALSE)
        return r

    def attempt(self, fn):
        try:
            return fn(), None
        except Exception as e:
            if not from_raise(e):
                raise
            return None, e

    # --------------------------------------------------------- calculus
    def deriv(self, f, x):
        """elementwise derivative d f(x)[i] / d x[i]  (x: a declared real input)"""
        y = f(x)
        if y.ndim != x.ndim:
            raise Unsupported("deriv: ranks differ")
        nm = "x_" + x.buf.name

        def val(idx):
            return Num(self._diff(as_num(y.at(idx)), nm, loops.flat(idx)))

        return SArr(Buf(y.dims, val, "f", "deriv"))

    def jac(self, f, x):
        """d f(x)[i] / d x[j] for all element indices i, j: shape y.shape + x.shape; f scalar: x.shape"""
        y = f(x)
        nm = "x_" + x.buf.name
        if len(x.dims) != len(x.buf.dims):
            raise Unsupported("derivative with respect to a view")
        if not isinstance(y, SArrBase):
            y = as_num(y)
            return SArr(Buf(list(x.dims), lambda idx: Num(self._diff(y, nm, loops.flat(idx))), "f", "grad"))
        n = y.ndim

        def val(idx):
            return Num(self._diff(as_num(y.at(idx[:n])), nm, loops.flat(idx[n:])))

        return SArr(Buf(list(y.dims) + list(x.dims), val, "f", "jac"))

    def _diff(self, v, nm, idx):
        if v.k is not None and core.cur().truth(tm.eq(v.k, core.FIN)) is not True:
            raise Unsupported("derivative of a possibly non-finite value")
        try:
            return tm.diff(v.t, nm, idx)
        except tm.NoDiff as e:
            raise Unsupported(f"no derivative rule for {e}")

    # --------------------------------------------------------- models
    def model_inputs(self, p, m, goal=None):
        """values of the declared inputs under the solver's model (dims minimised when possible)"""
        try:
            if m is None:
                r, m = p.check([tm.not_(goal)] if goal is not None else [], 3000)
                if m is None:
                    r, m = p.check([], 3000)
            if m is None:
                return None
            small = []
            for key, kind, info in self.inputs:
                if key.startswith("dim:") and kind == "int":
                    small.append(tm.le(info, tm.const(6)))
            if small:
                r2, m2 = p.check(([tm.not_(goal)] if goal is not None else []) + small, 3000)
                if m2 is not None:
                    m = m2
            return self._extract(m)
        except z3.Z3Exception:
            return None

    def _extract(self, m):
        out = {}

        def ev(t):
            v = m.eval(solve.tr(t), model_completion=True)
            if z3.is_true(v) or z3.is_false(v):
                return z3.is_true(v)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(12).as_fraction())
            return 0.5

        for key, kind, info in self.inputs:
            if kind == "const":
                out[key] = info
            elif kind in ("int", "bool"):
                out[key] = ev(info)
            else:
                f, dims, sort, kinds = info
                ns = [ev(d) for d in dims]
                tot = 1
                for n in ns:
                    tot *= max(int(n), 0)
                if tot > 400:
                    continue
                data = []
                for idx in np.ndindex(*[int(n) for n in ns]):
                    ix = [tm.const(i) for i in idx]
                    v = ev(tm.app(f, ix, sort))
                    if kinds is not None:
                        k = ev(tm.app(f + "_k", ix, "I"))
                        if k in (1, -1, 2) and k in kinds:
                            v = {1: "inf", -1: "-inf", 2: "nan"}[k]
                    data.append(float(v) if not isinstance(v, str) else v)
                out[key] = {"shape": [int(n) for n in ns], "data": data} if dims else data[0]
        return out


def inner_ite(t):
    """condition of an ite of t whose condition contains no ite and no bound variable"""
    for x in tm.subterms(t):
        if x.op == "ite":
            c = x.args[0]
            if not any(v.op == "bvar" for v in c.fv) and not any(y.op == "ite" for y in tm.subterms(c)):
                return c
    return None


def from_raise(e):
    """was the exception raised by an explicit raise statement of the code under test
    (or by one of the numpy-semantics rules of the shims)?"""
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return False
    last = tb[-1]
    if isinstance(e, (AttributeError, NotImplementedError, RecursionError, AssertionError, ImportError)):
        return "/pyvbmc/" in last.filename and (last.line or "").strip().startswith(("raise", "assert"))
    if "/vc/" in last.filename or "/pyvbmc/" in last.filename or "/contracts/" in last.filename:
        return (last.line or "").strip().startswith("raise") or isinstance(e, (KeyError, IndexError))
    return False


def run_sym(c, case, shapes, budget, maxpaths=400):
    """explore all paths of contract c; returns a result dict"""
    t0 = time.time()
    deadline = t0 + budget
    stack = [[]]
    obl = []
    paths = 0
    complete = 0
    status = None
    reason = ""
    for k in solve.STATS:
        solve.STATS[k] = 0 if isinstance(solve.STATS[k], int) else 0.0
    loops.LOOPS.clear()
    try:
        while stack:
            dec = stack.pop()
            tm.reset_fresh()
            tm.SIGNS.clear()
            norm.ORTHO.clear()
            arr._named_dims.clear()
            st = core.State(dec, deadline)
            st.serial0 = core.SERIAL[0]
            core.set_cur(st)
            E = SymEnv(case, shapes)
            end = False
            try:
                c.fn(E)
                complete += 1
            except PathEnd:
                end = True
            except Exception as e:
                tbs = "".join(traceback.format_exception(e)[-4:])
                if from_raise(e):
                    if st.path.check([], 3000)[0] != z3.unsat:
                        E._record("no unexpected exception", "refuted", "path", 0.0, E.model_inputs(st.path, None), f"{type(e).__name__}: {e} " + tbs[-700:])
                else:
                    raise Unsupported("engine: " + tbs[-900:])
            finally:
                E.unpatch()
                core.set_cur(None)
            paths += 1
            for o in E.obl:
                o["path"] = paths
            for nm, good in st.records:
                E.obl.append(dict(name=nm, status="proved" if good else "unknown", backend="loop-rule", t=0.0, model=None, note="", path=paths))
            obl += E.obl
            tr = st.trail
            for i in range(len(dec), len(tr)):
                if tr[i][1]:
                    stack.append([x for x, _ in tr[:i]] + [not tr[i][0]])
            if paths > maxpaths:
                raise Budget()
            if time.time() > deadline:
                raise Budget()
    except Unsupported as e:
        status, reason = "unsupported", str(e)[:1500]
        tb = traceback.extract_tb(e.__traceback__)
        locs = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb if "/pyvbmc/" in f.filename or "/contracts/" in f.filename]
        reason += " @ " + ",".join(locs[-4:])
    except Budget:
        status, reason = "budget", f"exploration budget exhausted after {paths} paths"
    except RecursionError:
        status, reason = "unsupported", "recursion limit"
    finally:
        core.set_cur(None)
    if status is None:
        if complete == 0:
            status, reason = "vacuous", "no path satisfies the precondition"
        elif not obl:
            status, reason = "vacuous", "no obligation generated"
        elif all(o["status"] == "proved" for o in obl):
            status = "proved"
        elif any(o["status"] == "refuted" for o in obl):
            status = "refuted"
        else:
            status = "unknown"
    return dict(status=status, reason=reason, obligations=obl, paths=paths, wall=time.time() - t0,
                stats=dict(solve.STATS), loops={f"{k[0]}:{k[1]}": v for k, v in loops.LOOPS.items()})
