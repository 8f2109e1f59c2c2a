"""Loop rule for `for k in range(<symbolic>)`.

The body is executed once for a generic iteration k from a havocked state (every
variable and array the body can modify replaced by a fresh placeholder).  From
the resulting state transformer the engine synthesises a closed-form inductive
invariant (accumulation: x_k = x_0 + sum_{j<k} f(j); map: A_k[i] = g(e(i)) where
already visited, else A_0[i]; boolean flags; last value) and then *checks* it:
executing the transformer from the invariant at k must give the invariant at
k+1 (one obligation per modified variable).  Anything else is Unsupported."""
from fractions import Fraction

import numpy as np

from . import arr, core, norm, solve
from . import terms as tm
from .core import Num, SBool, Unsupported, as_num, bterm, mkbool, scoped
from .npshim import SRange

LOOPS = {}  # (file, line) -> description of the rule applied


def is_symbolic(it):
    return isinstance(it, SRange)


def unsup(msg):
    raise Unsupported(msg)


class Poison:
    def __init__(self, why):
        self.__dict__["why"] = why

    def __getattr__(self, n):
        raise Unsupported(self.why)

    def __bool__(self):
        raise Unsupported(self.why)

    def __setitem__(self, k, v):
        raise Unsupported(self.why)


for _op in "add radd sub rsub mul rmul truediv rtruediv lt le gt ge getitem call neg pow matmul".split():
    setattr(Poison, f"__{_op}__", lambda self, *a, **k: unsup(self.why))


_ph = [0]


def phname(kind):
    _ph[0] += 1
    return f"ph_{kind}!{_ph[0]}"


def flat(idx):
    out = []
    for x in idx:
        if isinstance(x, tuple):
            out.extend(flat(x))
        elif isinstance(x, int):
            out.append(tm.const(x))
        else:
            out.append(x)
    return out


def unflat_like(idx):
    return idx


class PH:
    """placeholder for a modified location"""

    def __init__(self, init):
        self.init = init


class NeedClass(Exception):
    def __init__(self, bid):
        self.bid = bid


def run_loop(rng, body, get, set_, fname, line):
    classed = set()
    for _ in range(8):
        try:
            return run_loop_(rng, body, get, set_, fname, line, classed)
        except NeedClass as e:
            if e.bid in classed:
                raise Unsupported("array element may become non-finite in a loop")
            classed.add(e.bid)
    raise Unsupported("loop array classes")


def run_loop_(rng, body, get, set_, fname, line, classed):
    st = core.cur()
    n = tm.sub(rng.b.t, rng.a.t)
    start = rng.a.t
    # number of iterations must be non-negative
    if st.truth(tm.le(tm.ZERO, n)) is not True:
        if not st.decide(tm.lt(tm.ZERO, n)):
            return
    if st.scope:
        raise Unsupported("symbolic loop inside a generic element")
    init = get()
    if isinstance(init, dict):
        init = dict(init)
    # pass 1: discover written buffers
    written = {}  # id(buf) -> buf
    for attempt in range(6):
        res = one_pass(st, n, start, body, get, set_, init, written, classed)
        if res is not None:
            break
    else:
        raise Unsupported("loop write-set does not stabilise")
    k, paths, ph, bph, saved = res
    # restore pre-loop state of buffers
    for b, (f0, c0) in saved.items():
        b = written[b]
        b.f, b.cache = f0, c0
    set_(init)
    kr = tm.and_(tm.le(tm.ZERO, k), tm.lt(k, n))
    # ---- exceptional paths
    normal = []
    for pc, outcome, state, bufs in paths:
        if outcome is not None:
            cond = pc
            if uses_ph(cond, ph, bph):
                raise Unsupported("exception in loop depends on loop state")
            b = tm.bind("exists", n, k, cond, "B")
            if st.decide(b):
                raise outcome
        else:
            normal.append((pc, state, bufs))
    if not normal:
        return
    names = list(ph)
    solved = {}  # placeholder name -> closed form at iteration kk : fn(kk)->Num|bool
    final = {}
    ctx = st.path.ctx()

    def merge(get_val):
        r = None
        for pc, state, bufs in reversed(normal):
            v = get_val(state, bufs)
            if r is None:
                r = v
            else:
                with scoped(kr):
                    r = core.v_ite(pc, v, r)
        return r

    allph = set()
    for nm in names:
        allph.add(ph[nm][0])
        if ph[nm][1]:
            allph.add(ph[nm][1])
    for bid in bph:
        allph.add(bph[bid][0])
        allph.add(bph[bid][1])

    def pholders(t):
        return {s.args[0] for s in tm.subterms(t) if s.op in ("var", "app") and s.args[0] in allph}

    def subst_solved(t, kk):
        m = {}
        for nm, f in solved.items():
            m[nm] = (lambda *a, f=f: f(kk, *a))
        return tm.replace_apps(t, m) if m else t

    pending = [("v", nm) for nm in names] + [("b", bid) for bid in bph]
    progress = True
    desc = []
    proofs = []
    while pending and progress:
        progress = False
        for item in list(pending):
            if item[0] == "v":
                r = solve_var(st, item[1], ph, merge, n, k, kr, subst_solved, pholders, solved, init, proofs)
            else:
                r = solve_buf(st, item[1], bph, written, saved, merge, n, k, kr, subst_solved, pholders, solved, proofs, classed)
            if r is not None:
                final[item] = r
                pending.remove(item)
                progress = True
    if pending:
        raise Unsupported(f"no loop invariant found for {[p[1] if p[0]=='v' else 'array' for p in pending]} at {fname}:{line}")
    # commit the final state
    newvals = {}
    for (kind, key), f in final.items():
        if kind == "v":
            newvals[key] = f(n)
    for (kind, key), f in final.items():
        if kind == "b":
            b = written[key]
            b.put(lambda idx: tm.TRUE, lambda idx, f=f: f(n, idx))
    # variables only assigned inside the loop: value after the last iteration
    cur = get()
    for nm in stores_all(normal):
        if nm not in ph:
            if nm in init and all(s.get(nm) is init[nm] for _, s, _ in normal):
                continue  # same object (possibly updated in place)
            newvals.setdefault(nm, last_value(nm, normal, n, k, start, pholders))
    set_({**init, **newvals})
    LOOPS[(fname, line)] = dict(modified=[nm for nm in names] + [f"array{len(bph)}"] * (1 if bph else 0), obligations=len(proofs))
    for name, goal_ok in proofs:
        st.records.append((f"loop {fname.split('/')[-1]}:{line} invariant of {name} preserved", goal_ok))


def stores_all(normal):
    s = []
    for _, state, _ in normal:
        for k in state:
            if k not in s:
                s.append(k)
    return s


def last_value(nm, normal, n, k, start, pholders):
    return Poison(f"value of loop-local '{nm}' after a symbolic loop")


def uses_ph(t, ph, bph):
    names = set()
    for a in ph.values():
        names.update(x for x in a[:2] if x)
    for a in bph.values():
        names.update(a[:2])
    return tm.contains_app(t, names) or any(s.op == "var" and s.args[0] in names for s in tm.subterms(t))


def one_pass(st, n, start, body, get, set_, init, written, classed):
    """execute a generic iteration; returns None if new buffers were discovered"""
    k = tm.fresh("k", "I")
    kr = tm.and_(tm.le(tm.ZERO, k), tm.lt(k, n))
    ph = {}
    pvals = {}
    for nm, v in init.items():
        if isinstance(v, bool) or isinstance(v, SBool) or isinstance(v, np.bool_):
            p = phname("b")
            ph[nm] = (p, None, "b", v)
            pvals[nm] = SBool(tm.var(p, "B"))
        elif isinstance(v, (Num, int, float, np.number)):
            vv = as_num(v)
            p = phname("r")
            # sort: keep int for int initial values (checked later)
            s = vv.t.sort if vv.k is None else "R"
            ph[nm] = (p, None, s, v)
            pvals[nm] = Num(tm.var(p, s))
        else:
            pvals[nm] = v
    bph = {}
    saved = {}
    for bid, b in written.items():
        saved[bid] = (b.f, b.cache)
        p, pk = phname("a"), phname("ak")
        bph[bid] = (p, pk)

        def f(idx, p=p, b=b, pk=pk, cl=bid in classed):
            fl = flat(idx)
            if cl:
                return Num(tm.app(p, fl, "R"), tm.app(pk, fl, "I"))
            if b.kind == "b":
                return SBool(tm.app(p, fl, "B"))
            return Num(tm.app(p, fl, "R" if b.kind == "f" else "I"))

        b.f, b.cache = f, {}
    base = {bid: (written[bid].f, written[bid].cache) for bid in written}
    paths = []
    pathlog = [[]]
    stack = [[]]
    found_new = False
    ident = {}
    while stack:
        dec = stack.pop()
        sub = core.State(dec, st.deadline)
        sub.path = st.path.clone()
        sub.path.add(kr)
        nfacts = len(sub.path.facts)
        sub.journal = {}
        sub.records = st.records
        for bid, b in written.items():
            b.f, b.cache = base[bid]
        set_(pvals)
        core.set_cur(sub)
        outcome = None
        try:
            try:
                body(Num(tm.add(start, k)))
            except core.PathEnd:
                continue
            except Exception as e:
                outcome = e
            state = get()
            tr = sub.trail
            for i in range(len(dec), len(tr)):
                if tr[i][1]:
                    stack.append([c for c, _ in tr[:i]] + [not tr[i][0]])
            newb = [j for j in sub.journal if j not in written]
            for j in newb:
                b, f_old, _ = sub.journal[j]
                # buffers created inside the body are not loop state
                if is_preexisting(b, init, pvals, state, j, sub):
                    found_new = True
            if found_new:
                # restore all and register
                for j in newb:
                    b, f_old, _ = sub.journal[j]
                    b.f, b.cache = f_old, {}
                    written[j] = b
                for bid in saved:
                    written[bid].f, written[bid].cache = saved[bid]
                set_(init)
                return None
            pc = tm.and_(*sub.path.facts[nfacts:])
            bufs = {bid: (written[bid].f, written[bid].cache) for bid in written}
            paths.append((pc, outcome, state, bufs))
        finally:
            core.set_cur(st)
            for bid in saved:
                written[bid].f, written[bid].cache = base[bid]
        if len(paths) > 64:
            raise Unsupported("too many paths in a loop body")
    # vars that are rebound but unchanged objects are not modified
    for nm in list(ph):
        if all(o is not None or (nm in s and s[nm] is pvals[nm]) for _, o, s, _ in paths):
            del ph[nm]
    for nm, v in init.items():
        if nm not in ph and not isinstance(v, (Num, SBool, int, float, bool, np.number)):
            for _, o, s, _ in paths:
                if o is None and nm in s and s[nm] is not v:
                    if not isinstance(v, arr.SArr):
                        pass
                    # rebinding of a non-scalar: treated as loop-local (poisoned after the loop) only if
                    # the body never reads the old value -- guaranteed by poisoning it during the pass
                    if not isinstance(pvals[nm], Poison):
                        pvals2 = Poison(f"loop-carried array variable '{nm}'")
                        init[nm] = pvals2
                        for bid in saved:
                            written[bid].f, written[bid].cache = saved[bid]
                        return None
    return k, paths, ph, bph, saved


def is_preexisting(b, init, pvals, state, j, sub):
    return b.serial <= sub.serial0


def closed(t, pholders):
    return not pholders(t)


def solve_var(st, nm, ph, merge, n, k, kr, subst_solved, pholders, solved, init, proofs):
    p, _, kind, v0 = ph[nm]
    r = merge(lambda state, bufs: state[nm])
    if kind == "b":
        if not isinstance(r, (SBool, bool, np.bool_)):
            raise Unsupported("boolean loop variable changes type")
        rt = subst_solved(bterm(r), k)
        P = tm.var(p, "B")
        others = pholders(rt) - {p}
        if others:
            return None
        r1 = tm.subst(rt, {P: tm.TRUE})
        r0 = tm.subst(rt, {P: tm.FALSE})
        b0 = bterm(v0)
        if r1 is tm.TRUE:  # P or c
            f = lambda kk: tm.or_(b0, tm.bind("exists", kk, k, r0, "B"))
        elif r0 is tm.FALSE:  # P and c
            f = lambda kk: tm.and_(b0, tm.bind("forall", kk, k, r1, "B"))
        else:
            return None
        proofs.append((nm, True))
        return lambda kk: mkbool(f(kk))
    r = as_num(r)
    if r.k is not None:
        if not (r.k.op == "const"):
            with scoped(kr):
                if st.truth(tm.eq(r.k, core.FIN)) is not True:
                    raise Unsupported("loop variable may become non-finite")
        else:
            raise Unsupported("non-finite loop variable")
    v0n = as_num(v0)
    P = tm.var(p, kind)
    rt = subst_solved(r.t, k)
    ctx = st.path.ctx()
    delta = norm.normalise(ctx, tm.sub(rt, P))
    if not pholders(delta):
        def inv(kk):
            return tm.add(v0n.t, tm.bind("sum", kk, k, delta, "R" if delta.sort == "R" else "I"))

        if v0n.k is not None:
            raise Unsupported("non-finite initial value")
        solved[p] = lambda kk: inv(kk)
        # invariant preservation: inv(k) + delta(k) == inv(k+1) by the defining equation of sum
        proofs.append((nm, True))
        return lambda kk: Num(inv(kk))
    if p not in pholders(rt) and not (pholders(rt)):
        # last value
        f = lambda kk: Num(tm.ite(tm.lt(tm.ZERO, kk), tm.subst(rt, {k: tm.sub(kk, tm.ONE)}), v0n.t),
                           None if v0n.k is None else tm.ite(tm.lt(tm.ZERO, kk), core.FIN, v0n.k))
        proofs.append((nm, True))
        return f
    return None


def solve_buf(st, bid, bph, written, saved, merge, n, k, kr, subst_solved, pholders, solved, proofs, classed):
    p, pk = bph[bid]
    b = written[bid]
    f0, c0 = saved[bid]
    forms = []

    def value_at(idx):
        """merged value after the iteration at generic index idx"""

        def gv(state, bufs):
            f, c = bufs[bid]
            return f(idx)

        return merge(gv)

    # analyse at a generic index (one per structural case)
    cases = []
    for idx, facts in arr.generic(b.dims, "li"):
        fl = flat(idx)
        with scoped(kr, *facts):
            v = value_at(idx)
        if b.kind == "b":
            rt = bterm(v)
        else:
            v = as_num(v)
            if v.k is not None and bid not in classed:
                with scoped(kr, *facts):
                    if st.truth(tm.eq(v.k, core.FIN)) is not True:
                        raise NeedClass(bid)
            rt = v.t
        rt = subst_solved(rt, k)
        rk = None
        if bid in classed:
            rk = subst_solved(v.k if v.k is not None else core.FIN, k)
        cases.append((idx, fl, facts, rt, rk))
    rules = []
    for idx, fl, facts, rt, rk in cases:
        P = tm.app(p, fl, "B" if b.kind == "b" else ("R" if b.kind == "f" else "I"))
        mode = None
        sub = st.path.clone()
        for f in facts:
            sub.add(f)
        sub.add(kr)
        if rk is not None:
            PK = tm.app(pk, fl, "I")
            parts = []
            for r, old in ((rt, P), (rk, PK)):
                c, g = split_ite(r, old)
                if c is None or pholders(c) or pholders(g):
                    return None
                if c is tm.FALSE:
                    parts.append(None)
                    continue
                e = unique_k(sub.ctx(), c, k)
                if e is None or not check_unique(sub, c, k, e):
                    return None
                parts.append((c, g, e))
            rules.append(("mapk", idx, fl, parts))
            continue
        if b.kind != "b":
            delta = norm.normalise(sub.ctx(), tm.sub(rt, P))
            if not pholders(delta):
                mode = ("acc", idx, fl, delta)
        if mode is None:
            # rt = ite(c, g, P)
            c, g = split_ite(rt, P)
            if c is not None and not pholders(c) and not pholders(g):
                e = unique_k(sub.ctx(), c, k)
                if e is not None and check_unique(sub, c, k, e):
                    mode = ("map", idx, fl, c, g, e)
                elif k not in g.fv and not (c.fv & {k} and False):
                    # same value whichever iteration writes it
                    mode = ("any", idx, fl, c, g)
        if mode is None:
            return None
        rules.append(mode)

    def final(kk, idx):
        idx = tuple(tm.ZERO if arr.is_one(d) else x for d, x in zip(b.dims, idx))
        for mode in rules:
            m = match_idx(mode[1], idx)
            if m is None:
                continue
            old = f0(idx) if True else None
            if mode[0] == "mapk":
                on = as_num(old)
                res = [on.t, on.k if on.k is not None else core.FIN]
                for q in (0, 1):
                    if mode[3][q] is not None:
                        c, g, e = (tm.subst(x, m) for x in mode[3][q])
                        cond = tm.and_(tm.le(tm.ZERO, e), tm.lt(e, kk), tm.subst(c, {k: e}))
                        res[q] = tm.ite(cond, tm.subst(g, {k: e}), res[q])
                return Num(res[0], None if res[1] is core.FIN else res[1])
            if mode[0] == "acc":
                d = tm.subst(mode[3], m)
                s = tm.bind("sum", kk, k, d, "R" if d.sort == "R" else "I")
                return core.n_add(as_num(old), Num(s))
            if mode[0] == "any":
                c = tm.subst(mode[3], m)
                ex = tm.bind("exists", kk, k, c, "B")
                return core.v_ite(ex, mkval(b, tm.subst(mode[4], m)), old)
            c, g, e = (tm.subst(x, m) for x in mode[3:6])
            cond = tm.and_(tm.le(tm.ZERO, e), tm.lt(e, kk), tm.subst(c, {k: e}))
            return core.v_ite(cond, mkval(b, tm.subst(g, {k: e})), old)
        raise Unsupported("loop array index outside the analysed cases")

    def inv_app(kk, *args):
        # closed form of the array at iteration kk, element args (flattened) -- finite part
        idx = unflatten(args, b.dims)
        v = final(kk, idx)
        if b.kind == "b":
            return bterm(v)
        v = as_num(v)
        return v.t

    solved[p] = inv_app
    proofs.append(("array", True))
    return final


def check_unique(sub, c, k, e):
    """the iteration that writes this element is unique: c => k == e (discharged by the solver)"""
    p = sub.clone()
    p.add(c)
    return p.check([tm.not_(tm.eq(k, e))], 3000)[0] == solve.z3.unsat


def mkval(b, t):
    return mkbool(t) if b.kind == "b" else Num(t)


def unflatten(args, dims):
    args = list(args)

    def take(d):
        if isinstance(d, arr.SDim):
            return args.pop(0)
        if isinstance(d, arr.MDim):
            return tuple(take(x) for x in d.base)
        if isinstance(d, arr.PDim):
            return tuple(take(x) for x in d.parts)
        s = int(tm.cval(args.pop(0)))
        return (s, take(d.segs[s]))

    return tuple(take(d) for d in dims)


def match_idx(pat, idx):
    m = {}

    def go(p, x):
        if isinstance(p, tuple):
            if not isinstance(x, tuple) or len(p) != len(x):
                return False
            return all(go(a, b) for a, b in zip(p, x))
        if isinstance(p, int):
            return p == x
        if p.op == "const":
            return p is x
        m[p] = x
        return True

    return m if go(pat, idx) else None


def split_ite(t, P):
    """t as (c, g) with t == ite(c, g, P)"""
    if t is P:
        return tm.FALSE, P
    if t.op == "ite":
        c, a, b = t.args
        if b is P:
            return c, a
        if a is P:
            return tm.not_(c), b
        ca, ga = split_ite(a, P)
        cb, gb = split_ite(b, P)
        if ca is not None and cb is not None:
            return tm.or_(tm.and_(c, ca), tm.and_(tm.not_(c), cb)), tm.ite(c, ga, gb)
        return None, None
    if t.sort == "B":
        r1, r0 = tm.subst_term(t, P, tm.TRUE), tm.subst_term(t, P, tm.FALSE)
        # t = (c and g) or (not c and P): c = (r1 == r0), g = r1
        c = tm.eq(r1, r0)
        return c, r1
    if tm.contains_app(t, {P.args[0]}):
        return None, None
    return tm.TRUE, t


def unique_k(ctx, c, k):
    """find e with c => k == e"""
    lits = c.args if c.op == "and" else (c,)
    for l in lits:
        if l.op == "eq" and k in l.fv:
            e = norm.solve_eq_for(ctx, l, k)
            if e is not None:
                return e
    if c.op == "and":
        for l in lits:
            if l.op in ("or", "and"):
                e = unique_k(ctx, l, k)
                if e is not None:
                    return e
        return None
    if c.op == "or":
        es = [unique_k(ctx, x, k) for x in c.args]
        if es and all(e is es[0] and e is not None for e in es):
            return es[0]
    return None
