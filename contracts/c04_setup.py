from vc.harness import NS, contract

VM = "pyvbmc.vbmc.vbmc"
T = ["VBMC._bounds_check"]


class Quiet:
    def warning(self, *a, **k):
        pass

    info = debug = warning


def given(E, D, N0):
    """arbitrary user input: starting points, hard bounds (finite, infinite, mixed), plausible bounds"""
    np = E.np
    kind = E.case.get("hard", "mixed")
    if E.sym:
        x0 = E.real("x0", N0, D)
        lb = E.ext("lb", 1, D, classes=dict(none=(-1,), mixed=(0, -1), any=(0, -1, 1, 2))[kind])
        ub = E.ext("ub", 1, D, classes=dict(none=(1,), mixed=(0, 1), any=(0, -1, 1, 2))[kind])
        cl = (0,) if E.case.get("pb", "real") == "real" else (0, 1, -1, 2)
        plb, pub = E.ext("plb", 1, D, classes=cl), E.ext("pub", 1, D, classes=cl)
    else:
        sc = E.choice("scale", [1.0, 1.0, 100.0, 1e-3])
        c = E.real("centre", 1, D)
        p = np.sort(np.abs(E.real("steps", 3, D)), axis=0)
        lb, ub = c - 1.0 - p[2], c + 1.0 + p[1]
        plb, pub = c - 0.5 * E.unit("pl", 1, D), c + 0.5 * E.unit("pu", 1, D)
        x0 = c + (lb - c) * E.unit("xa", N0, D) * E.choice("xs", [0.3, 0.5, 1.0]) + (ub - c) * E.unit("xb", N0, D) * 0.4
        what = E.choice("what", ["ok"] * 4 + ["on bound", "plausible on bound", "touch zero", "unordered", "tight", "outside", "same pb", "same column"])
        if what == "on bound":
            x0[0] = lb[0]
        if what == "plausible on bound":
            plb, pub = lb.copy(), ub.copy()
        if what == "touch zero":
            ub, pub, plb, x0, lb = ub - lb, pub - lb, plb - lb, x0 - lb, lb * 0
        if what == "unordered":
            plb, pub = pub, plb
        if what == "tight":
            ub = np.nextafter(lb, np.inf)
        if what == "outside":
            x0[0] = ub[0] + 1
        if what == "same pb":
            pub = plb.copy()
        if what == "same column":
            x0[:] = plb
        lb, ub, plb, pub, x0 = (v * sc for v in (lb, ub, plb, pub, x0))
        for d in range(D):
            h = E.choice(f"hard{d}", dict(none=["none"], mixed=["both", "both", "none", "lo", "hi"], any=["both", "none", "lo", "hi", "nan"])[kind])
            if h in ("none", "hi"):
                lb[0, d] = -np.inf
            if h in ("none", "lo"):
                ub[0, d] = np.inf
            if h == "nan":
                lb[0, d] = np.nan
        if E.case.get("pb") == "any":
            plb[0, 0] = E.choice("bad", [np.inf, -np.inf, np.nan, plb[0, 0]])
    return x0, lb, ub, plb, pub


def self_(E, D):
    return E.new(E.imp(VM).VBMC, logger=Quiet(), D=D)


def consistent(E, r, lb, ub, D, N0):
    """the guarantees of an accepted set-up"""
    np = E.np
    x, l, u, pl, pu = r
    for n, v in (("lower", l), ("upper", u), ("plausible lower", pl), ("plausible upper", pu)):
        E.ok(f"{n} bounds are a row of D numbers", tuple(int(s) for s in v.shape) == (1, D))
    E.same("hard lower bounds as given", l.ravel(), lb.ravel())
    E.same("hard upper bounds as given", u.ravel(), ub.ravel())
    E.ok("plausible bounds finite", np.isfinite(pl) & np.isfinite(pu))
    E.ok("lower < plausible lower", l < pl)
    E.ok("plausible lower < plausible upper", pl < pu)
    E.ok("plausible upper < upper", pu < u)
    E.ok("each variable bounded on both sides or on neither", np.isfinite(l) == np.isfinite(u))
    E.ok("starting points inside the plausible box", (x >= pl) & (x <= pu))
    E.ok("starting points strictly inside the hard bounds", (x > l) & (x < u))


def ineffective(E, lb, ub):
    """documented margin: a thousandth of the width (of 1000 for unbounded variables)"""
    np = E.np
    w = np.where(np.isinf(ub - lb), 1e3, ub - lb)
    return lb + 1e-3 * w, ub - 1e-3 * w


SH = [dict(D=1), dict(D=2)]


def bounds_consistent_or_refused(E):
    """every input is either refused with ValueError or becomes a consistent set-up; the user's
    arrays are never modified"""
    D, N0 = E.dim("D", 1, 3), E.case["N0"]
    x0, lb, ub, plb, pub = given(E, D, N0)
    keep = [v.copy() for v in (x0, lb, ub, plb, pub)]
    v = self_(E, D)
    r, e = E.attempt(lambda: v._bounds_check(x0, lb, ub, plb, pub))
    for n, a, b in zip(("x0", "lower bounds", "upper bounds", "plausible lower bounds", "plausible upper bounds"), (x0, lb, ub, plb, pub), keep):
        E.same(f"user's {n} unchanged", a, b)
    if e is not None:
        E.ok("refused with ValueError", isinstance(e, ValueError), repr(e))
        return
    consistent(E, r, lb, ub, D, N0)


for _n, _c, _s in (("bounds_consistent_or_refused", [dict(hard=h, pb="any", N0=1) for h in ("none", "mixed", "any")], SH),
                   ("bounds_consistent_or_refused_N2", [dict(hard=h, pb="any", N0=2) for h in ("none", "mixed")], SH[:1]),
                   ("bounds_consistent_or_refused_typical", [dict(hard=h, pb="real", N0=n, conc_only=1) for h in ("none", "mixed", "any") for n in (1, 2, 3)], SH[:1])):
    contract("C04", name=_n, targets=T, cases=_c, shapes=_s, trials=60)(bounds_consistent_or_refused)


@contract("C04", targets=T, cases=[dict(hard=h, N0=n) for h in ("none", "mixed") for n in (1, 2)], shapes=SH, trials=60)
def valid_input_kept(E):
    """input that already respects every documented condition is accepted and kept as it is"""
    np = E.np
    D, N0 = E.dim("D", 1, 3), E.case["N0"]
    x0, lb, ub, plb, pub = given(E, D, N0)
    le, ue = ineffective(E, lb, ub)
    E.assume(np.isfinite(lb) == np.isfinite(ub))
    E.assume((lb < ub) & (plb >= le) & (pub <= ue) & (plb < pub))
    E.assume((x0 > plb) & (x0 < pub) & (x0 > lb) & (x0 < ub))
    if E.sym:
        # a bound within the smallest positive double of zero counts as zero
        E.assume((lb == 0) | (np.abs(lb) > 1e-300))
        E.assume((ub == 0) | (np.abs(ub) > 1e-300))
        E.assume((lb == -np.inf) | (ub - lb > 1e-200))
    r, e = E.attempt(lambda: self_(E, D)._bounds_check(x0, lb, ub, plb, pub))
    E.ok("accepted", e is None, repr(e))
    if e is None:
        for n, a, b in zip(("starting points", "lower bounds", "upper bounds", "plausible lower bounds", "plausible upper bounds"), r, (x0, lb, ub, plb, pub)):
            E.same(f"{n} kept", a, b)


def missing_plausible_bounds(E):
    """with plausible bounds left out the same guarantee holds; they are estimated from the starting
    set or taken from the hard bounds"""
    D, N0 = E.dim("D", 1, 3), E.case["N0"]
    x0, lb, ub, plb, pub = given(E, D, N0)
    m = E.case["miss"]
    plb, pub = None if m != "pub" else plb, None if m != "plb" else pub
    arrs = dict(x0=x0, lb=lb, ub=ub, plb=plb, pub=pub)
    keep = {k: v.copy() for k, v in arrs.items() if v is not None}
    r, e = E.attempt(lambda: self_(E, D)._bounds_check(x0, lb, ub, plb, pub))
    for k in keep:
        E.same(f"user's {k} unchanged", arrs[k], keep[k])
    if e is not None:
        E.ok("refused with ValueError", isinstance(e, ValueError), repr(e))
        return
    consistent(E, r, lb, ub, D, N0)


for _n, _c, _s in (("missing_plausible_bounds", [dict(hard=h, N0=1, miss=m) for h in ("none", "mixed") for m in ("plb", "pub", "both")], SH),
                   ("missing_plausible_bounds_N2", [dict(hard=h, N0=2, miss=m) for h in ("none", "mixed") for m in ("plb", "pub", "both")], SH[:1]),
                   ("missing_plausible_bounds_N3", [dict(hard=h, N0=3, miss=m) for h in ("none", "mixed") for m in ("pub", "both")], SH[:1])):
    contract("C04", name=_n, targets=T, cases=_c, shapes=_s, trials=60)(missing_plausible_bounds)


@contract("C04", targets=["VBMC.__init__", "VBMC._bounds_check", "VBMC._init_optim_state"], cases=[dict(hard=h, x0=x, shape=s) for h in ("none", "mixed") for x in ("given", "none", "nan") for s in ("row", "flat")], sym=False, trials=15)
def constructor(E):
    """the whole constructor (run-time evaluation): an accepted problem has transform, starting point
    and search boxes consistent with the bounds; user's arrays unchanged; otherwise ValueError"""
    np = E.np
    import logging

    logging.disable(logging.CRITICAL)
    D, N0 = E.dim("D", 1, 3), E.int("N0", 1, 3)
    x0, lb, ub, plb, pub = given(E, D, N0)
    if E.case["x0"] == "none":
        x0 = None
    elif E.case["x0"] == "nan":
        x0 = np.full((1, D), np.nan)
    if E.case["shape"] == "flat":
        lb, ub, plb, pub = (v.ravel() for v in (lb, ub, plb, pub))
    ar = dict(x0=x0, lb=lb, ub=ub, plb=plb, pub=pub)
    keep = {k: v.copy() for k, v in ar.items() if v is not None}
    VBMC = E.imp("pyvbmc.vbmc").VBMC
    v, e = E.attempt(lambda: VBMC(lambda x: -0.5 * np.sum(x**2), x0, lb, ub, plb, pub, options=dict(display="off")))
    for k in keep:
        E.same(f"user's {k} unchanged", ar[k], keep[k])
    if e is not None:
        E.ok("refused with ValueError", isinstance(e, ValueError), repr(e))
        return
    if E.case["x0"] == "given":
        consistent(E, (v.parameter_transformer.inverse(v.x0), v.lower_bounds, v.upper_bounds, v.plausible_lower_bounds - 1e-9 * abs(v.plausible_lower_bounds), v.plausible_upper_bounds + 1e-9 * abs(v.plausible_upper_bounds)), lb, ub, D, N0)
    else:
        E.eq("starting point is the centre of the plausible box", v.parameter_transformer.inverse(v.x0), 0.5 * (v.plausible_lower_bounds + v.plausible_upper_bounds), rtol=1e-6)
    t = v.parameter_transformer
    E.same("transform uses the hard bounds", t.lb_orig, v.lower_bounds)
    E.same("transform uses the hard bounds (upper)", t.ub_orig, v.upper_bounds)
    E.ok("transformed starting points finite", np.isfinite(v.x0))
    o = v.optim_state
    for n, b in (("plb", v.plausible_lower_bounds), ("pub", v.plausible_upper_bounds)):
        E.eq(f"{n} in inference space", o[f"{n}_tran"], t(b))
        E.eq(f"{n} in the original space", o[f"{n}_orig"], b)
    w = o["pub_tran"] - o["plb_tran"]
    E.ok("plausible box has positive width in inference space", w > 0)
    E.ok("search box contains the plausible box", (o["lb_search"] <= o["plb_tran"]) & (o["ub_search"] >= o["pub_tran"]))
    E.ok("search box inside the hard bounds", (o["lb_search"] >= o["lb_tran"]) & (o["ub_search"] <= o["ub_tran"]))
    E.eq("posterior dimension", v.vp.D, D)
    E.ok("same transform everywhere", v.vp.parameter_transformer == t and v.function_logger.parameter_transformer == t)
