import os

from vc.harness import NS, contract

OM = "pyvbmc.vbmc.options"
DIR = "option_configs"
BASIC, ADV = DIR + "/basic_vbmc_options.ini", DIR + "/advanced_vbmc_options.ini"
T = ["Options.__init__", "Options.load_options_file", "Options.validate_option_names", "Options.__setitem__", "Options.__delitem__", "Options.update_defaults"]


def names(E):
    M = E.imp(OM)
    return [(str(k), f) for f in (BASIC, ADV) for k, _, _ in M._read_config_file(f)]


def build(E, user, D=3):
    O = E.imp(OM).Options(BASIC, {"D": D}, user)
    O.load_options_file(ADV, {"D": D})
    O.update_defaults()
    O.validate_option_names([BASIC, ADV])
    return O


def same(a, b):
    try:
        r = a == b
        return bool(r) if not hasattr(r, "all") else bool(r.all())
    except Exception:
        return type(a) is type(b)


def like(a, b):
    """equal defaults (function-valued defaults are re-created on every read)"""
    if callable(a) or (isinstance(a, list) and a and not isinstance(a[0], (str, int, float))):
        return type(a) is type(b)
    return same(a, b)


@contract("C12", targets=T, cases=[dict(half=h) for h in range(8)], trials=1)
def user_option_wins(E):
    """exhaustively over every option of both files: a value set by the user survives reading both
    default files and the dependent defaults; all other options keep their defaults. The value is
    arbitrary (symbolic): the code never inspects it."""
    ks = names(E)
    ref = build(E, None)
    for k, f in ks[E.case["half"]::8]:
        val = E.real("val_" + k)
        if k == "specify_target_noise":
            continue
        user = {k: val}
        O = build(E, user)
        E.ok(f"{k}: user value kept", O[k] is val)
        E.ok(f"{k}: recorded as user option", O["useroptions"] == {k})
        E.ok(f"{k}: get", O.get(k) is val)
        bad = [j for j, _ in ks if j != k and not like(ref[j], O[j])]
        E.ok(f"{k}: other options keep their defaults", not bad, str(bad))
        E.ok(f"{k}: user dictionary untouched", list(user) == [k] and user[k] is val)


@contract("C12", targets=T, cases=[dict(sub=s) for s in range(8)], trials=1)
def noisy_defaults(E):
    """with a noisy target the dependent defaults change, except those the user set"""
    ref = build(E, None)
    dep = ["max_fun_evals", "tol_stable_count", "active_sample_gp_update", "active_sample_vp_update", "search_acq_fcn"]
    for m in range(E.case["sub"], 32, 8):
        vals = {k: E.real(f"v{m}_{k}") for i, k in enumerate(dep) if m >> i & 1 and k not in ("max_fun_evals", "tol_stable_count")}
        vals.update({k: 77 + i for i, k in enumerate(dep[:2]) if m >> i & 1})
        O = build(E, dict(vals, specify_target_noise=True))
        for i, k in enumerate(dep):
            if k in vals:
                E.ok(f"{m} {k}: user value kept", O[k] is vals[k] or same(O[k], vals[k]))
            elif i < 2:
                E.ok(f"{m} {k}: 1.5 times the default", O[k] == -(-3 * ref[k] // 2))
            elif i < 4:
                E.ok(f"{m} {k}: switched on", O[k] is True)
            else:
                E.ok(f"{m} {k}: noisy acquisition", [type(a).__name__ for a in O[k]] == ["AcqFcnVIQR"])
        bad = [j for j, _ in names(E) if j not in dep + ["specify_target_noise"] and not like(ref[j], O[j])]
        E.ok(f"{m}: nothing else changes", not bad, str(bad))


@contract("C12", targets=T, trials=1)
def initialised_options_fixed(E):
    """after initialisation no way of writing to the options has an effect; unknown names are refused"""
    ks = [k for k, _ in names(E)]
    O = build(E, {"max_iter": 7})
    before = {k: O[k] for k in O}
    new = E.real("new")

    def setit(k):
        O[k] = new

    def delit(k):
        del O[k]

    def ior(k):
        nonlocal O
        P = O
        P |= {k: new}

    ways = dict(set=setit, delete=delit, ior=ior, update=lambda k: O.update({k: new}), pop=lambda k: O.pop(k), popitem=lambda k: O.popitem(),
                clear=lambda k: O.clear(), setdefault=lambda k: O.setdefault(k + "_new", new))
    for k in ks[:: max(1, len(ks) // 12)] + ["max_iter"]:
        for w, f in ways.items():
            _, e = E.attempt(lambda: f(k))
            E.ok(f"{w} {k}: refused", isinstance(e, AttributeError), repr(e))
            E.ok(f"{w} {k}: unchanged", set(O) == set(before) and all(O[j] is before[j] for j in before))
    for bad in ("max_iterr", "Max_iter", ""):
        _, e = E.attempt(lambda: build(E, {bad: new}))
        E.ok(f"unknown option {bad!r} refused", isinstance(e, ValueError), repr(e))
    import copy

    for c, P in (("copy", copy.copy(O)), ("deepcopy", copy.deepcopy(O))):
        E.ok(f"{c} equal", set(P) == set(O) and all(like(O[j], P[j]) for j in O))
        P.__setitem__("max_iter", 99, force=True)
        E.ok(f"{c} independent", O["max_iter"] == 7)


@contract("C12", targets=["VBMC.__init__", "VBMC.load"], sym=False, trials=3)
def through_the_constructor(E):
    """the options of a VBMC instance: user values present, unknown ones refused, user dictionary untouched"""
    np = E.np
    import logging

    logging.disable(logging.CRITICAL)
    VBMC = E.imp("pyvbmc.vbmc").VBMC
    D = E.dim("D", 1, 3)
    mk = lambda o: VBMC(lambda x: -0.5 * np.sum(x**2), np.zeros((1, D)), None, None, -np.ones((1, D)), np.ones((1, D)), options=o)
    n, w = E.int("max_fun_evals", 20, 400), E.choice("warmup", [True, False])
    o = dict(max_fun_evals=n, warmup=w, display="off")
    keep = dict(o)
    v = mk(o)
    E.ok("user values present", v.options["max_fun_evals"] == n and v.options["warmup"] is w)
    E.ok("user dictionary untouched", o == keep)
    E.ok("budget in the state", v.optim_state["max_fun_evals"] == n)
    E.raises("unknown option", ValueError, lambda: mk(dict(no_such_option=1)))

    def change():
        v.options["max_fun_evals"] = 3

    E.raises("fixed after construction", AttributeError, change)


@contract("C12", targets=T, cases=[dict(D=d) for d in (1, 2, 7)], trials=1)
def defaults_are_the_files(E):
    """without user options every option has the value written in its file, evaluated for the problem's
    dimension (files parsed independently)"""
    import math

    M = E.imp(OM)
    base = os.path.dirname(M.__file__)
    D = E.case["D"]
    O = build(E, None, D)
    env = dict(vars(M))
    env.update(D=D, np=E.np, ceil=math.ceil)
    seen = set()
    for f in (BASIC, ADV):
        for line in open(os.path.join(base, f)):
            line = line.strip()
            if not line or line[0] in "#[;" or "=" not in line:
                continue
            k, v = (x.strip() for x in line.split("=", 1))
            v = eval(v, dict(env))
            seen.add(k)
            E.ok(f"{k}: value of the file", like(v, O[k]), f"{v!r} {O[k]!r}")
            if hasattr(v, "__code__") and v.__code__.co_argcount == 1:
                for K in (1, 2, 5, 20):
                    E.ok(f"{k}: function of K", O.eval(k, {v.__code__.co_varnames[0]: K}) == v(K))
    E.ok("exactly the options of the files", set(O) - {"useroptions"} == seen)


@contract("C12", targets=["Options.init_from_existing_options"], trials=1)
def copy_user_options(E):
    """options made from existing ones take over the user's values only"""
    O = E.imp(OM).Options
    a, b = E.real("a"), E.real("b")
    A = O(BASIC, {"D": 2}, {"max_iter": a, "display": b})
    B = O.init_from_existing_options(BASIC, {"D": 5}, A)
    R = O(BASIC, {"D": 5}, None)
    E.ok("user values", B["max_iter"] is a and B["display"] is b)
    E.ok("everything else default", all(like(B[k], R[k]) for k in R if k not in ("max_iter", "display", "useroptions")))
    E.ok("default when nothing is given", all(like(O.init_from_existing_options(BASIC, {"D": 5}, None)[k], R[k]) for k in R))
