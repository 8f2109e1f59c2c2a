import os
import shutil
import sys
import tempfile

from vc.harness import NS, contract

VB = "pyvbmc.vbmc.vbmc"
VPM = "pyvbmc.variational_posterior.variational_posterior"
IH = "pyvbmc.vbmc.iteration_history"
NAMES = ["run", "run.pkl", "run.v2", "sub.dir/run", "run.tar.gz"]
CASES = [dict(cls=c, name=n, before=b, ow=o) for c in ("vbmc", "vp") for n in NAMES for b in ("nothing", "file", "appears") for o in (False, True)]

WATCH = {}


def hook(ev, args):
    """another process creates the file at the moment the code under test opens it"""
    if ev == "open" and WATCH and isinstance(args[0], (str, bytes, os.PathLike)):
        t, data = WATCH.get("target"), WATCH.get("data")
        if t and os.path.abspath(os.fspath(args[0])) == t:
            WATCH.clear()
            fd = os.open(t, os.O_CREAT | os.O_WRONLY | os.O_EXCL)
            os.write(fd, data)
            os.close(fd)


HOOKED = []


def make(E, cls):
    import numpy as np

    if cls == "vp":
        vp = E.imp("pyvbmc.variational_posterior").VariationalPosterior(2, 2)
        vp.mu = np.arange(4.0).reshape(2, 2)
        return vp
    VBMC = E.imp(VB).VBMC
    return VBMC(lambda x: float(-0.5 * np.sum(x**2)), np.zeros((1, 2)), None, None, -np.ones((1, 2)), np.ones((1, 2)), options=dict(display="off", max_iter=7))


@contract("C21", targets=["VBMC.save", "VariationalPosterior.save", "VBMC.load", "VariationalPosterior.load"], cases=CASES, sym=False, trials=1, budget=60)
def never_overwrites_without_consent(E):
    """without overwrite an existing file (also one created by another process at the moment of
    opening) is left as it is and FileExistsError is raised; otherwise the file, with .pkl when no
    extension was given, holds the object and load by the same name returns it"""
    import logging

    import numpy as np

    logging.disable(logging.CRITICAL)
    cls, name, before, ow = (E.case[k] for k in ("cls", "name", "before", "ow"))
    if not HOOKED:
        sys.addaudithook(hook)
        HOOKED.append(1)
    d = tempfile.mkdtemp(prefix="vc_c21_")
    try:
        os.makedirs(os.path.join(d, "sub.dir"))
        given = os.path.join(d, name)
        target = given if "." in os.path.basename(name) else given + ".pkl"
        obj = make(E, cls)
        old = b"precious"
        if before == "file":
            with open(target, "wb") as f:
                f.write(old)
        elif before == "appears":
            WATCH.update(target=os.path.abspath(target), data=old)
        r, e = E.attempt(lambda: obj.save(given, overwrite=ow) if ow else obj.save(given))
        WATCH.clear()
        if before != "nothing" and not ow:
            E.ok("refused", isinstance(e, FileExistsError), repr(e))
            E.ok("existing file untouched", open(target, "rb").read() == old)
        else:
            E.ok("saved", e is None, repr(e))
            E.ok("replaced", os.path.exists(target) and open(target, "rb").read() != old)
            back, e = E.attempt(lambda: type(obj).load(given))
            E.ok("loads by the same name", e is None, repr(e))
            if cls == "vp":
                E.ok("same posterior", all(np.array_equal(getattr(back, a), getattr(obj, a)) for a in ("mu", "sigma", "lambd", "w")) and back.D == 2 and back.K == 2)
            else:
                E.ok("same instance", back.options["max_iter"] == 7 and back.D == 2 and np.array_equal(back.x0, obj.x0))
        E.ok("nothing else written", sorted(os.listdir(os.path.dirname(target))) == sorted({os.path.basename(target)} | ({"sub.dir"} if os.path.dirname(target) == d else set())))
    finally:
        WATCH.clear()
        shutil.rmtree(d)


@contract("C21", targets=["VBMC.save", "VariationalPosterior.save"], sym=False, trials=1)
def missing_places_are_reported(E):
    """saving into a missing directory or loading a missing file is an OSError"""
    d = tempfile.mkdtemp(prefix="vc_c21_")
    try:
        vp = make(E, "vp")
        E.raises("missing directory", OSError, lambda: vp.save(os.path.join(d, "no", "x")))
        E.raises("missing file", OSError, lambda: type(vp).load(os.path.join(d, "x")))
        E.raises("missing vbmc file", OSError, lambda: E.imp(VB).VBMC.load(os.path.join(d, "x")))
    finally:
        shutil.rmtree(d)


class Snap:
    def __init__(self, kind, i):
        self.kind, self.i = kind, i

    def get(self, k, default=None):
        return ("hyp", self.i) if k == "hyp_dict" and self.kind == "optim_state" else default

    def __getitem__(self, k):
        return self.get(k)

    def __deepcopy__(self, memo):
        return Snap(self.kind, self.i)


@contract("C21", targets=["VBMC.load"], cases=[dict(N=n, it=i) for n in (1, 2, 4) for i in (None, "any")], trials=12)
def restored_iteration(E):
    """load puts the instance in the state recorded at the requested iteration (default: the last),
    with the history cut there and the requested options; iterations that do not exist are refused"""
    np = E.np
    N = E.case["N"]
    it = None if E.case["it"] is None else E.choice("iteration", list(range(-2, N + 2)))
    M = E.imp(VB)
    h = E.imp(IH).IterationHistory(["gp", "vp", "function_logger", "optim_state", "elbo", "random_state", "never"])
    e = [E.real(f"elbo{i}") for i in range(N)]
    for i in range(N):
        h.record_iteration({"gp": Snap("gp", i), "vp": Snap("vp", i), "function_logger": Snap("function_logger", i), "optim_state": Snap("optim_state", i), "elbo": e[i]}, i)
    O = E.imp("pyvbmc.vbmc.options").Options
    o = O("option_configs/basic_vbmc_options.ini", {"D": 2}, {"max_iter": 9})
    o.is_initialized = True
    vb = E.new(M.VBMC, iteration_history=h, iteration=N - 1, options=o, gp=1, vp=2, function_logger=3, optim_state={}, hyp_dict=None)
    d = tempfile.mkdtemp(prefix="vc_c21_")
    try:
        f = os.path.join(d, "x.pkl")
        open(f, "wb").close()
        E.patch(M, "dill", NS(load=lambda fh, *a, **k: vb, dump=None))
        new = E.choice("new", [None, {"max_iter": 33}])
        w, ex = E.attempt(lambda: M.VBMC.load(f, new_options=new, iteration=it))
    finally:
        shutil.rmtree(d)
    if it is not None and not 0 <= it < N:
        E.ok("refused", isinstance(ex, ValueError), repr(ex))
        return
    E.ok("accepted", ex is None, repr(ex))
    last = N - 1 if it is None else it
    for k in ("gp", "vp", "function_logger", "optim_state"):
        s = getattr(w, k)
        E.ok(f"{k} of that iteration", s.kind == k and s.i == last)
        E.ok(f"{k} history cut there", len(w.iteration_history[k]) == last + 1 and [x.i for x in w.iteration_history[k]] == list(range(last + 1)))
        E.ok(f"{k} independent of the record", s is not w.iteration_history[k][last])
    for i in range(last + 1):
        E.eq(f"elbo {i}", w.iteration_history["elbo"][i], e[i])
    E.ok("hyperparameters", w.hyp_dict == ("hyp", last))
    E.ok("current iteration", w.iteration == last)
    E.ok("options", w.options["max_iter"] == (9 if new is None else 33) and w.options.is_initialized is True)


@contract("C21", targets=["VBMC.save", "VBMC.load"], sym=False, trials=1, budget=300)
def stored_run(E):
    """a complete run, stored and loaded: state, history and evaluations are those of the run"""
    import logging

    import numpy as np

    from contracts.c11_history import same_value

    logging.disable(logging.CRITICAL)
    VBMC = E.imp(VB).VBMC
    D = 1
    np.random.seed(E.int("seed", 0, 10**6))
    v = VBMC(lambda x: float(-0.5 * np.sum(x**2)), np.zeros((1, D)), None, None, -3 * np.ones((1, D)), 3 * np.ones((1, D)),
             options=dict(max_iter=3, min_iter=0, min_fun_evals=0, display="off"))
    v.optimize()
    d = tempfile.mkdtemp(prefix="vc_c21_")
    try:
        f = os.path.join(d, "run")
        v.save(f)
        w = VBMC.load(f)
        u = VBMC.load(f, iteration=1)
        st = np.random.get_state()
        VBMC.load(f, iteration=1, set_random_state=True)
        E.ok("random state restored on request", same_value(np, np.random.get_state(), v.iteration_history["random_state"][1]))
        np.random.set_state(st)
        for k in ("elbo", "elbo_sd", "func_count", "r_index", "sKL"):
            E.ok(f"history {k}", same_value(np, w.iteration_history[k], v.iteration_history[k]))
        E.ok("evaluations", np.array_equal(w.function_logger.X, v.function_logger.X, equal_nan=True) and np.array_equal(w.function_logger.y, v.function_logger.y, equal_nan=True))
        E.ok("state of iteration 1", u.optim_state["iter"] == 1 and u.function_logger.Xn == v.iteration_history["function_logger"][1].Xn and len(u.iteration_history["elbo"]) == 2)
        E.ok("posterior of iteration 1", np.array_equal(u.vp.mu, v.iteration_history["vp"][1].mu))
        E.raises("iteration 3 does not exist", ValueError, lambda: VBMC.load(f, iteration=3))
    finally:
        shutil.rmtree(d)
