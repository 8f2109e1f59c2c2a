"""Contracts: one specification text, two uses.

A contract is a Python function of an environment E.  It states the precondition
(how the arguments are built / E.assume), calls the real function(s), and states
the postcondition (E.eq / E.ok / E.le / E.raises ...).
  * SymEnv (symenv.py): the call executes the function extracted from /repo on
    symbolic arrays of symbolic shape; each postcondition becomes an obligation.
  * ConcEnv (concenv.py): the call executes the untouched function under CPython /
    numpy; the contract acts as a runtime contract on generated inputs, and is the
    replayer of solver counterexamples.
"""
import importlib

CONTRACTS = {}


class Discard(BaseException):
    """concrete input outside the precondition"""


class Contract:
    def __init__(self, prop, name, fn, targets, cases, shapes, sym, conc, trials, note, trusted, budget):
        self.prop, self.name, self.fn = prop, name, fn
        self.targets = list(targets)
        self.cases = list(cases)
        self.shapes = shapes  # None: all shapes symbolic (unbounded); else list of dict name->int
        self.sym, self.conc, self.trials = sym, conc, trials
        self.note = note
        self.trusted = list(trusted)
        self.budget = budget

    @property
    def key(self):
        return f"{self.prop}.{self.name}"


def contract(prop, name=None, targets=(), cases=None, shapes=None, sym=True, conc=True, trials=40, note="",
             trusted=(), budget=120):
    def deco(fn):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            c = Contract(p, name or fn.__name__, fn, targets, cases or [{}], shapes, sym, conc, trials, note or (fn.__doc__ or "").strip(),
                         trusted, budget)
            CONTRACTS[c.key] = c
        return fn

    return deco


def load_contracts(prop=None):
    import os

    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            if prop is None or f.split("_")[0].upper() == prop:
                importlib.import_module("contracts." + f[:-3])
    return {k: c for k, c in CONTRACTS.items() if prop is None or c.prop == prop}


class EnvBase:
    sym = False

    def hint(self, *ts):
        pass

    def rank_of(self, i):
        return 0

    def imp(self, name):
        return importlib.import_module(name)

    def new(self, cls, **attrs):
        o = cls.__new__(cls)
        for k, v in attrs.items():
            object.__setattr__(o, k, v) if hasattr(cls, "__slots__") else o.__dict__.__setitem__(k, v)
        self.partial = getattr(self, "partial", []) + [o]
        return o

    class _Patch:
        def __init__(self, obj, attr, val):
            self.obj, self.attr, self.val = obj, attr, val

        def __enter__(self):
            self.had = self.attr in getattr(self.obj, "__dict__", {})
            self.old = getattr(self.obj, self.attr, None)
            setattr(self.obj, self.attr, self.val)
            return self

        def __exit__(self, *a):
            if self.had:
                setattr(self.obj, self.attr, self.old)
            else:
                delattr(self.obj, self.attr)

    def patch(self, obj, attr, val):
        p = EnvBase._Patch(obj, attr, val)
        p.__enter__()
        self.patches.append(p)
        return p

    def unpatch(self):
        for p in reversed(self.patches):
            p.__exit__()
        self.patches.clear()


class StubMiss(AttributeError):
    """the code under test asked a stand-in for something its contract does not describe"""


class NS:
    """attribute bag standing for an external object described by an assumed contract"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise StubMiss(k)


class OptDict(dict):
    """stands for an Options object: unknown keys give None, .get works"""

    def __missing__(self, k):
        raise KeyError(k)
