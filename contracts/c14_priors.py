from vc.harness import NS, contract

KINDS = ["UniformBox", "Trapezoidal", "SplineTrapezoidal", "SmoothBox"]
MOD = {"UniformBox": "uniform_box", "Trapezoidal": "trapezoidal", "SplineTrapezoidal": "spline_trapezoidal", "SmoothBox": "smooth_box"}


def pivots(E, kind, *dims):
    """arbitrary valid pivots, increasing"""
    a = E.real("a", *dims)
    if kind in ("UniformBox", "SmoothBox"):
        p = dict(a=a, b=a + E.pos("wab", *dims))
        if kind == "SmoothBox":
            p["scale"] = E.pos("scale", *dims)
        return p
    u = a + E.pos("wau", *dims)
    v = u + E.pos("wuv", *dims)
    return dict(a=a, u=u, v=v, b=v + E.pos("wvb", *dims))


def cls(E, kind):
    return getattr(E.imp("pyvbmc.priors." + MOD[kind]), kind)


def log_density(np, kind, p, x):
    """reference: log density of one coordinate (broadcasting), -inf outside the support"""
    a, b = p["a"], p["b"]
    ninf = -np.inf
    if kind == "UniformBox":
        return np.where((x < a) | (x > b), ninf, -np.log(b - a))
    if kind == "SmoothBox":
        s = p["scale"]
        Z = s * np.sqrt(2 * np.pi) + (b - a)
        below, above = x < a, x > b
        r = np.where(below, x - a, np.where(above, x - b, 0 * x))
        return -np.log(Z) - 0.5 * (r / s) ** 2
    u, v = p["u"], p["v"]
    Z = 0.5 * (b - a + v - u)
    g = (lambda z: z) if kind == "Trapezoidal" else (lambda z: 3 * z**2 - 2 * z**3)
    left, mid, right = (x > a) & (x < u), (x >= u) & (x < v), (x >= v) & (x < b)
    z = np.where(left, (x - a) / (u - a), np.where(right, (b - x) / (b - v), 0 * x + 1))
    return np.where(left | mid | right, np.log(np.where(left | mid | right, g(z), 1)) - np.log(Z), ninf)


@contract("C14", targets=["SplineTrapezoidal._log_pdf"], cases=[dict(kind="SplineTrapezoidal")], shapes=[dict(D=1)], trials=60)
def density_spline(E):
    """log density at every point equals the documented one (dimension bounded)"""
    density_(E)


@contract("C14", targets=[f"{k}._log_pdf" for k in KINDS], cases=[dict(kind=k) for k in KINDS if k != "SplineTrapezoidal"], trials=60)
def density(E):
    """log density at every point of R^D equals the documented one (product over coordinates)"""
    density_(E)


def density_(E):
    np = E.np
    kind = E.case["kind"]
    N, D = E.dim("N"), E.dim("D")
    p = pivots(E, kind, D)
    pr = E.new(cls(E, kind), D=D, **p)
    x = E.real("x", N, D)
    q = dict(p)
    lp = pr._log_pdf(x)
    ref = log_density(np, kind, q, x)
    E.eq("log density", lp, np.sum(ref, axis=1, keepdims=True))


REG = {"UniformBox": ["in"], "SmoothBox": ["left", "mid", "right"], "Trapezoidal": ["left", "mid", "right"], "SplineTrapezoidal": ["left", "mid", "right"]}


def cdf(np, norm, kind, p, x, reg):
    """ghost distribution function, piece by piece"""
    a, b = p["a"], p["b"]
    if kind == "UniformBox":
        return (x - a) / (b - a)
    if kind == "SmoothBox":
        s = p["scale"]
        h = s * np.sqrt(2 * np.pi)
        Z = h + (b - a)
        if reg == "left":
            return h * norm.cdf((x - a) / s) / Z
        if reg == "mid":
            return (h / 2 + (x - a)) / Z
        return (h / 2 + (b - a) + h * (norm.cdf((x - b) / s) - 0.5)) / Z
    u, v = p["u"], p["v"]
    Z = 0.5 * (b - a + v - u)
    G = (lambda z: z**2 / 2) if kind == "Trapezoidal" else (lambda z: z**3 - z**4 / 2)
    if reg == "left":
        return (u - a) * G((x - a) / (u - a)) / Z
    if reg == "mid":
        return ((u - a) / 2 + (x - u)) / Z
    return 1 - (b - v) * G((b - x) / (b - v)) / Z


@contract("C14", targets=[f"{k}._log_pdf" for k in KINDS], cases=[dict(kind=k, reg=r) for k in KINDS for r in REG[k]], shapes=[dict(D=1, N=1)], trials=60)
def normalised(E):
    """the density is the derivative of a distribution function that is continuous, starts at
    0 and ends at 1: it integrates to one (fundamental theorem of calculus)"""
    np = E.np
    kind, reg = E.case["kind"], E.case["reg"]
    N = E.dim("N")
    D = E.dim("D", 1, 1)
    norm = E.norm
    p = pivots(E, kind, D)
    pr = E.new(cls(E, kind), D=D, **p)
    a, b = p["a"], p["b"]
    t = E.real("t", N, D)
    E.assume(np.all(t > 0))
    bounded = not (kind == "SmoothBox" and reg != "mid")
    if bounded:
        E.assume(np.all(t < 1))
    lo, hi = (a, b) if kind in ("UniformBox", "SmoothBox") else (p["u"], p["v"])
    if reg in ("mid", "in"):
        x0, w = lo, hi - lo
    elif reg == "left":
        x0, w = (a, -p["scale"]) if kind == "SmoothBox" else (a, lo - a)
    else:
        x0, w = (b, p["scale"]) if kind == "SmoothBox" else (hi, b - hi)
    at = lambda z: x0 + w * z
    dens = np.exp(pr._log_pdf(at(t)))
    E.eq("density is the derivative of the distribution function", E.deriv(lambda z: cdf(np, norm, kind, p, at(z), reg), t), dens * w, rtol=1e-4, atol=1e-6)
    F = lambda z, r: cdf(np, norm, kind, p, z, r)
    if kind == "UniformBox":
        E.eq("0 at the lower bound", F(a, "in"), 0 * a)
        E.eq("1 at the upper bound", F(b, "in"), 0 * a + 1)
    elif reg == "mid":
        E.eq("continuous at the lower pivot", F(lo, "left"), F(lo, "mid"))
        E.eq("continuous at the upper pivot", F(hi, "mid"), F(hi, "right"))
        if kind != "SmoothBox":
            E.eq("0 at the lower bound", F(a, "left"), 0 * a)
            E.eq("1 at the upper bound", F(b, "right"), 0 * a + 1)
        else:
            # limits: Phi -> 0 below and 1 above
            h = p["scale"] * np.sqrt(2 * np.pi)
            E.eq("1 in the limit", (h / 2 + (b - a) + h * 0.5) / (h + b - a), 0 * a + 1)


@contract("C14", targets=[f"{k}.support" for k in KINDS], cases=[dict(kind=k) for k in KINDS])
def support(E):
    """outside the reported support the density is zero; the support is ordered"""
    np = E.np
    kind = E.case["kind"]
    N, D = E.dim("N"), E.dim("D")
    p = pivots(E, kind, D)
    pr = E.new(cls(E, kind), D=D, **p)
    x = E.real("x", N, D)
    lb, ub = pr.support()
    lp = pr._log_pdf(x)
    outside = np.any((x < lb) | (x > ub), axis=1)
    E.ok("zero density outside the support", ~outside | (lp[:, 0] == -np.inf))
    E.lt("support ordered", lb, ub)
    inside = np.all((x > lb) & (x < ub), axis=1)
    E.ok("positive density inside the support", ~inside | np.isfinite(lp[:, 0]))


@contract("C14", targets=[f"{k}.__init__" for k in KINDS] + ["tile_inputs"], cases=[dict(kind=k, how=h) for k in KINDS for h in ("vec", "scalar", "mixed", "bad")], shapes=[dict(D=1), dict(D=2), dict(D=3)], trials=15)
def constructor(E):
    """parameters are stored as given (scalars tiled to the dimension), and out-of-order
    parameters are refused with ValueError"""
    np = E.np
    kind, how = E.case["kind"], E.case["how"]
    D = E.dim("D", 1, 3)
    C = cls(E, kind)
    names = {"UniformBox": ["a", "b"], "SmoothBox": ["a", "b", "scale"]}.get(kind, ["a", "u", "v", "b"])
    if how == "bad":
        p = {k: E.real("p_" + k, D) for k in names}
        order = [k for k in names if k != "scale"]
        good = np.full(D, True)
        for k1, k2 in zip(order, order[1:]):
            good = good & (p[k1] < p[k2])
        if "scale" in p:
            good = good & (p["scale"] > 0)
        E.assume(~np.all(good))
        E.raises("out-of-order parameters refused", ValueError, lambda: C(*[p[k] for k in names]))
        return
    if how == "scalar":
        p = pivots(E, kind)
        pr = C(*[p[k] for k in names], D=D)
    else:
        p = pivots(E, kind, D)
        if how == "mixed":
            E.assume(np.all(p["a"] == p["a"][0]))
            args = dict(p, a=p["a"][0])
            pr = C(*[args[k] for k in names], D=D)
        else:
            pr = C(*[p[k] for k in names])
    E.eq("dimension", pr.D, D)
    for k in names:
        v = getattr(pr, k)
        E.ok(f"shape of {k}", v.ndim == 1 and v.shape[0] == D)
        E.eq(f"value of {k}", v, p[k] + np.zeros(D))


@contract("C14", targets=["Prior.log_pdf", "Prior.pdf"], cases=[dict(kind=k, one=o, **(dict(conc_only=1) if k == "SplineTrapezoidal" else {})) for k in KINDS for o in (0, 1)])
def interface(E):
    """public log_pdf / pdf: one value per row, flat output on request, exp relation, wrong
    dimension refused"""
    np = E.np
    kind = E.case["kind"]
    D = E.dim("D", 2)
    N = 1 if E.case["one"] else E.dim("N")
    p = pivots(E, kind, D)
    pr = E.new(cls(E, kind), D=D, **p)
    x = E.real("x", N, D)
    ref = np.sum(log_density(np, kind, p, x), axis=1)
    if E.case["one"]:
        E.eq("flat point", pr.log_pdf(x[0], keepdims=False), ref)
    E.eq("column", pr.log_pdf(x)[:, 0], ref)
    E.eq("flat", pr.log_pdf(x, keepdims=False), ref)
    E.eq("pdf", pr.pdf(x)[:, 0], np.exp(ref))
    E.raises("wrong dimension refused", ValueError, lambda: pr.log_pdf(E.real("bad", N, D + 1)))


@contract("C14", targets=["Product.__init__", "Product._log_pdf"], shapes=[dict(D=d) for d in (1, 2)], cases=[dict(kind=k) for k in KINDS], trials=30)
def product(E):
    """a product prior has the sum of its marginals' log densities and the box of their supports"""
    np = E.np
    N, D = E.dim("N", 2), E.dim("D", 1, 3)
    P = E.imp("pyvbmc.priors.product").Product
    kinds = [E.case["kind"]] * D
    if D > 1:
        kinds[1] = "UniformBox"
    ps, ms = [], []
    for d in range(D):
        k = kinds[d]
        a = E.real(f"a{d}", 1)
        w = [E.pos(f"w{d}_{i}", 1) for i in range(3)]
        p = dict(a=a, b=a + w[0]) if k in ("UniformBox", "SmoothBox") else dict(a=a, u=a + w[0], v=a + w[0] + w[1], b=a + w[0] + w[1] + w[2])
        if k == "SmoothBox":
            p["scale"] = w[1]
        ps.append(p)
        ms.append(E.new(cls(E, k), D=1, **p))
    pr = P(list(ms))
    x = E.real("x", N, D)
    ref = 0
    for d in range(D):
        ref = ref + log_density(np, kinds[d], ps[d], x[:, d])
    E.eq("log density", pr.log_pdf(x)[:, 0], ref)
    lb, ub = pr.support()
    for d in range(D):
        l, u = ms[d].support()
        E.same(f"lower support {d}", lb[d:d + 1], l)
        E.same(f"upper support {d}", ub[d:d + 1], u)
