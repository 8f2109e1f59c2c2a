from vc.harness import contract

PT = "pyvbmc.parameter_transformer.parameter_transformer"
CODE = dict(logit=3, probit=12, student4=13)
S4 = "assumed contract: student-t kernels _student4/_inverse_student4 form an inverse pair (0,1)<->R like the probit pair (checked at run time only, contract kernel_student4)"


def any_transformer(E, D, t, rot=None, scale=None, m=None):
    """An arbitrary object satisfying the class invariant (established by the
    constructor, see ctor): type is 0 or the bounded code, bounded coordinates have
    finite lb < ub, mu finite, delta > 0."""
    np = E.np
    M = E.imp(PT)
    if E.sym and t == "student4":  # modular: the kernel pair is replaced by its contract
        E.patch(M, "_student4", M._probit)
        E.patch(M, "_inverse_student4", M._inverse_probit)
    pt = M.ParameterTransformer(D, transform_type=t)
    m = E.mask("bounded", D) if m is None else m
    lbf, w = E.real("lb", 1, D), E.pos("width", 1, D)
    pt.lb_orig = np.where(m, lbf, E.ext("lb0", 1, D, classes=(0, -1)))
    pt.ub_orig = np.where(m, lbf + w, E.ext("ub0", 1, D, classes=(0, 1)))
    pt.type = np.where(m, CODE[t] * np.ones(D), np.zeros(D))
    pt.mu = E.real("mu", D)
    pt.delta = E.pos("delta", D)
    if rot:
        pt.R_mat = E.orthogonal("R", D)
    if scale:
        pt.scale = E.pos("scale", D)
    return pt, m, lbf, w


def interior(E, N, D, m, lbf, w):
    """arbitrary points strictly inside the bounds, representable there"""
    np = E.np
    odds = E.pos("odds", N, D)
    E.assume(np.all(np.log(odds) >= -np.log(np.finfo(np.float64).max)))
    xb = lbf + w * (odds / (1 + odds))
    E.assume(np.all(xb >= np.nextafter(lbf, np.inf)))
    E.assume(np.all(xb <= np.nextafter(lbf + w, -np.inf)))
    return np.where(m, xb, E.real("x", N, D))


WH = [dict(t=t, rot=r, sc=s) for t in CODE for r, s in ((0, 0), (0, 1), (1, 1), (1, 0))]


@contract("C01", targets=["ParameterTransformer.__call__", "ParameterTransformer.inverse"], cases=WH, trusted=[S4])
def roundtrip(E):
    """inverse(direct(x)) == x for every interior x, and x itself is left unchanged"""
    N, D = E.dim("N"), E.dim("D")
    pt, m, lbf, w = any_transformer(E, D, E.case["t"], E.case["rot"], E.case["sc"])
    x = interior(E, N, D, m, lbf, w)
    x0 = x.copy()
    y = pt.inverse(pt(x))
    E.eq("inverse(direct(x)) == x", y, x0)
    E.same("direct leaves its argument unchanged", x, x0)


@contract("C01", targets=["ParameterTransformer.inverse", "ParameterTransformer.__call__"], cases=WH, trusted=[S4])
def roundtrip_back(E):
    """direct(inverse(u)) == u whenever the image is not on the safety margin"""
    np = E.np
    N, D = E.dim("N"), E.dim("D")
    pt, m, lbf, w = any_transformer(E, D, E.case["t"], E.case["rot"], E.case["sc"])
    u = E.real("u", N, D)
    u0 = u.copy()
    x = pt.inverse(u)
    eps = 0 if E.sym else 1e-6
    E.assume(np.all((~m) | ((x > np.nextafter(lbf, np.inf) + eps * w) & (x < np.nextafter(lbf + w, -np.inf) - eps * w))))
    E.eq("direct(inverse(u)) == u", pt(x), u0, rtol=1e-5, atol=1e-6)
    E.same("inverse leaves its argument unchanged", u, u0)


@contract("C01", sym=False, targets=["_student4", "_inverse_student4"], trials=200)
def kernel_student4(E):
    np = E.np
    M = E.imp(PT)
    N = E.dim("N")
    z = E.unit("z", N)
    k = E.choice("tail", [1.0, 0.0, 1e-4])
    z = z if k == 1.0 else (0.5 + (z - 0.5) * 1e-3 if k == 0.0 else z * k)
    E.assume(np.all((z > 1e-9) & (z < 1 - 1e-9)))
    E.eq("inverse kernel o kernel == id", M._inverse_student4(M._student4(z.copy())), z, rtol=1e-5, atol=1e-7)
    u = E.real("u", N) * 5
    E.eq("kernel o inverse kernel == id", M._student4(M._inverse_student4(u)), u, rtol=1e-5, atol=1e-5)


@contract("C01", targets=["ParameterTransformer.__call__", "ParameterTransformer.inverse", "handle_0D_1D_input"],
          cases=[dict(t="logit")], shapes=[dict(D=1)], budget=200)
def one_dimensional_input(E):
    """a single point given as a flat vector behaves as the corresponding one-row array"""
    np = E.np
    D = E.dim("D")
    pt, m, lbf, w = any_transformer(E, D, E.case["t"], m=np.array([E.bool(f"bounded{i}") for i in range(D)]))
    u = E.real("u", D)
    x1 = pt.inverse(u)
    x2 = pt.inverse(u.reshape((1, -1)))
    E.eq("flat input gives flat output", x1, x2[0])
    E.eq("flat input, direct", pt(x1), pt(x2)[0])


def bounds(E, D):
    np = E.np
    lbf, w = E.real("lb", 1, D), E.pos("width", 1, D)
    a, b = E.pos("a", 1, D), E.pos("b", 1, D)
    return lbf, lbf + w, lbf + w * (a / (1 + a + b)), lbf + w * ((a + b / 2) / (1 + a + b))


@contract("C01", targets=["ParameterTransformer.__init__"], cases=[dict(t=t) for t in CODE], shapes=[dict(D=1), dict(D=2)], trusted=[S4], budget=200)
def ctor(E):
    """The constructor establishes the class invariant and normalises the plausible box
    to [-1/2, 1/2] in every coordinate."""
    np = E.np
    M = E.imp(PT)
    t = E.case["t"]
    if E.sym and t == "student4":
        E.patch(M, "_student4", M._probit)
        E.patch(M, "_inverse_student4", M._inverse_probit)
    D = E.dim("D")
    lo, hi, plb, pub = bounds(E, D)
    kinds = [E.choice(f"kind{i}", ["bounded", "lower", "upper", "free"]) for i in range(D)]
    m = np.array([k == "bounded" for k in kinds])
    lb = np.where(np.array([k in ("bounded", "lower") for k in kinds]), lo, -np.inf * np.ones((1, D)))
    ub = np.where(np.array([k in ("bounded", "upper") for k in kinds]), hi, np.inf * np.ones((1, D)))
    pt = M.ParameterTransformer(D, lb, ub, plb, pub, transform_type=t)
    E.eq("type is the bounded code exactly where both bounds are finite", pt.type, np.where(m, CODE[t] * np.ones(D), np.zeros(D)))
    E.lt("delta > 0", np.zeros(D), pt.delta)
    E.eq("plausible lower bound maps to -1/2", pt(plb), -0.5 * np.ones((1, D)))
    E.eq("plausible upper bound maps to +1/2", pt(pub), 0.5 * np.ones((1, D)))


@contract("C01", targets=["ParameterTransformer.__init__"], cases=[dict(k=k) for k in range(3)], shapes=[dict(D=2)])
def ctor_rejects(E):
    """bounds out of order are refused"""
    np = E.np
    M = E.imp(PT)
    D = E.dim("D", 1)
    lo, hi, plb, pub = bounds(E, D)
    j = E.int("j", 0, D - 1)
    e = E.nonneg("e")
    if E.case["k"] == 0:
        plb = np.where(np.arange(D) == j, lo - e - 0.125, plb)
    elif E.case["k"] == 1:
        pub = np.where(np.arange(D) == j, plb - e, pub)
    else:
        pub = np.where(np.arange(D) == j, hi + e + 0.125, pub)
    E.raises("out-of-order bounds raise ValueError", ValueError, lambda: M.ParameterTransformer(D, lo, hi, plb, pub))


@contract("C01", sym=False, targets=["ParameterTransformer.__eq__"], cases=[dict(f=f) for f in ("scale", "R_mat", "mu", "delta", "lb_orig", "type", "none")], trials=6)
def equality(E):
    """two transformers compare equal only when they denote the same map"""
    np = E.np
    import copy

    M = E.imp(PT)
    D = E.dim("D", 2, 4)
    pt, m, lbf, w = any_transformer(E, D, "logit", 1, 1)
    q = copy.deepcopy(pt)
    f = E.case["f"]
    if f == "none":
        E.ok("identical transformers are equal", bool(pt == q))
        return
    v = getattr(q, f) + 0.0
    v.flat[0] = v.flat[0] + 1.5 if np.isfinite(v.flat[0]) else 0.25
    setattr(q, f, v)
    E.ok(f"transformers that differ in {f} are not equal", not bool(pt == q))
