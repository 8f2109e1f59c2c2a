from vc.harness import contract
from contracts.c01_transform import CODE, PT, S4, WH, any_transformer


@contract("C02", targets=["ParameterTransformer.inverse", "_from_unit_interval"], cases=WH, trusted=[S4])
def inverse_strictly_inside(E):
    """For every finite u, inverse(u) lies strictly inside the hard bounds of each bounded
    coordinate (there is a double between the bounds)"""
    np = E.np
    N, D = E.dim("N"), E.dim("D")
    pt, m, lbf, w = any_transformer(E, D, E.case["t"], E.case["rot"], E.case["sc"])
    E.assume(np.all(np.nextafter(lbf, np.inf) <= np.nextafter(lbf + w, -np.inf)))
    u = E.real("u", N, D) * E.pos("mag") * (1 if E.sym else E.choice("mag10", [1.0, 30.0, 1e3, 1e8]))
    x = pt.inverse(u)
    E.ok("every bounded coordinate of inverse(u) is above its lower bound", (~m) | (x > lbf))
    E.ok("every bounded coordinate of inverse(u) is below its upper bound", (~m) | (x < lbf + w))
    E.ok("no coordinate is nan", ~np.isnan(x))


@contract("C02", targets=["ParameterTransformer.inverse"], cases=[dict(t=t) for t in CODE], sym=False, trials=30)
def inverse_at_infinity(E):
    """also for infinite u"""
    np = E.np
    N, D = E.dim("N"), E.dim("D")
    pt, m, lbf, w = any_transformer(E, D, E.case["t"])
    E.assume(np.all(np.nextafter(lbf, np.inf) <= np.nextafter(lbf + w, -np.inf)))
    u = E.ext("u", N, D, classes=(0, 1, -1))
    if E.case["t"] == "student4":
        E.assume(np.all(np.isfinite(u)))
        u = u * 1e6
    x = pt.inverse(u)
    E.ok("bounded coordinates stay strictly inside", (~m) | ((x > lbf) & (x < lbf + w)))


@contract("C02", targets=["ParameterTransformer.__call__", "ParameterTransformer.inverse"], cases=[dict(t=t, z=z) for t in CODE for z in (0, 1)], sym=False, trials=60)
def near_boundary(E):
    """points within a few ulps of a bound map to finite u and come back inside"""
    np = E.np
    D = E.dim("D")
    pt, m, lbf, w = any_transformer(E, D, E.case["t"])
    k = E.int("ulps", 1, 3)
    x = lbf.copy() if E.case["z"] == 0 else lbf + w
    for _ in range(k):
        x = np.nextafter(x, np.inf if E.case["z"] == 0 else -np.inf)
    E.assume(np.all((x > lbf) & (x < lbf + w)))
    x0 = x.copy()
    u = pt(x)
    E.ok("interior points have finite images", (~m) | np.isfinite(u))
    y = pt.inverse(u)
    E.ok("their images come back strictly inside", (~m) | ((y > lbf) & (y < lbf + w)))
    E.same("argument unchanged", x, x0)
