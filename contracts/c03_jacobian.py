from vc.harness import contract
from contracts.c01_transform import CODE, PT, S4, WH, any_transformer

DET = "lemma: log|det(R)| = 0 for orthogonal R and the chain rule for the linear whitening step"
S4D = S4 + "; its Jacobian branch is decided at run time and by kernel_student4_derivative"


@contract("C03", targets=["ParameterTransformer.log_abs_det_jacobian", "ParameterTransformer.inverse"],
          cases=[dict(t=t) for t in ("logit", "probit")])
def jacobian_elementwise(E):
    """log_abs_det_jacobian(u) == sum_j log |d inverse(u)_j / d u_j| (the derivative is
    computed from the executed inverse itself)"""
    np = E.np
    N, D = E.dim("N"), E.dim("D")
    pt, m, lbf, w = any_transformer(E, D, E.case["t"])
    u = E.real("u", N, D)
    u0 = u.copy()
    x = pt.inverse(u)
    eps = 0 if E.sym else 1e-3
    E.assume(np.all((~m) | ((x > np.nextafter(lbf, np.inf) + eps * w) & (x < np.nextafter(lbf + w, -np.inf) - eps * w))))
    J = E.deriv(pt.inverse, u)
    E.eq("log|det J| is the log-derivative of the inverse", pt.log_abs_det_jacobian(u), np.sum(np.log(J), axis=1), rtol=1e-5, atol=1e-5)
    E.same("argument unchanged", u, u0)


@contract("C03", targets=["ParameterTransformer.log_abs_det_jacobian"], cases=[c for c in WH if c["rot"] or c["sc"]], trusted=[DET, S4])
def jacobian_whitening(E):
    """with whitening, log|det J|(u) is that of the unwhitened map at the unwhitened point
    plus the sum of the log scales"""
    np = E.np
    N, D = E.dim("N"), E.dim("D")
    pt, m, lbf, w = any_transformer(E, D, E.case["t"], E.case["rot"], E.case["sc"])
    u = E.real("u", N, D)
    v, extra = u, 0
    if E.case["sc"]:
        v = v * pt.scale
        extra = np.sum(np.log(pt.scale))
    if E.case["rot"]:
        v = v @ pt.R_mat.T
    a = pt.log_abs_det_jacobian(u)
    pt.R_mat, pt.scale = None, None
    E.eq("log|det J| with whitening", a, pt.log_abs_det_jacobian(v) + extra)


@contract("C03", sym=False, targets=["ParameterTransformer.log_abs_det_jacobian", "ParameterTransformer.inverse"], cases=WH, trials=25)
def jacobian_determinant(E):
    """numerical determinant of the full Jacobian of the inverse"""
    np = E.np
    D = E.dim("D")
    pt, m, lbf, w = any_transformer(E, D, E.case["t"], E.case["rot"], E.case["sc"])
    u = E.real("u", 1, D)
    x = pt.inverse(u)
    E.assume(np.all((~m) | ((x > lbf + 1e-3 * w) & (x < lbf + w - 1e-3 * w))))
    J = E.jac(lambda z: pt.inverse(z.reshape(1, -1))[0], u[0])
    E.eq("log|det J|", pt.log_abs_det_jacobian(u), np.array([np.linalg.slogdet(J)[1]]), rtol=1e-4, atol=1e-4)
    E.eq("a flat point gives a scalar", pt.log_abs_det_jacobian(u[0]), pt.log_abs_det_jacobian(u)[0])


@contract("C03", targets=["_inverse_student4"], trials=60)
def kernel_student4_derivative(E):
    """derivative of the student-t unit-interval map has the closed form used by the Jacobian branch"""
    np = E.np
    M = E.imp(PT)
    N = E.dim("N")
    u = E.real("u", N)
    J = E.deriv(M._inverse_student4, u)
    E.eq("d F(u)/du == 3/8 (1+u^2/4)^(-5/2)", J, (3.0 / 8) / ((1 + u**2 / 4) ** 2 * np.sqrt(1 + u**2 / 4)), rtol=1e-5, atol=1e-7)
