from vc.harness import contract
from contracts._common import any_vp

FLAGS = [dict(w=w, mu=m, s=s, l=l) for w in (0, 1) for m in (0, 1) for s in (0, 1) for l in (0, 1)]


def state(vp):
    return dict(mu=vp.mu.copy(), sigma=vp.sigma.copy(), lambd=vp.lambd.copy(), w=vp.w.copy())


@contract("C07", targets=["VariationalPosterior.get_parameters", "VariationalPosterior.set_parameters"],
          cases=[dict(f, raw=r) for f in FLAGS for r in (0, 1)])
def get_then_set(E):
    """writing back the vector that was read leaves the posterior as it was (after the
    documented normalisation), and reading again gives the same vector"""
    np = E.np
    D, K = E.dim("D"), E.dim("K")
    c, raw = E.case, bool(E.case["raw"])
    vp = any_vp(E, D, K, True, **{k: c[k] for k in ("w", "mu", "s", "l")})
    old = state(vp)
    th = vp.get_parameters(raw)
    for k in old:
        E.eq(f"reading does not change {k}", getattr(vp, k), old[k])
    n = D * K * c["mu"] + K * c["s"] + D * c["l"] + K * c["w"]
    E.eq("length of the vector", th.size, n)
    vp._mode = E.real("mode", D)
    vp.set_parameters(th, raw)
    for k in old:
        E.eq(f"write(read) keeps {k}", getattr(vp, k), old[k])
    E.ok("cached mode dropped", vp._mode is None)
    E.eq("read(write(read)) == read", vp.get_parameters(raw), th)


@contract("C07", targets=["VariationalPosterior.get_parameters"], cases=FLAGS)
def layout(E):
    """layout of the vector: means component by component, then log scales, log lengths, log weights"""
    np = E.np
    D, K = E.dim("D"), E.dim("K")
    c = E.case
    vp = any_vp(E, D, K, True, **c)
    th = vp.get_parameters()
    o = 0
    if c["mu"]:
        d, k = E.int("d", 0, D - 1), E.int("k", 0, K - 1)
        E.eq("mean of component k, coordinate d", th[k * D + d], vp.mu[d, k])
        o = D * K
    if c["s"]:
        E.eq("log sigma", th[o:o + K], np.log(vp.sigma).ravel())
        o = o + K
    if c["l"]:
        E.eq("log lambda", th[o:o + D], np.log(vp.lambd).ravel())
        o = o + D
    if c["w"]:
        E.eq("log weights", th[o:o + K], np.log(vp.w).ravel())
    th2 = vp.get_parameters(False)
    E.eq("raw and constrained vectors agree on the means", th2[:D * K * c["mu"]], th[:D * K * c["mu"]])
    E.eq("constrained = exp of raw", th2[D * K * c["mu"]:], np.exp(th[D * K * c["mu"]:]))


@contract("C07", targets=["VariationalPosterior.set_parameters"], cases=[dict(f, raw=r) for f in FLAGS if any(f.values()) for r in (0, 1)])
def set_any(E):
    """any vector is decoded to a well-formed posterior: positive scales, mean squared length
    scale 1, weights on the simplex; the component scales sigma*lambda and means are those of the
    vector; the caller's vector is not modified"""
    np = E.np
    D, K = E.dim("D"), E.dim("K")
    c, raw = E.case, bool(E.case["raw"])
    vp = any_vp(E, D, K, False, **{k: c[k] for k in ("w", "mu", "s", "l")})
    old = state(vp)
    mu, ls, ll, lw = E.real("t_mu", D, K), E.real("t_s", K), E.real("t_l", D), E.real("t_w", K)
    parts = []
    if c["mu"]:
        parts.append(mu.ravel(order="F"))
    f = (lambda z: z) if raw else np.exp
    for nm, z in (("s", ls), ("l", ll), ("w", lw)):
        if c[nm]:
            parts.append(f(z))
    th = np.concatenate(parts)
    keep = th.copy()
    vp.set_parameters(th, raw)
    E.eq("caller's vector unchanged", th, keep)
    E.eq("means", vp.mu, mu if c["mu"] else old["mu"])
    sig = np.exp(ls).reshape(1, -1) if c["s"] else old["sigma"]
    lam = np.exp(ll).reshape(-1, 1) if c["l"] else old["lambd"]
    E.eq("component scales sigma * lambda", vp.sigma * vp.lambd, sig * lam)
    E.eq("mean squared length scale is 1", np.sum(vp.lambd**2) / D, 1)
    E.lt("sigma > 0", np.zeros((1, K)), vp.sigma)
    E.lt("lambda > 0", np.zeros((D, 1)), vp.lambd)
    if c["w"]:
        E.lt("weights > 0", np.zeros((1, K)), vp.w)
        E.eq("weights sum to 1", np.sum(vp.w), 1)
        E.eq("weights are proportional to exp(eta)", vp.w, (np.exp(lw) / np.sum(np.exp(lw))).reshape(1, -1))
    else:
        E.eq("weights unchanged", vp.w, old["w"])


@contract("C07", targets=["VariationalPosterior.set_parameters"], cases=[f for f in FLAGS if f["w"] or f["s"] or f["l"]])
def negative_refused(E):
    """a negative scale or weight in constrained form is refused and nothing is changed"""
    np = E.np
    D, K = E.dim("D"), E.dim("K")
    c = E.case
    vp = any_vp(E, D, K, True, **c)
    old = state(vp)
    parts = []
    if c["mu"]:
        parts.append(E.real("t_mu", D, K).ravel(order="F"))
    m = 0
    for nm, n in (("s", K), ("l", D), ("w", K)):
        if c[nm]:
            parts.append(E.real("t_" + nm, n))
            m = m + n
    th = np.concatenate(parts)
    E.assume(np.any(th[D * K * c["mu"]:] < 0))
    E.raises("negative entry refused", ValueError, lambda: vp.set_parameters(th, False))
    for k in old:
        E.eq(f"{k} unchanged", getattr(vp, k), old[k])
