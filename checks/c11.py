"""C11: layerwise flux terms."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, model
from lib.common import Law, check, near, relscale
from lib.qg import Run

ASSUMPTIONS = ["statically stable hemispheric mean profiles; solved reference states; grids with the equator",
               "stretch_term of NHN22 is not judged equatorward of the boundary row (no reference theta there)"]


def ok(run):
    t0s, t0n, ss, sn = run.profiles()
    return min(ss.min(), sn.min()) > 1e-3


def terms(run, h, ncf=None):
    """Oracle of one hemisphere in its own (northern) frame; signs restored to geographic."""
    F = lambda x: run.F(x, h)
    t, o = run.t, run.o
    out = model.fluxes_hemisphere(h * F(t.QGPV), F(t.U), h * F(t.V), F(t.Theta), h * F(o.qref), F(o.uref), F(o.ptref),
                                  run.theta_mean()[h], run.a, run.om, run.dz, run.H, run.R, run.cp,
                                  model.prefactor(run.K, run.dz, run.H), run.jb)
    if h < 0:
        out["ep2"], out["ep3"] = -out["ep3"], -out["ep2"]
    return out


def scales(run):
    """Largest magnitude of the ingredients of each term."""
    t, o = run.t, run.o
    u = relscale(t.U) + relscale(o.uref)
    v = relscale(t.V)
    q = relscale(t.QGPV, o.qref)
    act = q * run.a * np.pi / 2
    th = run.theta_mean()
    # eddy theta and smallest stability
    sm = min(np.diff(x).min() for x in th.values()) / run.dz
    e = 0.
    for h in run.hemis():
        e = max(e, relscale((run.F(t.Theta, h) - run.F(o.ptref, h)[:, :, None])[:, run.jb:]))
    pot = run.R / run.H * e / max(sm, 1e-6)      # d(term)/d(theta)
    th_err = 1.5e-5 * relscale(t.Theta) / 100    # rounding of theta in single precision
    return dict(ua1=3e-6 * u * act, ua2=6e-6 * u * act, astar1=4e-6 * act, astar2=4e-6 * act,
                ep1=4e-6 * (u * u + v * v) + 4e-6 * pot * e + pot * 4 * 6e-8 * relscale(t.Theta) + 1e-5,
                ep2=2e-6 * u * v + 1e-12, ep3=2e-6 * u * v + 1e-12)


def check_terms(run, names=("ua1", "ua2", "ep1", "ep2", "ep3")):
    tol = scales(run)
    for h in run.hemis():
        n = "north" if h > 0 else "south"
        want = terms(run, h)
        i = run.shared(h) if run.jb == 0 else 0
        for k in names:
            # the flux of the row equatorward of the first own row uses the reference wind of the equator
            j = i + 1 if (i and k == ("ep3" if h > 0 else "ep2")) else i
            got = run.F(getattr(run.o, k), h)
            near(got[:, j:], want[k][:, j:], tol[k], f"{k} ({n})")
    return tol


def layerwise(case):
    run = Run(case, nh_only=case["nh"])
    run.interp()
    if not ok(run):
        return None
    run.o.compute_reference_states()
    if run.o.nonconvergent_uref:
        return None
    run.o.compute_layerwise_lwa_fluxes()
    check_terms(run)
    s = run.o.layerwise_flux_terms_storage
    for k in ("ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term", "lwa"):
        near(getattr(run.o, k), s.fortran_to_python(getattr(s, k)), 0, f"property {k} against the storage")
    near(s.ncforce, np.zeros_like(s.ncforce), 0, "forcing term without forcing")
    return [case["cls"], "nh only" if case["nh"] else "global", f"boundary row {run.jb}"]


def stretching(case):
    """-f e^{z/H} d/dz( e^{-z/H} v (theta - theta_ref) cos(phi) / stability ) with the stability of each hemisphere."""
    run = Run(case, nh_only=case["nh"])
    run.interp()
    if not ok(run):
        return None
    run.o.compute_reference_states()
    if run.o.nonconvergent_uref:
        return None
    run.o.compute_layerwise_lwa_fluxes()
    stab = run.stability()
    z = run.dz * np.arange(run.K)
    got = run.o.stretch_term
    if case["cls"] == "NH18":
        both = {1: stab[1], -1: stab[-1]}
    else:
        both = stab
    for h in run.hemis():
        v, th, tr = run.F(run.t.V, h), run.F(run.t.Theta, h), run.F(run.o.ptref, h)
        st_ = np.repeat(both[h][:, None], run.nd, axis=1)
        st_[:, 0] = 0.5 * (both[1] + both[-1])
        g = np.exp(-z / run.H)[:, None, None] * v * (th - tr[:, :, None]) * run.cos[None, :, None] / st_[:, :, None]
        d = np.empty_like(g)
        d[1:-1] = (g[2:] - g[:-2]) / (2 * run.dz)
        d[0], d[-1] = (g[1] - g[0]) / run.dz, (g[-1] - g[-2]) / run.dz
        f = 2 * run.om * run.sin * h
        want = -f[None, :, None] * np.exp(z / run.H)[:, None, None] * d
        i = run.jb
        near(run.F(got, h)[:, i:], want[:, i:], 1e-9 * (relscale(want) + relscale(f) * relscale(d)) + 1e-12,
             f"stretch_term ({'north' if h > 0 else 'south'})")
    return [case["cls"], "nh only" if case["nh"] else "global"]


def zonal(case):
    """A zonally symmetric atmosphere has no eddy fluxes along longitude: terms do not depend on longitude."""
    b = gen.build(case)
    for k in ("u", "v", "t"):
        b[k] = np.repeat(b[k].mean(axis=-1, keepdims=True), case["nlon"], axis=-1)
    b["v"] = np.zeros_like(b["v"])
    run = Run(case, data=b, nh_only=case["nh"])
    run.interp()
    if not ok(run):
        return None
    run.o.compute_reference_states()
    if run.o.nonconvergent_uref:
        return None
    run.o.compute_layerwise_lwa_fluxes()
    for k in ("lwa", "ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term"):
        x = getattr(run.o, k)
        near(x, np.repeat(x[..., :1], run.nlon, axis=-1), 1e-6 * relscale(x), f"{k} of a zonally symmetric flow")
    for k in ("ep2", "ep3", "stretch_term"):
        near(getattr(run.o, k), np.zeros_like(getattr(run.o, k)), 0, f"{k} without meridional wind")
    return [case["cls"]]


def strat(**kw):
    return st.builds(lambda c, nh: {**c, "nh": nh}, gen.qg_case(**kw), st.booleans())


RULE = "stable mean profile and solved reference state"
LAWS = [
    Law("layerwise", strat(), layerwise, 500, 8000, 4, RULE),
    Law("stretching", strat(), stretching, 250, 4000, 2, RULE),
    Law("zonal", strat(), zonal, 120, 2000, 1, RULE),
]
