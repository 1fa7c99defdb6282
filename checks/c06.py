"""C06: quasi-geostrophic potential vorticity."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, model
from lib.common import Law, check, near, relscale
from lib.qg import Run

ASSUMPTIONS = ["statically stable hemispheric mean profiles (stability above 1e-3 K/m); odd latitude grids"]


def expected(run):
    t0s, t0n, ss, sn = run.profiles()
    z = run.dz * np.arange(run.K)
    return model.qgpv(run.t.U, run.t.V, run.t.Theta, t0s, t0n, ss, sn, z, run.H, run.a, run.om, run.cls)[0]


def stable(run):
    _, _, ss, sn = run.profiles()
    return min(ss.min(), sn.min()) > 1e-3


def definition(case):
    run = Run(case, nh_only=case["nh"])
    run.interp()
    if not stable(run):
        return None
    want = expected(run)
    # level-wise tolerance: single-precision arithmetic of the kernels
    tol = 4e-5 * np.abs(want).max(axis=(1, 2))[:, None, None] + 4e-6 * np.abs(want).max()
    near(run.t.QGPV, want, np.broadcast_to(tol, want.shape), "QGPV")
    pole = run.t.QGPV[:, [0, -1]]
    near(pole, np.repeat(pole[:, :, :1], run.nlon, axis=2), 0 * 1e-9 + 1e-6 * relscale(want), "QGPV at a pole depends on longitude")
    return [case["cls"], "nh only" if case["nh"] else "global", "waves" if case["amp"] > 0.1 else "weak waves"]


def linear(case):
    """NHN22 PV is affine in the flow: PV(x + d) - PV(x) for wind changes is their relative vorticity."""
    b = gen.build(case)
    run = Run(case, data=b, nh_only=case["nh"])
    run.interp()
    if not stable(run):
        return None
    b2 = dict(b)
    r = np.random.default_rng(case["seed"] + 9)
    sh = b["u"].shape
    c = np.cos(np.deg2rad(b["ylat"]))[None, :, None]
    prof = np.linspace(0.5, 1.5, sh[0])[:, None, None]
    b2["u"] = b["u"] + prof * r.normal(size=(1,) + sh[1:]) * 5 * c
    b2["v"] = b["v"] + prof * r.normal(size=(1,) + sh[1:]) * 5 * c
    other = Run(case, data=b2, nh_only=case["nh"])
    other.interp()
    z0 = model.abs_vorticity(run.t.U, run.t.V, run.a, 0.)
    z1 = model.abs_vorticity(other.t.U, other.t.V, run.a, 0.)
    d = z1 - z0
    d[[0, -1]] = 0
    s = relscale(run.t.QGPV, other.t.QGPV)
    if case["cls"] == "NHN22":
        near(other.t.QGPV - run.t.QGPV, d, 5e-5 * s, "PV change from a change of wind")
    # reversing the rotation: no relation claimed.  Adding a constant to theta (and so to its mean) changes nothing
    b3 = dict(b)
    pi = (b["plev"] / 1000.)[:, None, None] ** (run.R / run.cp)
    b3["t"] = b["t"] + 7. * pi
    third = Run(case, data=b3, nh_only=case["nh"])
    third.interp()
    near(third.t.QGPV, run.t.QGPV, 3e-4 * s, "PV after adding a constant to theta")
    return [case["cls"]]


def strat():
    return st.builds(lambda c, nh: {**c, "nh": nh}, gen.qg_case(), st.booleans())


RULE = "the hemispheric mean atmosphere is statically stable (otherwise the case is not judged)"
LAWS = [
    Law("definition", strat(), definition, 700, 10000, 4, RULE),
    Law("linear", strat(), linear, 200, 3000, 3, RULE),
]
