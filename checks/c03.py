"""C03: hemispheric wrapper functions."""
import numpy as np
from hypothesis import strategies as st

from checks.c01 import model as eq_model
from checks.c02 import model as lwa_model
from lib import gen
from lib.common import Law, check, near, relscale

ASSUMPTIONS = ["nlat_s between 2 rows and half of the grid"]


def strat():
    return st.builds(lambda c, s, p: {**c, "south": s, "pts": p}, gen.baro_case(nlats=(5, 30)),
                     st.one_of(st.none(), floats01()), st.one_of(st.none(), st.integers(3, 40)))


def floats01():
    return gen.floats(0, 1)


def radius(R, case):
    """The radius as an argument, or left to its documented default (Earth's)."""
    return {} if R == 6.378e6 and case["seed"] % 2 else dict(planet_radius=R)


def setup(case):
    ylat, xlon, area, dmu, clat, dphi = gen.baro_grid(case)
    q = gen.baro_field(case)
    h = None if case["south"] is None else 2 + int(case["south"] * (case["nlat"] // 2 - 2))
    hh = case["nlat"] // 2 if h is None else h
    return ylat, area, dmu, q, h, hh, case["pts"], (case["pts"] or hh), case["radius"]


def qref_interval(ylat, q, area, hh, n, R, flip):
    """Interval of Qref on both hemispheres (zero between them). flip=-1: q increases poleward in the NH."""
    lo, hi = np.zeros(ylat.size), np.zeros(ylat.size)
    a, b, _ = eq_model(ylat[:hh], q[:hh], area[:hh], n, R, 1e-12)
    lo[:hh], hi[:hh] = a, b
    nh = flip * q[::-1][:hh]
    a, b, _ = eq_model(ylat[:hh], nh, area[:hh], n, R, 1e-12)
    if flip < 0:
        a, b = -b, -a
    lo[-hh:], hi[-hh:] = a[::-1], b[::-1]
    return lo, hi


def ok(q, hh):
    return q[:hh].max() > q[:hh].min() and q[-hh:].max() > q[-hh:].min()


def pv(case):
    from falwa import wrapper as w
    ylat, area, dmu, q, h, hh, n0, n, R = setup(case)
    if not ok(q, hh):
        return None
    r = np.random.default_rng(case["seed"] + 5)
    g = r.normal(size=q.shape)
    v = r.normal(size=q.shape)
    keep = q.copy(), area.copy(), dmu.copy(), g.copy(), v.copy()
    lo, hi = qref_interval(ylat, q, area, hh, n, R, -1)
    tq = 1e-7 * relscale(q)     # a rounding of the area moves a contour by 1e-8 rad next to the pole
    tl = 1e-7 * relscale(q) * dmu.sum()

    def isq(x, what):
        near(np.clip(x, lo, hi), x, tq, what)
    kw = dict(nlat_s=h, n_points=n0, **radius(R, case))
    Q = w.eqvlat_hemispheric(ylat, q, area, **kw)
    isq(Q, "eqvlat_hemispheric")
    check((np.diff(Q[:hh]) >= -1e-12 * relscale(q)).all() and (np.diff(Q[-hh:]) >= -1e-12 * relscale(q)).all(), "Qref decreases poleward of the equator")
    if (hi - lo).max() > 1e-4 * relscale(q):
        return None     # a rounding decides Qref at some latitude, possibly differently in each function
    # local wave activity of each hemisphere with respect to this Qref
    lwa = np.zeros(q.shape)
    sig = np.zeros(q.shape)
    for s in (slice(0, hh), slice(q.shape[0] - hh, None)):
        a, c, sg = lwa_model(q[s], Q[s], dmu[s], g[s])
        lwa[s], sig[s] = a + c, sg
    Q1, l1 = w.qgpv_eqlat_lwa(ylat, q, area, dmu, **kw)
    isq(Q1, "qgpv_eqlat_lwa Qref")
    near(Q1, Q, tq, "qgpv_eqlat_lwa Qref against eqvlat_hemispheric")
    near(l1, lwa, tl, "qgpv_eqlat_lwa LWA")
    Q2, l2, s2 = w.qgpv_eqlat_lwa_ncforce(ylat, q, g, area, dmu, **kw)
    near(Q2, Q, tq, "qgpv_eqlat_lwa_ncforce Qref")
    near(l2, lwa, tl, "qgpv_eqlat_lwa_ncforce LWA")
    near(l2, l1, tl, "ncforce variant against the plain one")
    near(s2, sig, 1e-9 * relscale(g) * dmu.sum(), "qgpv_eqlat_lwa_ncforce capsigma")
    near(w.qgpv_input_qref_to_compute_lwa(ylat, Q, q, area, dmu, nlat_s=h, **radius(R, case)), lwa, tl,
         "qgpv_input_qref_to_compute_lwa")
    Q3, b3 = w.eqvlat_bracket_hemispheric(ylat, q, area, **kw)
    near(Q3, Q, tq, "eqvlat_bracket_hemispheric Qref")
    check(b3 is None, "bracket returned without vgrad")
    Q4, b4 = w.eqvlat_bracket_hemispheric(ylat, q, area, vgrad=v, **kw)
    near(Q4, Q, tq, "eqvlat_bracket_hemispheric Qref with vgrad")
    check(np.abs(b4).max() <= np.abs(v).max() * (1 + 1e-9), "bracket exceeds the range of vgrad")
    # mirror symmetry of the bracket: q, vgrad -> -q, -vgrad with latitudes reversed
    _, bm = w.eqvlat_bracket_hemispheric(ylat, -q[::-1], area, vgrad=-v[::-1], **kw)
    near(bm, -b4[::-1], 1e-9 * relscale(v), "bracket of the mirrored field")
    # southern hemisphere is the global function applied to the southern rows
    from falwa import basis
    near(b4[:hh], basis.eqvlat_vgrad(ylat[:hh], q[:hh], area[:hh], n, planet_radius=R, vgrad=v[:hh])[1],
         1e-9 * relscale(v), "bracket in the Southern Hemisphere")
    for vg in (None, v):
        for nc in (None, g):
            d = w.qgpv_eqlat_lwa_options(ylat, q, area, dmu, vgrad=vg, ncforce=nc, **kw)
            check(set(d) == {"qref", "lwa_result"} | ({"brac_result"} if vg is not None else set())
                  | ({"capsigma"} if nc is not None else set()), f"keys {sorted(d)}")
            near(d["qref"], Q, tq, "options qref")
            near(d["lwa_result"], lwa, tl, "options lwa_result")
            if vg is not None:
                near(d["brac_result"], b4, 1e-9 * relscale(v), "options brac_result")
            if nc is not None:
                near(d["capsigma"], sig, 1e-9 * relscale(g) * dmu.sum(), "options capsigma")
    for a, b, what in zip((q, area, dmu, g, v), keep, "vort area dmu ncforce vgrad".split()):
        near(a, b, 0, f"input {what} modified")
    return ["default domain" if h is None else "given nlat_s", "odd" if case["nlat"] % 2 else "even"]


def theta(case):
    from falwa import wrapper as w
    ylat, area, dmu, q, h, hh, n0, n, R = setup(case)
    # potential temperature decreases towards both poles
    r = np.random.default_rng(case["seed"] + 6)
    th = 300 - 60 * np.sin(np.deg2rad(ylat))[:, None] ** 2 + 8 * case["amp"] * r.normal(size=q.shape)
    lo, hi = qref_interval(ylat, th, area, hh, n, R, 1)
    tq, tl = 1e-7 * 300, 1e-7 * 300 * dmu.sum()
    kw = dict(nlat_s=h, n_points=n0, **radius(R, case))
    keep = th.copy()
    Q, l = w.theta_lwa(ylat, th, area, dmu, **kw)
    near(th, keep, 0, "theta modified")
    near(np.clip(Q, lo, hi), Q, tq, "theta_lwa reference temperature")
    s, nn = slice(0, hh), slice(th.shape[0] - hh, None)
    want = np.zeros(th.shape)
    a, c, _ = lwa_model(th[s], Q[s], dmu[s])
    want[s] = a + c
    a, c, _ = lwa_model(-th[nn], -Q[nn], dmu[nn])
    want[nn] = a + c
    near(l, want, tl, "theta_lwa wave activity")
    Qm, lm = w.theta_lwa(ylat, th[::-1], area, dmu, **kw)
    near(Qm, Q[::-1], tq, "reference temperature of the mirrored field")
    return ["default domain" if h is None else "given nlat_s"] if l.max() > 0 else None


LAWS = [
    Law("pv", strat(), pv, 500, 8000, 5, "the field varies in both hemispheres and no rounding decides Qref"),
    Law("theta", strat(), theta, 400, 6000, 2, "the wave activity is not identically zero"),
]
