"""C21: diabatic forcing of wave activity."""
import numpy as np
from hypothesis import strategies as st

from checks.c11 import ok
from lib import gen, model
from lib.common import Law, check, near, raises, relscale, within
from lib.meta import BARO, LAYER
from lib.qg import Run

ASSUMPTIONS = ["statically stable hemispheric mean profiles; solved reference states; grids with the equator",
               "points whose PV equals Qref to single precision may be counted on either side of the contour"]


def solved(run):
    run.interp()
    if not ok(run):
        return False
    run.o.compute_reference_states()
    return not run.o.nonconvergent_uref


def field(case, shape, i=0):
    r = np.random.default_rng(case["seed"] + 31 + i)
    f = r.normal(size=shape)
    if case["kind"] == "constant":
        f = np.ones(shape)
    elif case["kind"] == "single":
        g = np.zeros(shape)
        g[r.integers(shape[0]), r.integers(shape[1]), r.integers(shape[2])] = 1.
        f = g
    elif case["kind"] == "zonal":
        f = f.mean(axis=-1, keepdims=True) + 0 * f
    return gen.relayout(f * 10.0 ** case["mag"], gen.LAYOUTS[case["seed"] % 7])


def stored(run):
    s = run.o.layerwise_flux_terms_storage
    return s.fortran_to_python(s.ncforce)


def term(case):
    run = Run(case, nh_only=case["nh"])
    if not solved(run):
        return None
    o = run.o
    f = field(case, run.t.QGPV.shape)
    keep = f.copy()
    plain = {}
    o.compute_lwa_and_barotropic_fluxes()
    plain.update({k: np.array(getattr(o, k)) for k in BARO})
    near(plain["ncforce_baro"], np.zeros_like(plain["ncforce_baro"]), 0, "ncforce_baro without forcing")
    o.compute_layerwise_lwa_fluxes()
    plain2 = {k: np.array(getattr(o, k)) for k in LAYER}
    o.compute_layerwise_lwa_fluxes(ncforce=f)
    got = np.array(stored(run))
    for k in plain2:
        near(getattr(o, k), plain2[k], 1e-9 * relscale(plain2[k]), f"layerwise {k} changes with the forcing")
    o.compute_lwa_and_barotropic_fluxes(ncforce=f)
    baro = np.array(o.ncforce_baro)
    near(f, keep, 0, "the forcing was modified")
    for k in plain:
        if k != "ncforce_baro":
            near(getattr(o, k), plain[k], 1e-9 * relscale(plain[k]), f"{k} changes with the forcing")
    rnd = 3e-7 * relscale(f) * run.a * np.pi / 2 * 3
    lo, hi, amb = {}, {}, 0
    for h in run.hemis():
        n = "north" if h > 0 else "south"
        pv, q = h * run.F(run.t.QGPV, h), h * run.F(o.qref, h)
        eps = 1e-6 * np.maximum(np.abs(pv).max(), np.abs(q).max()) * np.ones(q.shape)
        lo, hi = model.ncforce_hemisphere(pv, q, run.F(f, h), run.a, run.jb, eps)
        lo, hi = (lo, hi) if h > 0 else (-hi, -lo)
        i = run.shared(h) if run.jb == 0 else 0
        within(run.F(got, h)[:, i:], lo[:, i:] - rnd, hi[:, i:] + rnd, f"layerwise forcing term ({n})")
        bl, bh = model.column(lo, run.dz, run.H), model.column(hi, run.dz, run.H)
        within(run.F(baro, h, axis=0)[i:], bl[i:] - rnd, bh[i:] + rnd, f"ncforce_baro ({n})")
        amb += int((hi - lo > 1e-6 * relscale(hi, lo)).sum())
    near(baro, model.column(got, run.dz, run.H), rnd, "ncforce_baro against the column average of the layers")
    # linear in the forcing
    g = field(case, f.shape, 1)
    p, q = 1.5, -2.0
    res = []
    for x in (g, p * f + q * g):
        o.compute_layerwise_lwa_fluxes(ncforce=x)
        res.append(np.array(stored(run)))
    near(res[1], p * got + q * res[0], 10 * rnd, "the forcing term is not linear in the forcing")
    raises(Exception, lambda: o.compute_layerwise_lwa_fluxes(ncforce=f[:, :, :-1]), "forcing of the wrong shape")
    return [case["cls"], case["kind"], "ambiguous points" if amb else "exact"]


def heating(case):
    """f e^{z/H} d/dz ( e^{-z/H} heating / static stability ) with the stability of each hemisphere."""
    b = gen.build(case)
    run = Run(case, data=b, nh_only=case["nh"])
    run.interp()
    if not ok(run):
        return None
    o = run.o
    hr = field({**case, "mag": -5}, b["u"].shape)
    keep = hr.copy()
    got = o.compute_ncforce_from_heating_rate(hr)
    near(hr, keep, 0, "heating rate modified")
    z = o.height
    w = model.interp_linear(b["z"], hr, z) if not case["uniform"] else hr
    s = run.stability()
    st_ = np.empty((run.K, run.nlat))
    n = run.nlat // 2
    st_[:, :n], st_[:, n + 1:] = s[-1][:, None], s[1][:, None]
    st_[:, n] = 0.5 * (s[1] + s[-1])
    g = np.exp(-z / run.H)[:, None, None] * w / st_[:, :, None]
    d = np.empty_like(g)
    d[1:-1] = (g[2:] - g[:-2]) / (2 * run.dz)
    d[0], d[-1] = (g[1] - g[0]) / run.dz, (g[-1] - g[-2]) / run.dz
    want = d * np.exp(z / run.H)[:, None, None] * (2 * run.om * np.sin(np.deg2rad(b["ylat"])))[None, :, None]
    big = 2 * run.om * relscale(g) / run.dz * np.exp(z[-1] / run.H)
    near(got, want, 1e-7 * relscale(want) + 1e-12 * big, "compute_ncforce_from_heating_rate")
    # it can be given to the flux computations
    if solved(run):
        o.compute_lwa_and_barotropic_fluxes(ncforce=got)
        check(np.isfinite(o.ncforce_baro).all(), "ncforce_baro is not finite")
    return [case["cls"], "given grid" if case["uniform"] else "interpolated"]


def strat():
    return st.builds(lambda c, x: {**c, **x}, gen.qg_case(),
                     st.fixed_dictionaries(dict(nh=st.booleans(), mag=st.integers(-11, 2),
                                                kind=st.sampled_from(["noise", "noise", "constant", "single", "zonal"]))))


RULE = "stable mean profile, solved reference states"
LAWS = [
    Law("term", strat(), term, 500, 8000, 5, RULE),
    Law("heating", strat(), heating, 400, 6000, 2, "stable mean profile"),
]
