"""C02: barotropic local wave activity."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, relscale

ASSUMPTIONS = ["finite fields; Qref of any shape (monotonic or not) is allowed for a prescribed Qref"]


def model(q, Q, dmu, g=None):
    """(anticyclonic, cyclonic, sigma) by the definition; zero on the last row."""
    nlat = q.shape[0]
    e = q[None] - Q[:, None, None]              # [j, jj, i]
    jj, j = np.meshgrid(np.arange(nlat), np.arange(nlat))
    below = (jj <= j)[:, :, None]
    w = dmu[None, :, None]
    anti = np.where(~below & (e < 0), -e * w, 0.).sum(axis=1)
    cyc = np.where(below & (e > 0), e * w, 0.).sum(axis=1)
    sig = None
    if g is not None:
        sig = (np.where(below & (e > 0), 1., 0.) * g[None] * w - np.where(~below & (e < 0), 1., 0.) * g[None] * w
               ).sum(axis=1)
        sig[-1] = 0
    anti[-1] = 0
    cyc[-1] = 0
    return anti, cyc, sig


def strat():
    return st.builds(lambda c, q: {**c, "qref": q}, gen.baro_case(nlats=(2, 30)),
                     st.sampled_from(["own", "sorted", "random", "field"]))


def reference(case, q, ylat, area):
    from falwa import basis
    r = np.random.default_rng(case["seed"] + 3)
    if case["qref"] == "own":
        return basis.eqvlat_fawa(ylat, q, area, case["npts"] or case["nlat"], planet_radius=case["radius"])[0]
    if case["qref"] == "field":
        return q[:, 0].copy()
    x = r.uniform(q.min(), q.max(), ylat.size)
    return np.sort(x) if case["qref"] == "sorted" else x


def label(case, lwa):
    return [case["qref"], "active" if np.abs(lwa).max() > 0 else "still"] if np.abs(lwa).max() > 0 else None


def definition(case):
    from falwa import basis
    ylat, xlon, area, dmu, clat, dphi = gen.baro_grid(case)
    q = gen.baro_field(case)
    if not q.max() > q.min():
        return None
    Q = reference(case, q, ylat, area)
    r = np.random.default_rng(case["seed"] + 4)
    g = r.normal(size=q.shape)
    n, m = q.shape
    anti, cyc, sig = model(q, Q, dmu, g)
    tol = 1e-10 * relscale(q, Q) * dmu.sum()
    keep = q.copy(), Q.copy(), dmu.copy(), g.copy()
    tot, none = basis.lwa(m, n, q, Q, dmu)
    check(none is None, "bigsigma returned without ncforce")
    near(tot, anti + cyc, tol, "local wave activity")
    check((tot >= -1e-3 * tol).all(), "negative local wave activity")
    part, s2 = basis.lwa(m, n, q, Q, dmu, return_partitioned_lwa=True, ncforce=g)
    near(part, np.stack([anti, cyc]), tol, "partition of the wave activity")
    check((part >= -1e-3 * tol).all(), "negative partition")
    near(part.sum(axis=0), tot, tol, "sum of the partition")
    near(s2, sig, 1e-10 * relscale(g) * dmu.sum(), "nonconservative term")
    near(basis.lwa(m, n, q, Q, dmu, ncforce=g)[1], s2, 1e-12 * relscale(g) * dmu.sum(), "nonconservative term without partition")
    for a, b, what in zip((q, Q, dmu, g), keep, ("vort", "q_part", "dmu", "ncforce")):
        near(a, b, 0, f"input {what} modified")
    return label(case, tot)


def symmetries(case):
    from falwa import basis
    ylat, xlon, area, dmu, clat, dphi = gen.baro_grid(case)
    q = gen.baro_field(case)
    if not q.max() > q.min():
        return None
    Q = reference(case, q, ylat, area)
    n, m = q.shape
    f = lambda q_, Q_=Q: basis.lwa(m, n, q_, Q_, dmu, return_partitioned_lwa=True)[0]
    base = f(q)
    tol = 1e-9 * relscale(q, Q) * dmu.sum()
    k = case["seed"] % m
    near(f(np.roll(q, k, axis=1)), np.roll(base, k, axis=2), 1e-3 * tol, "LWA of a field rolled in longitude")
    near(f(2 * q, 2 * Q), 2 * base, 1e-3 * tol, "LWA of a doubled field")
    c = relscale(q) * 3
    near(f(q + c, Q + c), base, 10 * tol, "LWA after adding a constant to q and Q")
    # mirror: cyclonic and anticyclonic swap when sign and latitude order are reversed, apart from row j itself
    z = np.repeat(np.sort(q[:, :1], axis=0), m, axis=1)
    near(f(z, z[:, 0]), np.zeros_like(base), 1e-3 * tol, "LWA of a zonally symmetric monotonic field with Q=q")
    return label(case, base)


def field(case):
    """BarotropicField.lwa and the wrapper functions are the definition applied to their own Qref."""
    from falwa import wrapper
    from falwa.barotropic_field import BarotropicField
    ylat, xlon, area, dmu, clat, dphi = gen.baro_grid({**case, "grid": "staggered" if case["grid"] == "staggered" else "regular"})
    q = gen.baro_field({**case, "grid": "regular"})
    if not q.max() > q.min():
        return None
    R = case["radius"]
    tol = 1e-9 * relscale(q) * dmu.sum()
    kw = dict(planet_radius=R)
    if case["npts"]:
        kw["n_partitions"] = case["npts"]
    for part in (False, True):
        o = BarotropicField(xlon, ylat, q.copy(), return_partitioned_lwa=part, **kw)
        first = np.array(o.lwa)
        Q = np.array(o.equivalent_latitudes)
        anti, cyc, _ = model(q, Q, dmu)
        want = np.stack([anti, cyc]) if part else anti + cyc
        near(first, want, tol, "BarotropicField.lwa")
        near(o.lwa, first, 0, "second access to lwa")
        near(o.pv_field, q, 0, "pv_field modified")
        near(o.xlon, xlon, 0, "xlon of the object")
        near(o.ylat, ylat, 0, "ylat of the object")
        # the same through the function interface
        Q2, l2 = wrapper.barotropic_eqlat_lwa(ylat, q, area, dmu, case["npts"], planet_radius=R,
                                              return_partitioned_lwa=part)
        near(Q2, Q, 1e-9 * relscale(q), "barotropic_eqlat_lwa Qref against BarotropicField")
        near(l2, want, 10 * tol, "barotropic_eqlat_lwa LWA")
        if R == 6.378e6:      # the documented default radius is Earth's
            kw2 = {k: v for k, v in kw.items() if k != "planet_radius"}
            near(BarotropicField(xlon, ylat, q, return_partitioned_lwa=part, **kw2).lwa, first, 1e-6 * tol,
                 "BarotropicField.lwa with the default radius")
            near(wrapper.barotropic_eqlat_lwa(ylat, q, area, dmu, case["npts"], return_partitioned_lwa=part)[1],
                 l2, 1e-6 * tol, "barotropic_eqlat_lwa with the default radius")
    dphi2 = 1.7 * dphi * np.ones(ylat.size)
    o = BarotropicField(xlon, ylat, q, area=area, dphi=dphi2, **kw)
    anti, cyc, _ = model(q, o.equivalent_latitudes, R * clat * dphi2)
    near(o.lwa, anti + cyc, 2 * tol, "BarotropicField.lwa with given dphi")
    Q = reference(case, q, ylat, area)
    anti, cyc, _ = model(q, Q, dmu)
    got = wrapper.barotropic_input_qref_to_compute_lwa(ylat, Q, q, area, dmu, planet_radius=R)
    near(np.asarray(got), anti + cyc, tol, "barotropic_input_qref_to_compute_lwa")
    return label(case, first)


RULE = "the local wave activity is not identically zero"
LAWS = [
    Law("definition", strat(), definition, 800, 12000, 3, RULE),
    Law("symmetries", strat(), symmetries, 500, 8000, 2, RULE),
    Law("field", strat(), field, 300, 5000, 2, RULE),
]
