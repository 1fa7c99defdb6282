"""C01: equivalent-latitude rearrangement of a barotropic field."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, relscale

ASSUMPTIONS = ["latitude-row areas of the default grid or of exact cell areas; finite fields with at least two values"]


def model(ylat, q, area, n, radius, amb):
    """Interval of Qref at each latitude: cumulative area below each of n equally spaced values."""
    b = np.linspace(q.min(), q.max(), n)
    e = amb * max(abs(q.min()), abs(q.max()))
    outs = []
    for s in (e, -e):
        # s>0: more area below each edge, hence a smaller value at a latitude
        low = np.array([0.] + [area[(q < x + s) & (q < q.max())].sum() for x in b[1:]])
        # (an area rounded up or down decides where the edge of a gap in the values lies exactly on a latitude)
        mu = np.clip(low / (2 * np.pi * radius ** 2) - 1 + np.sign(s) * 1e-13, -1, 1)
        outs.append(np.interp(ylat, np.rad2deg(np.arcsin(mu)), b))
    return outs[0], outs[1], b


def areas(case):
    ylat, xlon, area, dmu, clat, dphi = gen.baro_grid(case)
    if case["exact"]:
        s = np.sin(np.deg2rad(gen.cell_edges(ylat)))
        area = (2 * np.pi * case["radius"] ** 2 * np.diff(s))[:, None] * (area[1] / area[1].sum())
    return ylat, xlon, area


def strat():
    return st.builds(lambda c, e: {**c, "exact": e}, gen.baro_case(nlats=(3, 40)), st.booleans())


def label(case, q):
    if q.max() - q.min() <= 0:
        return None
    nonmono = bool((np.diff(q.mean(axis=1)) < 0).any())
    return [case["kind"], "overturned" if nonmono else "monotone"]


def nontrivial(case, q):
    return label(case, q)


def npts(case):
    return case["npts"] or case["nlat"]


def rearrange(case):
    from falwa import basis
    ylat, xlon, area = areas(case)
    q = gen.baro_field(case)
    if not q.max() > q.min():
        return None
    n = npts(case)
    keep = q.copy(), area.copy(), ylat.copy()
    fns = [("eqvlat_fawa", lambda: basis.eqvlat_fawa(ylat, q, area, n, planet_radius=case["radius"])[0]),
           ("eqvlat_fawa(output_fawa=False)",
            lambda: basis.eqvlat_fawa(ylat, q, area, n, planet_radius=case["radius"], output_fawa=False)[0]),
           ("eqvlat_vgrad", lambda: basis.eqvlat_vgrad(ylat, q, area, n, planet_radius=case["radius"])[0])]
    lo, hi, b = model(ylat, q, area, n, case["radius"], 1e-12)
    tol = 1e-9 * relscale(q)
    for name, fn in fns:
        r = fn()
        check(r.shape == (ylat.size,), f"{name}: shape {r.shape}")
        check(np.isfinite(r).all(), f"{name}: non-finite reference value")
        check((np.diff(r) >= -1e-3 * tol).all(), f"{name}: Qref is not monotonic with latitude")
        check(r.min() >= q.min() - tol and r.max() <= q.max() + tol, f"{name}: Qref leaves the range of the field")
        near(np.clip(r, lo, hi), r, tol, f"{name} against the box-counting model")
        # the area with values below Qref is that of the cap south of the latitude, to within one bin
        dq = b[1] - b[0]
        cap = 2 * np.pi * case["radius"] ** 2 * (1 + np.sin(np.deg2rad(ylat)))
        at = 1e-9 * 4 * np.pi * case["radius"] ** 2
        for j in range(ylat.size):
            if r[j] < q.max() - tol:
                below = area[q < r[j] - dq * (1 + 1e-9)].sum()
                upto = area[q <= r[j] + dq * (1 + 1e-9)].sum()
                check(below <= cap[j] + at, f"{name}: more area below Qref than the polar cap at row {j}")
                check(upto >= cap[j] - at or r[j] + dq >= q.max(), f"{name}: less area below Qref than the cap at row {j}")
    near(q, keep[0], 0, "input field modified")
    near(area, keep[1], 0, "input area modified")
    check(basis.eqvlat_fawa(ylat, q, area, n, planet_radius=case["radius"], output_fawa=False)[1] is None,
          "fawa returned although output_fawa=False")
    check(basis.eqvlat_vgrad(ylat, q, area, n, planet_radius=case["radius"])[1] is None, "brac returned without vgrad")
    return label(case, q)


def symmetries(case):
    """Permutation within latitude circles, affine maps, change of planet radius, duplicated longitudes."""
    from falwa import basis
    ylat, xlon, area = areas(case)
    q = gen.baro_field(case)
    if not q.max() > q.min():
        return None
    n, R = npts(case), case["radius"]

    def f(q_, area_=area, R_=R):
        return (basis.eqvlat_fawa(ylat, q_, area_, n, planet_radius=R_)[0][sure],
                basis.eqvlat_vgrad(ylat, q_, area_, n, planet_radius=R_)[0][sure])
    tol = 1e-7 * relscale(q)    # a rounding of the area moves a contour by 1e-8 rad next to the pole
    lo, hi, _ = model(ylat, q, area, n, R, 1e-12)
    sure = hi - lo <= 1e-4 * relscale(q)       # elsewhere a rounding decides
    base = f(q)
    r = np.random.default_rng(case["seed"] + 1)
    order = np.array([r.permutation(row.size) for row in q])
    for a, b in zip(f(np.take_along_axis(q, order, 1), np.take_along_axis(area, order, 1)), base):
        near(a, b, tol, "Qref after permuting points along latitude circles")
    for a, b in zip(f(4 * q), base):
        near(a, 4 * b, 4 * tol, "Qref of 4q")
    for a, b in zip(f(q, 4 * area, 2 * R), base):
        near(a, b, tol, "Qref on a planet of twice the radius")
    dbl = np.concatenate([q, q], axis=1)
    for a, b in zip(f(dbl, np.concatenate([area, area], axis=1) / 2), base):
        near(a, b, tol, "Qref with every longitude duplicated")
    # affine map with rounding: interval model of the shifted field
    s = q + case["offset"] * relscale(q)
    if s.max() > s.min():
        lo, hi, _ = model(ylat, s, area, n, R, 1e-12)
        lo, hi = lo[sure], hi[sure]
        for a in f(s):
            near(np.clip(a, lo, hi), a, 1e-9 * relscale(s, q), "Qref of a shifted field")
    return label(case, q)


def bracket(case):
    """<g>_Q: bin averages of g, averaged over the two neighbouring bins, at the equivalent latitude."""
    from falwa import basis
    ylat, xlon, area = areas(case)
    q = gen.baro_field(case)
    if not q.max() > q.min():
        return None
    n, R = npts(case), case["radius"]
    r = np.random.default_rng(case["seed"] + 2)
    g = r.normal(size=q.shape)
    b = np.linspace(q.min(), q.max(), n)
    d = np.abs(q[..., None] - b[1:-1]) if n > 2 else np.ones(q.shape + (1,))
    if (d < 1e-12 * relscale(q)).any():
        return None      # a value on a bin edge: the bin it belongs to depends on rounding
    ind = np.searchsorted(b, q, side="right")
    s, t = np.zeros(n + 1), np.zeros(n + 1)
    np.add.at(s, ind, area)
    np.add.at(t, ind, area * g)
    with np.errstate(all="ignore"):
        mean = np.where(s > 0, t / s, 0.)[:n]
    want = np.zeros(n)
    want[1:-1] = 0.5 * (mean[:-2] + mean[2:])
    mu = np.cumsum(s[:n]) / (2 * np.pi * R ** 2) - 1
    w = [np.interp(ylat, np.rad2deg(np.arcsin(np.clip(mu + e, -1, 1))), want) for e in (-1e-13, 0, 1e-13)]
    sure = np.abs(w[2] - w[0]) < 1e-6 * relscale(g)     # elsewhere a rounding decides
    qr, got = basis.eqvlat_vgrad(ylat, q, area, n, planet_radius=R, vgrad=g)
    near(got[sure], w[1][sure], 1e-5 * relscale(g), "<g>_Q")
    near(qr, basis.eqvlat_vgrad(ylat, q, area, n, planet_radius=R)[0], 1e-12 * relscale(q), "Qref depends on vgrad")
    near(basis.eqvlat_vgrad(ylat, q, area, n, planet_radius=R, vgrad=3 * g)[1], 3 * got, 1e-9 * 3 * relscale(g),
         "<3g>_Q")
    check(np.abs(got).max() <= np.abs(g).max() * (1 + 1e-9), "<g>_Q exceeds the range of g")
    return label(case, q)


def fawa(case):
    """The finite-amplitude wave activity returned with Qref: minus the circulation of the smaller values minus that
    north of the latitude (trapezoidal over rows), per latitude circle length; every latitude but the first."""
    from falwa import basis
    ylat, xlon, area = areas(case)
    q = gen.baro_field(case)
    if not q.max() > q.min():
        return None
    n, R = npts(case), case["radius"]
    b = np.linspace(q.min(), q.max(), n)
    rows = (area * q.mean(axis=1, keepdims=True)).sum(axis=1)
    mid = 0.5 * (rows[1:] + rows[:-1])
    north = np.array([mid[j:].sum() for j in range(ylat.size)])
    outs = []
    for e in (-1e-12, 0, 1e-12):
        low = [(q < x + e * relscale(q)) & (q < q.max()) for x in b[1:]]
        mu = np.array([0.] + [area[m].sum() for m in low]) / (2 * np.pi * R * R) - 1 - np.sign(e) * 1e-13
        circ = np.array([0.] + [(area * q)[m].sum() for m in low])
        south = np.interp(ylat, np.rad2deg(np.arcsin(np.clip(mu, -1, 1))), circ)
        outs.append((-(south + north) / (2 * np.pi * R))[1:])
    sc = relscale(q) * area.sum() / (2 * np.pi * R)
    tol = 1e-9 * sc
    sure = np.ptp(outs, axis=0) <= 1e-4 * sc       # elsewhere a rounding decides
    lo, hi = np.min(outs, axis=0) - 1e-7 * sc, np.max(outs, axis=0) + 1e-7 * sc

    def f(q_, area_=area, R_=R):
        Q, A = basis.eqvlat_fawa(ylat, q_, area_, n, planet_radius=R_)
        check(A.shape == (ylat.size - 1,), f"FAWA has shape {A.shape}")
        return A[sure]
    got = f(q)
    near(np.clip(got, lo[sure], hi[sure]), got, tol, "finite-amplitude wave activity")
    near(f(2 * q), 2 * got, 1e-6 * sc, "FAWA of a doubled field")
    near(f(q, 4 * area, 2 * R), 2 * got, 2e-6 * sc, "FAWA on a planet of twice the radius")
    near(f(np.roll(q, 1, axis=1), np.roll(area, 1, axis=1)), got, 1e-6 * sc, "FAWA of a field rolled in longitude")
    if R == 6.378e6:
        near(basis.eqvlat_fawa(ylat, q, area, n)[1][sure], got, tol, "FAWA with the default radius")
        near(basis.eqvlat_vgrad(ylat, q, area, n)[0], basis.eqvlat_vgrad(ylat, q, area, n, planet_radius=R)[0],
             1e-9 * relscale(q), "eqvlat_vgrad with the default radius")
    return label(case, q) if sure.any() and np.abs(got).max() > 1e-6 * sc else None


def field(case):
    """BarotropicField.equivalent_latitudes is the rearrangement on the default grid; access is repeatable."""
    from falwa import basis
    from falwa.barotropic_field import BarotropicField
    ylat, xlon, area, dmu, clat, dphi = gen.baro_grid(case)
    q = gen.baro_field(case)
    if not q.max() > q.min():
        return None
    R = case["radius"]
    kw = dict(planet_radius=R)
    n = case["nlat"]
    if case["npts"]:
        kw["n_partitions"] = n = case["npts"]
    if np.ndim(dphi):     # the default area follows the given latitude spacing
        dphi = dphi * min(1., 2 / (clat * dphi).sum())
        kw["dphi"] = dphi
    area = 2 * np.pi * R * R * (clat * dphi)[:, None] / xlon.size * np.ones(q.shape)
    o = BarotropicField(xlon, ylat, q.copy(), **kw)
    lo, hi, _ = model(ylat, q, area, n, R, 1e-12)
    tol = 1e-9 * relscale(q)
    if case["exact"]:
        _ = o.lwa
    got = np.array(o.equivalent_latitudes)
    near(np.clip(got, lo, hi), got, tol, "BarotropicField.equivalent_latitudes")
    near(o.equivalent_latitudes, got, 0, "second access")
    area2 = area * np.linspace(0.9, 1.0, ylat.size)[:, None]
    lo, hi, _ = model(ylat, q, area2, n, R, 1e-12)
    got = BarotropicField(xlon, ylat, q, area=area2, **kw).equivalent_latitudes
    near(np.clip(got, lo, hi), got, tol, "BarotropicField with given area")
    return label(case, q)


RULE = "the field is not constant"
LAWS = [
    Law("rearrange", strat(), rearrange, 700, 12000, 3, RULE),
    Law("symmetries", strat(), symmetries, 350, 6000, 2, RULE),
    Law("bracket", strat(), bracket, 350, 6000, 1, RULE + " and no value lies on a bin edge"),
    Law("fawa", strat(), fawa, 350, 6000, 1, RULE + " and the wave activity does not vanish"),
    Law("field", strat(), field, 350, 6000, 1, RULE),
]
