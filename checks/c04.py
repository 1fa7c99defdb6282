"""C04: finite-difference operators in falwa.utilities."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, relscale

ASSUMPTIONS = ["fields on grids of at least three latitudes and two longitudes"]


def strat():
    return st.fixed_dictionaries(dict(
        nlat=st.integers(3, 24), nlon=st.integers(2, 24), kmax=st.integers(3, 10), seed=gen.seeds,
        radius=st.sampled_from([6.378e6, 1.0, 3.39e6]), poles=st.booleans(),
        cut=st.sampled_from(["symmetric", "symmetric", "centres", "north", "south", "band"]), offset=st.sampled_from([0., 0., 6., -6.]),
        tol=st.sampled_from([None, None, 0.05, 0.3]), scale=st.sampled_from([1.0, 1e-5, 3e4]),
        layout=st.sampled_from(gen.LAYOUTS), dz=gen.floats(100, 3000), H=gen.floats(5000, 9000)))


def grid(case):
    n, m = case["nlat"], case["nlon"]
    # the operators take any band of latitudes
    south, north = {"symmetric": (-90, 90) if case["poles"] else (-80, 80), "centres": (-90 + 90 / n, 90 - 90 / n),
                    "north": (0, 90) if case["poles"] else (20, 85), "south": (-90, 0) if case["poles"] else (-85, -20),
                    "band": (-30, 60) if case["poles"] else (25, 65)}[case["cut"]]
    lat = np.linspace(south, north, n)
    return lat, np.abs(np.cos(np.deg2rad(lat))), np.deg2rad(lat[1] - lat[0]), 2 * np.pi / m


def horizontal(case):
    from falwa import utilities as ut
    lat, c, dphi, dl = grid(case)
    a = case["radius"]
    r = np.random.default_rng(case["seed"])
    shape = (case["nlat"], case["nlon"])
    f = gen.relayout(case["scale"] * (case["offset"] + r.normal(size=shape)), case["layout"])
    g = gen.relayout(case["scale"] * (case["offset"] + r.normal(size=shape)), case["layout"])
    if case["layout"] == "integers":    # counts, e.g. packed data: one of the two fields or both
        f = np.round(50 * f / case["scale"]).astype(np.int64)
        if case["seed"] % 2:
            g = np.round(50 * g / case["scale"]).astype(np.int64)
        elif case["seed"] % 4:
            f, g = g, f
    keep = f.copy(), g.copy(), c.copy()
    kw = {} if a == 6.378e6 and case["seed"] % 2 else dict(planet_radius=a)    # the default radius is Earth's
    tol = 1e-5
    if case["tol"] is not None:
        kw["tol"] = tol = case["tol"]
    live = np.abs(c) > tol
    cc = np.where(live, c, 1.)[:, None]
    # --- zonal convergence
    want = np.where(live[:, None], -(np.roll(f, -1, 1) - np.roll(f, 1, 1)) / (2 * dl * a * cc), 0.)
    amp = 1e-11 * relscale(f, g) / (a * dl * cc.min())
    z = ut.zonal_convergence(f, c, dl, **kw)
    near(z, want, amp, "zonal_convergence")
    near(z.sum(axis=1), np.zeros(shape[0]), amp * shape[1], "zonal mean of the zonal convergence")
    k = case["seed"] % shape[1]
    near(ut.zonal_convergence(np.roll(f, k, 1), c, dl, **kw), np.roll(z, k, 1), amp, "zonal_convergence of a rolled field")
    # --- meridional divergence
    fc = f * c[:, None]
    d = np.empty(shape)
    d[1:-1] = (fc[2:] - fc[:-2]) / (2 * dphi)
    d[0] = (fc[1] - fc[0]) / dphi
    d[-1] = (fc[-1] - fc[-2]) / dphi
    want = np.where(live[:, None], d / (a * cc), 0.)
    amp = 1e-11 * relscale(f, g) / (a * dphi * cc.min())
    md = ut.meridional_divergence(f, c, dphi, **kw)
    near(md, want, amp, "meridional_divergence")
    near(ut.meridional_divergence(f[::-1], c[::-1], dphi, **kw), -md[::-1], amp, "meridional_divergence of the mirrored field")
    near(ut.meridional_divergence(f + 2 * g, c, dphi, **kw), md + 2 * ut.meridional_divergence(g, c, dphi, **kw),
         6 * amp, "linearity of meridional_divergence")
    # --- curl
    u, v = f, g
    cu = ut.curl_2d(u, v, c, dl, dphi, **{k: x for k, x in kw.items() if k == "planet_radius"})
    cin = c[1:-1, None]
    uc = u * c[:, None]
    want = np.zeros(shape)
    want[1:-1] = ((np.roll(v, -1, 1) - np.roll(v, 1, 1))[1:-1] / (2 * dl) - (uc[2:] - uc[:-2]) / (2 * dphi)) / (a * cin)
    amp = 1e-11 * relscale(u, v) / (a * min(dl, dphi) * cin.min())
    near(cu, want, amp, "curl_2d")
    if case["poles"] and case["cut"] == "symmetric":
        near((cu * c[:, None]).sum() * a, -(uc[-2:].sum() - uc[:2].sum()) / (2 * dphi) if shape[0] > 3 else
             (cu * c[:, None]).sum() * a, amp * a * cu.size, "area integral of the curl")
    for x, y, what in zip((f, g, c), keep, ("field", "field", "clat")):
        near(x, y, 0, f"input {what} modified")
    return [case["cut"] + (" with pole rows" if case["poles"] else ""), f"tol {case['tol']}", case["layout"],
            "one sign" if case["offset"] else "both signs"]


def heights(case):
    """Equally spaced levels (case["dz"] apart), or for every third seed levels of unequal spacing."""
    z = case["dz"] * np.arange(case["kmax"])
    if case["seed"] % 3 == 2:
        z = z + case["dz"] * 0.8 * np.random.default_rng(case["seed"] + 3).uniform(size=z.size)
    return z


def difference(p, z):
    """Centred differences, one-sided at both ends, along the first axis."""
    z = z.reshape(z.shape + (1,) * (p.ndim - 1))
    d = np.empty(p.shape)
    d[1:-1] = (p[2:] - p[:-2]) / (z[2:] - z[:-2])
    d[0] = (p[1] - p[0]) / (z[1] - z[0])
    d[-1] = (p[-1] - p[-2]) / (z[-1] - z[-2])
    return d


def vertical(case):
    from falwa import utilities as ut
    K, n, m = case["kmax"], case["nlat"], case["nlon"]
    lat, c, dphi, dl = grid(case)
    r = np.random.default_rng(case["seed"])
    z = heights(case)
    area = c[:, None] * np.ones((n, m)) * case["radius"] ** 2
    # with areas that differ between columns the profile is zonally symmetric: then there is one area-weighted mean
    columns = case["seed"] % 4 == 1
    if columns:
        area = area * r.uniform(0.4, 1.6, (n, m))
    th = 300 + 0.004 * z[:, None, None] + 5 * (r.normal(size=(K, n, 1)) + np.zeros(m) if columns
                                               else r.normal(size=(K, n, m)))
    s_et = None if case["seed"] % 3 else 1 + case["seed"] % (n - 1)
    n_et = None if case["seed"] % 2 else 1 + (case["seed"] // 7) % (n - 1)
    if not (area[:(s_et or n // 2)].sum() > 1e-6 * area.sum() and area[-(n_et or n // 2):].sum() > 1e-6 * area.sum()):
        s_et = n_et = None
        if n // 2 < 2:
            return None
    keep = th.copy()
    out = ut.static_stability(z, area, th, s_et=s_et, n_et=n_et)
    out2 = ut.static_stability(z, area.mean(axis=1), th.mean(axis=2), s_et=s_et, n_et=n_et)
    near(th, keep, 0, "theta modified")
    S, N = slice(0, s_et or n // 2), slice(n - (n_et or n // 2), None)
    t0n = (th[:, N] * area[None, N]).sum(axis=(1, 2)) / area[N].sum()
    t0s = (th[:, S] * area[None, S]).sum(axis=(1, 2)) / area[S].sum()
    grad = lambda t: difference(t, z)
    for got, want, what in zip(out, (t0n, t0s, grad(t0n), grad(t0s)), ("t0_n", "t0_s", "stat_n", "stat_s")):
        near(got, want, 1e-11 * (400 if what[0] == "t" else 400 / np.diff(z).min()), "static_stability " + what)
    for a, b, what in zip(out, out2, ("t0_n", "t0_s", "stat_n", "stat_s")):
        near(a, b, 1e-9, "static_stability of zonal means " + what)
    return ["default" if s_et is None else "given s_et"] + (["column areas"] if columns else [])


def products(case):
    from falwa import utilities as ut
    K, m = case["kmax"], case["nlon"]
    n = case["nlat"] + 1 - case["nlat"] % 2
    eq = n // 2 + 1
    r = np.random.default_rng(case["seed"])
    dz, H = case["dz"], case["H"]
    z = dz * np.arange(K)
    sn, ss = r.uniform(0.003, 0.006, K), r.uniform(0.003, 0.006, K)
    g = case["scale"] * r.normal(size=(K, n, m))
    mult = r.normal(size=(K, n))
    dec = np.exp(-z / H)
    keep = g.copy(), mult.copy()
    got = ut.z_derivative_of_prod(sn, ss, K, eq, dz, dec, g, mult)
    near(g, keep[0], 0, "gfunc modified")
    near(mult, keep[1], 0, "multiplier modified")
    st_ = np.empty((K, n))
    st_[:, :n // 2] = ss[:, None]
    st_[:, n // 2] = 0.5 * (ss + sn)
    st_[:, n // 2 + 1:] = sn[:, None]
    p = dec[:, None, None] * g / st_[:, :, None]
    want = np.empty(g.shape)
    want[1:-1] = (p[2:] - p[:-2]) / (2 * dz)
    want[0] = (p[1] - p[0]) / dz
    want[-1] = (p[-1] - p[-2]) / dz
    near(got, want * mult[:, :, None], 1e-11 * relscale(p) * relscale(mult) / dz, "z_derivative_of_prod")
    # QGPV from given vorticity, on levels that need not be equally spaced; the default scale height is 7 km
    z = heights(case)
    hkw = dict(scale_height=H)
    if case["seed"] % 5 == 0:
        hkw, H = {}, 7000.
    lat = np.linspace(-90, 90, n)
    om = 7.29e-5
    th = 300 + 0.004 * z[:, None, None] + 3 * r.normal(size=(K, n, m))
    av = 1e-4 * (case["offset"] + r.normal(size=(K, n, m)))
    t0n, t0s = 300 + 0.004 * z + r.normal(size=K), 300 + 0.004 * z + r.normal(size=K)
    ns = eq if case["seed"] % 2 else None
    if ns is None:
        n2 = n - 1                      # even grid, default division
        lat, th, av = np.delete(lat, n // 2), np.delete(th, n // 2, axis=1), np.delete(av, n // 2, axis=1)
        half = n2 // 2
    else:
        n2, half = n, n // 2
    if case["layout"] == "integers":
        th = np.round(th).astype(np.int64)
    keep = av.copy(), th.copy()
    q, dzdiv = ut.compute_qgpv_givenvort(om, n2, m, K, z, lat, av, th, t0n, t0s, sn, ss, nlat_s=ns, **hkw)
    near(av, keep[0], 0, "avort modified")
    near(th, keep[1], 0, "potential_temp modified")
    nh = np.arange(n2) >= half          # with nlat_s covering the equator row, that row is Northern
    T0, S0 = np.where(nh[None], t0n[:, None], t0s[:, None]), np.where(nh[None], sn[:, None], ss[:, None])
    p = np.exp(-z / H)[:, None, None] * (th - T0[:, :, None]) / S0[:, :, None]
    d = difference(p, z) * np.exp(z / H)[:, None, None]
    amp = 1e-11 * relscale(p) * np.exp(z[-1] / H) / np.diff(z).min()
    near(dzdiv, d, amp, "stretching term")
    near(q, av + d * (2 * om * np.sin(np.deg2rad(lat)))[None, :, None], amp * 2 * om + 1e-15, "compute_qgpv_givenvort")
    return ["given nlat_s" if ns else "default nlat_s"] + (["integers"] if case["layout"] == "integers" else [])


LAWS = [
    Law("horizontal", strat(), horizontal, 800, 15000, 3, "random field"),
    Law("vertical", strat(), vertical, 500, 8000, 2, "random profile"),
    Law("products", strat(), products, 500, 8000, 2, "random fields"),
]
