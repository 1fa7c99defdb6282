"""C28: the earlier solver of the reference state (falwa.legacy)."""
import warnings

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, relscale

ASSUMPTIONS = ["evenly spaced latitudes from pole to pole, at least five levels of 1000 m, positive stratification",
               "terrestrial constants, as the function has them built in"]
OM, A, R, CP, H, DZ = 7.29e-5, 6378000., 287., 1004., 7000., 1000.
KAPPA = R / CP


def inputs(case):
    r = np.random.default_rng(case["seed"])
    n, K = case["nlat"], case["kmax"]
    ylat = np.linspace(-90., 90., n)
    c = np.cos(np.deg2rad(ylat))
    smooth = lambda s: s * r.normal(size=(K, n)) if case["rough"] else s * np.outer(
        1 + 0.3 * np.sin(r.uniform(0, 6) + np.arange(K) / 3), np.cos(np.deg2rad(r.integers(1, 5) * ylat + r.uniform(0, 90))))
    d = dict(zmum=smooth(20.) + 10 * r.normal(),
             FAWA_cos=np.abs(smooth(30.)) * c, ylat=ylat,
             ephalf2=10. ** (case["eps"] + 0.5 * r.random((K, n))),
             Delta_PT=5 * r.normal(size=n) if case["rough"] else -20 * np.sin(np.deg2rad(ylat)) ** 2 * r.random(),
             zm_PT=290. + 4 * np.arange(K)[:, None] - 30 * np.sin(np.deg2rad(ylat)) ** 2 + smooth(1.),
             Input_B0=r.normal(size=n) * case["b0"], Input_B1=r.normal(size=n) * case["b1"])
    return {k: gen.relayout(v, gen.LAYOUTS[(case["seed"] + i) % 7]) if v.ndim == 2 and case["layouts"] else v
            for i, (k, v) in enumerate(d.items())}


def on(ylat, x, lat):
    """Linear interpolation along the last axis."""
    i = np.clip(np.searchsorted(ylat, lat, side="right") - 1, 0, len(ylat) - 2)
    w = (lat - ylat[i]) / (ylat[i + 1] - ylat[i])
    return x[..., i] * (1 - w) + x[..., i + 1] * w


def second(x):
    return x[2:] - 2 * x[1:-1] + x[:-2]


def solve(d):
    """Corrections of wind and temperature for a rigid and an adiabatic lower boundary, (K, rows of the north)."""
    y = d["ylat"]
    K, n = d["FAWA_cos"].shape
    J = n // 4
    dm = 1. / (J + 1)
    m2 = np.arange(J + 2) * dm
    lat2 = np.rad2deg(np.arcsin(m2))
    mu, lat = m2[1:-1], lat2[1:-1]
    cos, f = np.sqrt(1 - mu ** 2), 2 * OM * mu
    q = np.zeros((J + 2, K))                                    # zero at the equator and the pole
    q[1:-1] = -on(y, d["FAWA_cos"], lat).T / f[:, None]
    e = on(y, d["ephalf2"], lat).T * (dm / DZ) ** 2
    up, down = e * np.exp(-DZ / (2 * H)), np.roll(e, 1, axis=1) * np.exp(DZ / (2 * H))
    dpt = on(y, d["Delta_PT"], lat2)
    top = -R * cos ** 2 * np.exp(-KAPPA * DZ * (K - 2) / H) * (dpt[2:] - dpt[:-2]) / (f ** 2 * A * H * dm / DZ)
    b0, b1 = (second(on(y, d[k], lat2)) for k in ("Input_B0", "Input_B1"))
    bottom = -R * cos ** 2 * 2 * DZ / (f ** 2 * A ** 2 * H * dm ** 2) * (b0 + b1 * np.exp(-KAPPA * DZ / H))
    ground = on(y, d["zmum"], lat)[0] * cos / f
    out = []
    rhs0 = q[2:] - 2 * q[1:-1] + q[:-2]
    for adiabatic in (False, True):
        # unknowns in blocks of one latitude
        M = np.zeros((J, K, J, K))
        rhs = rhs0.copy()
        for j in range(J):
            for k in range(1, K - 1):
                M[j, k, j, k] = -2 - up[j, k] - down[j, k]
                M[j, k, j, k + 1], M[j, k, j, k - 1] = up[j, k], down[j, k]
                if j:
                    M[j, k, j - 1, k] = 1
                if j + 1 < J:
                    M[j, k, j + 1, k] = 1
            M[j, K - 1, j, K - 1], M[j, K - 1, j, K - 3] = 1, -1
            rhs[j, K - 1] = top[j]
            if adiabatic:
                M[j, 0, j, 2], M[j, 0, j, 0] = 1, -1
                rhs[j, 0] = bottom[j]
            else:
                M[j, 0, j, 0] = 1
                rhs[j, 0] = ground[j]
        w = np.linalg.solve(M.reshape(J * K, J * K), rhs.ravel()).reshape(J, K)
        du = np.zeros((J + 2, K))
        du[1:-1] = w * (f / cos)[:, None]
        # thermal wind: steps of two rows about the row between
        dt = np.zeros((J + 2, K))
        for k in range(1, K - 2):
            for j in range(2, J + 2, 2):
                dt[j, k] = dt[j - 2, k] - 2 * OM * mu[j - 2] * A * H * dm / DZ / (R * cos[j - 2]) * (du[j - 1, k + 1] - du[j - 1, k - 1])
            dt[:, k] = on(m2[::2], dt[None, ::2, k], m2)[0]
            dt[:, k] -= dt[:, k].mean()
        rows = y[-((n + 1) // 2):].clip(0, 90)
        out.append((on(lat2, du.T, rows), on(lat2, dt.T, rows)))
    return out


def call(d, **kw):
    from falwa.legacy.beta_version import solve_uref_both_bc
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return [np.array(x) for x in solve_uref_both_bc("now", *(d[k] for k in (
            "zmum", "FAWA_cos", "ylat", "ephalf2", "Delta_PT", "zm_PT", "Input_B0", "Input_B1")), **kw)]


NAMES = [f"{a} ({b})" for b in ("rigid ground", "adiabatic ground") for a in
         ("wind correction", "reference wind", "temperature correction", "reference temperature")]


def solution(case):
    d = inputs(case)
    keep = {k: v.copy() for k, v in d.items()}
    got = call(d)
    for k in d:
        near(d[k], keep[k], 0, f"{k} was modified")
    K, n = d["zmum"].shape
    s = n - (n + 1) // 2
    cool = np.exp(-KAPPA * DZ * np.arange(K) / H)[:, None]
    want = []
    for u, t in solve(d):
        want += [u, d["zmum"][:, s:] - u, t, d["zm_PT"][:, s:] * cool - t]
    for g, w, name in zip(got, want, NAMES):
        check(g.shape == (K, n), f"shape of the {name}: {g.shape}")
        near(g[:, :s], np.zeros((K, s)), 0, f"{name} south of the equator")
        near(g[:, s:], w, 1e-6 * relscale(w), name)
    # nothing but the corrections depends on the stored state: the same call gives the same
    for g, x, name in zip(got, call(d), NAMES):
        near(x, g, 1e-9 * relscale(g), f"{name} of a second call")
    return ["rough" if case["rough"] else "smooth", "odd" if n % 2 else "even", "polar row" if (n // 4) % 2 else "no polar row"]


def response(case):
    """The corrections respond linearly to their sources and vanish without them."""
    d, e = inputs(case), inputs({**case, "seed": case["seed"] + 1})
    e["ephalf2"] = d["ephalf2"]
    p, q = 1.5, -0.75
    mix = {k: d[k] if k in ("ylat", "ephalf2") else p * d[k] + q * e[k] for k in d}
    a, b, c = call(d), call(e), call(mix)
    for i, name in enumerate(NAMES):
        near(c[i], p * a[i] + q * b[i], 1e-7 * relscale(a[i], b[i]), f"linearity of the {name}")
    none = {k: d[k] if k in ("ylat", "ephalf2", "zm_PT") else 0 * d[k] for k in d}
    for i in (0, 1, 2, 4, 5, 6):
        near(call(none)[i], 0 * a[i], 1e-12, f"{NAMES[i]} without sources")
    return ["rough" if case["rough"] else "smooth"]


def strat():
    return st.fixed_dictionaries(dict(
        seed=gen.seeds, nlat=st.one_of(st.integers(12, 33), st.sampled_from([45, 61, 64])), kmax=st.integers(5, 12),
        rough=st.booleans(), eps=st.integers(6, 10), layouts=st.booleans(), b0=st.sampled_from([0., 1., 1e4]),
        b1=st.sampled_from([0., 1., 1e4])))


LAWS = [
    Law("solution", strat(), solution, 200, 4000, 3, "every case (random sources)"),
    Law("response", strat(), response, 100, 2000, 2, "every case (random sources)"),
]
