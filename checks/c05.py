"""C05: interpolation to the pseudoheight grid, potential temperature, static stability."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, model
from lib.common import Law, check, near, relscale
from lib.qg import Run

ASSUMPTIONS = ["strictly descending pressure levels with at least six levels; odd latitude grids (even grids: C16)"]


def fields(case):
    run = Run(case)
    b, o = run.b, run.o
    keep = {k: b[k].copy() for k in ("u", "v", "t")}
    t = run.interp()
    z = run.dz * np.arange(run.K)
    near(o.height, z, 1e-9 * z[-1], "height")
    src = dict(U=b["u"], V=b["v"], Theta=model.potential_temperature(b["t"], b["plev"], run.R, run.cp))
    for name, x in src.items():
        want = x if case["uniform"] else model.interp_linear(b["z"], x, z)
        near(getattr(t, name), want, 1e-9 * relscale(x), name)
        near(getattr(o, dict(U="interpolated_u", V="interpolated_v", Theta="interpolated_theta")[name]), want,
             1e-9 * relscale(x), f"property of {name}")
    near(o.qgpv, t.QGPV, 0, "property qgpv against the named tuple")
    for k, x in keep.items():
        near(b[k], x, 0, f"input {k} modified")
    t0s, t0n, ss, sn = run.profiles()
    if run.cls == "NH18":
        near(t.Static_stability, 0.5 * (ss + sn), 1e-8 * relscale(ss, sn), "global static stability")
        near(o.static_stability, t.Static_stability, 0, "property static_stability")
    else:
        for i, (x, n) in enumerate(((ss, "south"), (sn, "north"))):
            near(t.Static_stability[i], x, 1e-8 * relscale(x), f"static stability ({n})")
            near(o.static_stability[i], x, 1e-8 * relscale(x), f"property static_stability ({n})")
    return [case["cls"], "given grid" if case["uniform"] else "interpolated"]


def profile(case):
    """A theta that depends on height only, linearly: static stability is its slope in both hemispheres."""
    b = gen.build(case)
    c = b["c"]
    s = case["strat"]
    prof = 280. + s * b["z"]
    pi = np.exp(-c["dry_gas_constant"] / c["cp"] * b["z"] / c["scale_height"])
    b["t"] = (prof * pi)[:, None, None] * np.ones(b["u"].shape)
    run = Run(case, data=b)
    t = run.interp()
    z = run.dz * np.arange(run.K)
    near(t.Theta, (280. + s * z)[:, None, None] * np.ones(t.Theta.shape), 1e-8 * 400, "theta of a linear profile")
    for x in (t.Static_stability if isinstance(t.Static_stability, tuple) else (t.Static_stability,)):
        near(x, np.full(run.K, s), 1e-6 * s, "static stability of a linear profile")
    return [case["cls"]]


DEFAULTS = (("kmax", 49), ("maxit", 100000), ("dz", 1000.), ("npart", None), ("tol", 1e-5), ("rjac", 0.95),
            ("scale_height", 7000.), ("cp", 1004.), ("dry_gas_constant", 287.), ("omega", 7.29e-5),
            ("planet_radius", 6.378e6), ("northern_hemisphere_results_only", False))


def defaults(case):
    """Parameters that are not given have the documented defaults, and may be given by position in the documented order."""
    from falwa.oopinterface import QGFieldNH18, QGFieldNHN22
    r = np.random.default_rng(case["seed"])
    k, new = case["kmax"], dict(maxit=777, dz=950.5, npart=23, tol=3e-4, rjac=0.8, scale_height=7777., cp=999.,
                                dry_gas_constant=300., omega=5e-5, planet_radius=5e6, kmax=11,
                                northern_hemisphere_results_only=True)
    nlev, nlat, nlon = 8 + case["seed"] % 20, case["nlat"], case["nlon"]
    z = np.sort(np.concatenate([[0., 48200.], r.uniform(100., 48000., nlev - 2)]))
    x = (np.arange(nlon) * 360. / nlon, np.linspace(-90, 90, nlat), 1000. * np.exp(-z / 7000.),
         *(r.normal(size=(nlev, nlat, nlon)) for _ in "uv"), 250 + r.normal(size=(nlev, nlat, nlon)))
    cls = dict(NH18=QGFieldNH18, NHN22=QGFieldNHN22)[case["cls"]]
    n = k % (len(DEFAULTS) + 1)
    want = dict(DEFAULTS)
    want.update({name: new[name] for name, _ in DEFAULTS[:n]})
    pos, kw = [want[name] for name, _ in DEFAULTS[:n]], {}
    for name, _ in DEFAULTS[n:]:
        if r.random() < 0.3:
            kw[name] = want[name] = new[name]
    if case["cls"] == "NHN22":
        want["eq_boundary_index"] = 5
        if n == len(DEFAULTS) and case["seed"] % 3:
            pos.append(case["seed"] % 4)
            want["eq_boundary_index"] = pos[-1]
    if want["npart"] is None:
        want["npart"] = nlat
    o = cls(*x, *pos, **kw)
    for name, w in want.items():
        check(getattr(o, name) == w, f"{name} is {getattr(o, name)!r}, {w!r} expected")
    near(o.height, want["dz"] * np.arange(want["kmax"]), 1e-9 * 1e5, "height")
    t = o.interpolate_fields()
    want_t = model.interp_linear(-want["scale_height"] * np.log(x[2] / 1000.),
                                 model.potential_temperature(x[5], x[2], want["dry_gas_constant"], want["cp"]), o.height)
    near(t.Theta, want_t, 1e-9 * relscale(want_t), "Theta")
    check(t.U.shape == (want["kmax"], nlat, nlon), f"shape {t.U.shape}")
    return [case["cls"], f"{n} by position"]


RULE = "every generated atmosphere counts (three-dimensional fields, none of them constant)"
LAWS = [
    Law("fields", gen.qg_case(), fields, 600, 8000, 4, RULE),
    Law("defaults", st.fixed_dictionaries(dict(cls=st.sampled_from(["NH18", "NHN22"]), nlat=st.sampled_from([13, 15, 21]),
                                               nlon=st.integers(4, 9), kmax=st.integers(0, 12), seed=gen.seeds)),
        defaults, 150, 1500, 1, RULE),
    Law("profile", gen.qg_case(), profile, 200, 2000, 2, RULE),
]
