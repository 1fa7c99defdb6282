"""Generators. Every random choice is a drawn value of the case (arrays are expanded from drawn seeds)."""
import numpy as np
from hypothesis import strategies as st


def floats(lo, hi, n=400):
    """A grid of values, drawn uniformly (wide integer ranges are drawn with a bias to tiny values), zero first."""
    v = sorted((round(lo + (hi - lo) * i / n, 6) for i in range(n + 1)), key=abs)
    if lo <= 0 <= hi:
        v = [0.] * 10 + v
    return st.sampled_from(v)


seeds = st.integers(0, 99999)

# ---------------------------------------------------------------- QG atmosphere


def planet():
    """Factors of the physical constants, or None for those of the Earth."""
    return st.one_of(st.none(), st.fixed_dictionaries(dict(
        omega=floats(0.6, 1.6), planet_radius=floats(0.6, 1.6), scale_height=floats(0.8, 1.25),
        cp=floats(0.8, 1.25), dry_gas_constant=floats(0.8, 1.25))))


SMALL = (9, 11, 13, 15, 17, 19, 21)
BIG = (31, 37, 45, 61, 73, 91, 121, 181)


def qg_case(nlats=SMALL, nlons=(6, 20), kmaxs=(5, 9), cls=("NH18", "NHN22"), even=False,
            consts=True, uniform=True, max_amp=2.5, big=None):
    """A QGField problem: grid, constants, and a physically plausible but arbitrary atmosphere.

    One case in eight has the resolution of real data in latitude, one in eight in height (up to 49 levels), one in
    eight in longitude (up to 72).
    """
    if big is None:
        big = kmaxs == (5, 9)

    def mostly(small, large):
        return st.one_of(*[small] * 7, large) if big else small
    d = dict(
        cls=st.sampled_from(list(cls)),
        nlat=mostly(st.sampled_from(list(nlats)), st.sampled_from(BIG)).map(lambda n: n + 1 if even else n),
        nlon=mostly(st.integers(*nlons), st.sampled_from([24, 30, 37, 48, 72])),
        kmax=mostly(st.integers(*kmaxs), st.sampled_from([13, 20, 25, 33, 41, 49])),
        dz=st.one_of(st.sampled_from([1000.0, 2000.0, 1500.0, 800.0, 2500.0, 900.75, 1333.25]),
                     st.integers(7000, 25000).map(lambda i: i / 10)),
        extra_lev=st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(6, 16)),
        zseed=seeds,
        seed=seeds,
        jet=floats(-10, 40),
        amp=floats(0, max_amp),
        noise=floats(0, 1.0),
        strat=floats(0.003, 0.006),
        grad=floats(0, 50),
        asym=floats(-0.6, 0.6),
        jb=st.integers(0, 5),
        npart=st.one_of(st.none(), st.integers(8, 60)),
    )
    if even:
        d["polar"] = st.booleans()
    if consts:
        d["const"] = planet()
    else:
        d["const"] = st.none()
    d["uniform"] = st.booleans() if uniform else st.just(False)
    def limit(c):
        # at most two dimensions of the resolution of real data
        return c if c["nlat"] <= 45 or c["kmax"] <= 13 or c["nlon"] <= 20 else {**c, "nlon": 6 + c["nlon"] % 14}
    return st.fixed_dictionaries(d).map(limit).map(lambda c: {**c, "dz": c["dz"] if c["kmax"] * c["dz"] <= 25000. else
                                                   round(24500. / c["kmax"] * (1 + c["zseed"] % 2), 2)})


DEFAULT = dict(omega=7.29e-5, planet_radius=6.378e6, scale_height=7000., cp=1004., dry_gas_constant=287.)


def constants(case):
    c = dict(DEFAULT)
    if case.get("const"):
        for k, v in case["const"].items():
            c[k] = c[k] * v
    return c


def latitudes(case):
    n = case["nlat"]
    if n % 2:
        return np.linspace(-90., 90., n)
    if case.get("polar"):
        if case["seed"] % 3:
            return np.linspace(-90., 90., n)
        return -90. + 180. / (n - 1) * np.arange(n)      # (symmetric up to rounding only)
    d = 180. / n
    return -90. + d / 2 + d * np.arange(n)


def build(case):
    """Expand a case into inputs: dict(xlon, ylat, plev, u, v, t, kwargs, cls, ...)."""
    c = constants(case)
    H = c["scale_height"]
    kmax, dz = case["kmax"], case["dz"]
    ylat = latitudes(case)
    nlon = case["nlon"]
    xlon = np.arange(nlon) * 360. / nlon
    rz = np.random.default_rng(case["zseed"])
    if case["uniform"]:
        z = np.arange(kmax) * dz
        nlev = kmax
        plev = 1000. * np.exp(-z / H)
    else:
        nlev = max(6, kmax - 2 + case["extra_lev"])
        w = np.concatenate([[0.], np.cumsum(rz.uniform(0.3, 1.0, nlev - 1))])
        z0 = rz.uniform(-200., 600.)
        top = (kmax - 1) * dz * rz.uniform(1.002, 1.1)
        z = z0 + w / w[-1] * (top - z0)
        plev = 1000. * np.exp(-z / H)
    z = -H * np.log(plev / 1000.)
    r = np.random.default_rng(case["seed"])
    ph = np.deg2rad(ylat)[None, :, None]
    lm = np.deg2rad(xlon)[None, None, :]
    Z = z[:, None, None]
    shape = (nlev, ylat.size, nlon)
    zz = Z / (z[-1] if z[-1] > 0 else 1.)
    asym = 1. + case["asym"] * np.sin(ph)

    def waves(a):
        out = np.zeros(shape)
        for m in range(1, 5):
            out += (a * r.normal() * np.cos(m * lm + r.uniform(0, 6.28)) * np.cos(ph) ** 2
                    * np.exp(-((ph - r.uniform(-1.1, 1.1)) / 0.5) ** 2)
                    * (1 + 0.5 * np.sin(4 * zz + r.uniform(0, 6.28))))
        return out

    def noise(a):
        return a * r.normal(size=shape) * np.cos(ph)

    amp, nz = case["amp"], case["noise"]
    u = case["jet"] * np.cos(ph) * np.sin(2 * ph) ** 2 * (0.4 + zz) * asym + 0 * lm + waves(8 * amp) + noise(3 * nz)
    v = waves(8 * amp) + noise(3 * nz)
    th = (290. + case["strat"] * Z * (1 + 0.2 * np.sin(ph) * case["asym"])
          - case["grad"] * np.sin(ph) ** 2 * np.exp(-1.5 * zz) * asym + waves(3 * amp) + noise(0.7 * nz))
    t = th * np.exp(-c["dry_gas_constant"] / c["cp"] * Z / H)
    kw = dict(kmax=kmax, dz=dz, npart=case["npart"], **c)
    if case["uniform"]:
        kw["data_on_evenly_spaced_pseudoheight_grid"] = True
    return dict(xlon=xlon, ylat=ylat, plev=plev, u=u, v=v, t=t, kw=kw, c=c, z=z, theta=th)


def odd_data(b):
    """The same atmosphere on the odd grid with the equator (linear in latitude, extrapolated at the poles)."""
    n = len(b["ylat"])
    if n % 2:
        return b
    lat = np.linspace(-90., 90., n + 1)
    lat[n // 2] = 0.
    x = np.asarray(b["ylat"])
    i = np.clip(np.searchsorted(x, lat, side="right") - 1, 0, n - 2)
    w = ((lat - x[i]) / (x[i + 1] - x[i]))[None, :, None]
    f = lambda y: y[:, i] * (1 - w) + y[:, i + 1] * w
    m = dict(b, ylat=lat, u=f(b["u"]), v=f(b["v"]), theta=f(b["theta"]))
    c = b["c"]
    m["t"] = m["theta"] * np.exp(-c["dry_gas_constant"] / c["cp"] * b["z"] / c["scale_height"])[:, None, None]
    return m


def back(x, axis, lat_odd, lat_even):
    """Linear interpolation (extrapolation) along latitude from the odd analysis rows to the even input rows."""
    y = np.moveaxis(np.asarray(x), axis, 0)
    i = np.clip(np.searchsorted(lat_odd, lat_even, side="right") - 1, 0, len(lat_odd) - 2)
    w = ((lat_even - lat_odd[i]) / (lat_odd[i + 1] - lat_odd[i])).reshape((-1,) + (1,) * (y.ndim - 1))
    return np.moveaxis(y[i] * (1 - w) + y[i + 1] * w, 0, axis)


def jb_of(case):
    """Equatorward boundary index that leaves at least four rows."""
    n = case["nlat"] + (1 - case["nlat"] % 2)
    return min(case["jb"], n // 2 - 4) if n // 2 - 4 > 0 else 0


def make(case, data=None, cls=None, nh_only=False, maxit=None, **over):
    """Create the QGField object of a case."""
    from falwa.oopinterface import QGFieldNH18, QGFieldNHN22
    b = data if data is not None else build(case)
    kw = dict(b["kw"])
    cls = cls or case["cls"]
    omit = not case.get("const") and case["seed"] % 2      # rely on the documented defaults
    if omit:
        for k, v in DEFAULT.items():
            if kw[k] == v:
                del kw[k]
    kw["northern_hemisphere_results_only"] = nh_only
    if cls == "NHN22":
        kw["eq_boundary_index"] = jb_of(case)
        if omit and kw["eq_boundary_index"] == 5:
            del kw["eq_boundary_index"]
        kw.update(over)
        kw.pop("raise_error_for_nonconvergence", None)
        return QGFieldNHN22(b["xlon"], b["ylat"], b["plev"], b["u"], b["v"], b["t"], **kw)
    kw["maxit"] = maxit or 20000
    kw["raise_error_for_nonconvergence"] = False
    kw.update(over)
    return QGFieldNH18(b["xlon"], b["ylat"], b["plev"], b["u"], b["v"], b["t"], **kw)


# ---------------------------------------------------------------- barotropic sphere


def baro_case(nlats=(3, 40), nlons=(1, 24), odd=False):
    nl = st.integers(*nlats)
    if odd:
        nl = nl.map(lambda n: n + 1 - n % 2)
    return st.fixed_dictionaries(dict(
        nlat=nl, nlon=st.integers(*nlons), seed=seeds,
        kind=st.sampled_from(["waves", "noise", "steps", "zonal", "reversed", "bump"]),
        amp=floats(0, 2), scale=st.sampled_from([1.0, 1.458e-4, 300.0, 1e-9]), offset=floats(-2, 2),
        radius=st.sampled_from([6.378e6, 1.0, 3.39e6]),
        grid=st.sampled_from(["regular", "regular", "columns", "uneven", "staggered"]),
        layout=st.sampled_from(LAYOUTS),
        npts=st.one_of(st.none(), st.integers(3, 80))))


LAYOUTS = ("plain", "plain", "plain", "Fortran order", "strided", "flipped", "read-only", "integers")


def relayout(a, kind):
    """The same array in another memory layout."""
    if kind == "Fortran order":
        return np.asfortranarray(a)
    if kind == "strided":
        w = np.full(a.shape[:-1] + (2 * a.shape[-1],), np.nan)
        w[..., ::2] = a
        return w[..., ::2]
    if kind == "flipped":
        return a[::-1].copy()[::-1]
    if kind == "read-only":
        a = a.copy()
        a.flags.writeable = False
    return a


def baro_latitudes(case):
    """Regular latitudes, centres of bands ("staggered"), or ("uneven") a smooth stretching that keeps poles and symmetry."""
    n = case["nlat"]
    if case.get("grid") == "uneven" and n > 3:
        x = np.linspace(-1., 1., n)
        return 90. * np.sign(x) * np.abs(x) ** (1. + 0.3 * np.random.default_rng(case["seed"] + 9).uniform(-1, 1))
    if case.get("grid") == "staggered":
        return -90. + 90. / n + np.arange(n) * 180. / n
    return np.linspace(-90., 90., n)


def cell_edges(ylat):
    return np.concatenate([[-90.], 0.5 * (ylat[1:] + ylat[:-1]), [90.]])


def baro_grid(case):
    """Latitudes, longitudes, cell areas, meridional length elements, cosines, latitude spacing.

    grid "columns": the cells of a latitude circle have different areas; "uneven": latitudes are not equally
    spaced, areas are exact cell areas and the length elements are not symmetric about the equator; "staggered": the
    rows are the centres of equal latitude bands, without the poles (the areas add up to a little more than the sphere).
    """
    n, m = case["nlat"], case["nlon"]
    ylat = baro_latitudes(case)
    xlon = np.arange(m) * 360. / m
    a = case["radius"]
    dphi = np.pi / n if case.get("grid") == "staggered" else np.pi / (n - 1)
    clat = np.abs(np.cos(np.deg2rad(ylat)))
    area = 2 * np.pi * a * a * clat[:, None] * dphi / m * np.ones((n, m))
    dmu = a * clat * dphi
    r = np.random.default_rng(case["seed"] + 8)
    if case.get("grid") == "uneven":
        dphi = np.deg2rad(np.diff(cell_edges(ylat)))
        area = (2 * np.pi * a ** 2 * np.diff(np.sin(np.deg2rad(cell_edges(ylat)))) / m)[:, None] * np.ones((n, m))
        dmu = a * clat * dphi * r.uniform(0.5, 1.5, n)
    elif case.get("grid") == "columns":
        w = r.uniform(0.5, 1.5, m)
        area = area * (w * m / w.sum())
        if case["seed"] % 2 and n > 4:
            area[[0, -1]] = 0.      # the pole is a point
    return ylat, xlon, relayout(area, case.get("layout")), dmu, clat, dphi


def baro_field(case):
    m = case["nlon"]
    ylat = baro_latitudes(case)
    xlon = np.arange(m) * 360. / m
    ph = np.deg2rad(ylat)[:, None]
    lm = np.deg2rad(xlon)[None, :]
    r = np.random.default_rng(case["seed"])
    base = np.sin(ph) + 0 * lm
    k, amp = case["kind"], case["amp"]
    if k == "waves":
        for mm in range(1, 4):
            base = base + amp * r.normal() * np.cos(mm * lm + r.uniform(0, 6)) * np.cos(ph) ** 2 * np.exp(
                -((ph - r.uniform(-1, 1)) / 0.5) ** 2)
    elif k == "noise":
        base = base + amp * r.normal(size=base.shape)
    elif k == "steps":
        base = np.round((base + amp * r.normal(size=base.shape)) * 3) / 3
    elif k == "reversed":
        base = -base + 0.3 * amp * r.normal(size=base.shape)
    elif k == "bump":
        base = base + 3 * amp * np.exp(-((lm - 3) ** 2 + (ph - r.uniform(-1, 1)) ** 2) / 0.3)
    if case.get("layout") == "integers":
        return np.round(5 * (base + case["offset"])).astype(int)
    return relayout((base + case["offset"]) * case["scale"], case.get("layout"))
