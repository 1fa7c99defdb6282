"""C18: time-integrated budget and hemisphere-to-globe extension of datasets."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, raises, relscale
from lib.meta import analyse, change, magnitudes, separated, tolerance
from lib.qg import Run, resolvable

ASSUMPTIONS = ["datetime coordinates (numpy or calendar dates) with distinct, increasing (or decreasing) times",
               "hemispheric datasets that begin or end at the equator"]
TERMS = ("convergence_zonal_advective_flux", "divergence_eddy_momentum_flux", "meridional_heat_flux")
EXTRA = ("adv_flux_f1", "something_else")


def same(got, want, tol, what):
    """near, with missing values exactly where they are expected."""
    m = np.isnan(want)
    check(np.array_equal(np.isnan(got), m), f"missing values of {what}")
    near(np.where(m, 0, got), np.where(m, 0, want), tol, what)


def times(case):
    r = np.random.default_rng(case["tseed"])
    n = case["nt"]
    unit = case["unit"]
    step = r.integers(1, 9, n) if case["irregular"] else np.full(n, int(r.integers(1, 9)))
    t = np.datetime64("2019-12-28T03:00:00", "ns") + np.cumsum(step) * np.timedelta64(int(unit * 1000), "ms")
    if case["clock"] and not (case["clock"] == "s" and unit < 1):    # other resolutions of the same instants
        t = t.astype(f"datetime64[{case['clock']}]")
    return t[::-1] if case["backward"] else t


def calendar(t, name):
    """The times t as dates of the given calendar (the same number of seconds after the first one)."""
    import cftime
    import datetime
    first = cftime.datetime(2000, 2, 27, 3, calendar=name)
    return np.array([first + datetime.timedelta(seconds=float(s)) for s in (t - t[0]) / np.timedelta64(1, "s")])


def budget(case):
    import xarray as xr
    from falwa.xarrayinterface import integrate_budget
    t = times(case)
    sec = (t - t[0]) / np.timedelta64(1, "s")
    if case["calendar"]:
        t = calendar(t, case["calendar"])
    n, ny, nx = t.size, case["ny"], case["nx"]
    r = np.random.default_rng(case["seed"])
    tn = ["time", "date", "datetime", "valid_time", "mytime"][case["tname"]]
    pos = case["axis"]
    dims = ["ylat", "xlon"] if not case["member"] else ["ylat", "xlon", "member"]
    sizes = dict(ylat=ny, xlon=nx, member=2)
    dims.insert(min(pos, len(dims)), tn)
    shape = [n if d == tn else sizes[d] for d in dims]
    names = {k: (k if not case["renamed"] else "x_" + k) for k in ("lwa_baro",) + TERMS}
    data = {k: 10.0 ** case["mag"] * r.normal(size=shape) for k in ("lwa_baro",) + TERMS}
    if case["constant"]:
        for k in TERMS:
            data[k] = np.ones(shape) * r.normal()
    if case["missing"]:
        for k in data:
            data[k][r.random(shape) < 0.1] = np.nan
    coords = {tn: t, "ylat": np.linspace(-90, 90, ny), "xlon": np.arange(nx) * 3.}
    ds = xr.Dataset({names[k]: (dims, x) for k, x in data.items()}, coords, {"note": "kept", "kmax": 7})
    for k in EXTRA:
        ds[k] = (dims, r.normal(size=shape))
    keep = ds.copy(deep=True)
    vn = {}
    if case["renamed"]:
        vn.update(names)
    if tn == "mytime":
        vn["time"] = tn
    stamp = str if case["calendar"] else np.datetime64
    run = lambda d: integrate_budget(d, var_names=vn) if vn else integrate_budget(d)
    out = run(ds)
    check(ds.identical(keep), "the input dataset was modified")
    ax = dims.index(tn)
    want = {}
    x = np.moveaxis(data["lwa_baro"], ax, 0)
    want["delta_lwa"] = x[-1] - x[0]
    scale = {"delta_lwa": relscale(x)}
    for k in TERMS:
        x = np.moveaxis(data[k], ax, 0)
        w = np.diff(sec).reshape((-1,) + (1,) * (x.ndim - 1))
        want["integrated_" + k] = (0.5 * (x[1:] + x[:-1]) * w).sum(axis=0)
        scale["integrated_" + k] = relscale(x) * abs(sec[-1])
    want["residual"] = want["delta_lwa"] - sum(want["integrated_" + k] for k in TERMS)
    scale["residual"] = sum(scale.values())
    check(set(out.data_vars) == set(want), f"variables of the budget: {sorted(out.data_vars)}")
    rest = [d for d in dims if d != tn]
    for k, w in want.items():
        same(out[k].transpose(*rest).values, w, 1e-12 * scale[k] + 1e-300, k)
    for d in ("ylat", "xlon"):
        near(out[d].values, ds[d].values, 0, f"coordinate {d}")
    a = out.attrs
    check(a.get("note") == "kept" and a.get("kmax") == 7, f"attributes: {a}")
    check(np.isclose(a["integration_seconds"], sec[-1], rtol=1e-12), f"integration_seconds {a['integration_seconds']}")
    check(stamp(a["integration_start"]) == stamp(t[0]), f"integration_start {a['integration_start']}")
    check(stamp(a["integration_stop"]) == stamp(t[-1]), f"integration_stop {a['integration_stop']}")
    if n >= 3 and not case["missing"]:
        # the budget of adjoining windows adds up
        m = 1 + case["split"] % (n - 2)
        one, two = run(ds.isel({tn: slice(None, m + 1)})), run(ds.isel({tn: slice(m, None)}))
        for k in want:
            same((one[k] + two[k]).transpose(*rest).values, out[k].transpose(*rest).values,
                 1e-11 * scale[k] + 1e-300, f"{k} of adjoining windows")
    return ["irregular" if case["irregular"] else "regular", case["calendar"] or "times of numpy"]


def globe(case):
    import xarray as xr
    from falwa.xarrayinterface import hemisphere_to_globe
    n = case["ny"]
    lat = np.linspace(0., 90., n + 1) if case["pole"] else np.linspace(0., 90., n + 2)[:-1]
    if case["south"]:
        lat = -lat
    lat[0] = [0., 0., 5e-5, -5e-5][case["eps"]]
    if case["order"]:
        lat = lat[::-1]
    r = np.random.default_rng(case["seed"])
    yn = ["ylat", "lat", "latitude", "myy"][case["yname"]]
    vn_ = ["v", "V", "myv"][case["vname"]]
    dims = ["time", "plev", yn, "xlon"][4 - case["ndim"]:] if case["ndim"] != 1 else [yn]
    sizes = {"time": 2, "plev": 3, yn: lat.size, "xlon": case["nx"]}
    coords = {d: np.arange(sizes[d]) * 1. for d in dims}
    coords[yn] = lat
    names = ["u", "t"] + ([vn_] if case["has_v"] else [])
    ds = xr.Dataset({k: (dims, r.normal(size=[sizes[d] for d in dims])) for k in names}, coords, {"a": 1})
    # variables and coordinates without latitude, and further coordinates along it
    plain = []
    if case["extra"] & 1:
        ds["ps"] = ("xlon" if "xlon" in dims else "z", r.normal(size=sizes["xlon"] if "xlon" in dims else 4))
        ds["c"] = 3.5
        plain = ["ps", "c"]
    if case["extra"] & 2:
        ds = ds.assign_coords(w=(yn, r.normal(size=lat.size)), s=7)
    var = {}
    if case["twin"] and case["has_v"] and vn_ != "myv":      # another variable with a name like a wind's
        ds[vn_.swapcase()] = (dims, r.normal(size=[sizes[d] for d in dims]))
        names.append(vn_.swapcase())
        var["v"] = vn_
    keep = ds.copy(deep=True)
    if yn == "myy":
        var["ylat"] = yn
    if vn_ == "myv" and case["has_v"]:
        var["v"] = vn_
    out = hemisphere_to_globe(ds, var_names=var) if var else hemisphere_to_globe(ds)
    check(ds.identical(keep), "the input dataset was modified")
    y = out[yn].values
    check(y.size == 2 * lat.size - 1, f"{y.size} latitudes from {lat.size}")
    d = np.diff(y)
    check((d > 0).all() or (d < 0).all(), "latitudes of the globe are not monotonic")
    check((np.diff(lat)[0] > 0) == (d[0] > 0), "order of the latitudes changed")
    a = out.sel({yn: lat})
    for k in names:
        check(out[k].dims == tuple(dims), f"dimensions of {k}: {out[k].dims}")
        near(a[k].values, ds[k].values, 0, f"{k} on the given hemisphere")
    far = lat[np.abs(lat) > 1e-3]
    m = out.sel({yn: -far})
    w = ds.sel({yn: far})
    for k in names:
        near(m[k].values, (-1 if k == vn_ else 1) * w[k].values, 0, f"{k} on the created hemisphere")
    for c in coords:
        if c != yn:
            near(out[c].values, ds[c].values, 0, f"coordinate {c}")
    for k in plain:
        check(out[k].identical(ds[k]), f"{k}, which has no latitude, is changed: {out[k].dims}")
    if case["extra"] & 2:
        near(out["w"].sel({yn: -far}).values, ds["w"].sel({yn: far}).values, 0, "coordinate along latitude")
        check(out["s"].values == 7, "scalar coordinate")
    # no equator: refused
    noeq = ds.isel({yn: slice(1, None)} if abs(lat[0]) < 1e-3 else {yn: slice(None, -1)})
    raises(Exception, lambda: hemisphere_to_globe(noeq, var_names=var), "a hemisphere without the equator")
    return ["south" if case["south"] else "north", "ascending" if d[0] > 0 else "descending",
            ["", "variables without latitude", "further coordinates", "both"][case["extra"]] or "plain"]


def symmetric(case):
    """The wave activity of a globe made from one hemisphere is the same in both hemispheres."""
    import xarray as xr
    from falwa.xarrayinterface import hemisphere_to_globe
    b = gen.build(case)
    n = case["nlat"] // 2
    s = slice(0, n + 1) if case["south"] else slice(n, None)
    ds = xr.Dataset({k: (("plev", "ylat", "xlon"), b[k][:, s].copy()) for k in "uvt"},
                    dict(plev=b["plev"], ylat=b["ylat"][s], xlon=b["xlon"]))
    ds["v"][:, 0 if abs(ds.ylat[0]) < 1e-3 else -1] = 0.
    g = hemisphere_to_globe(ds)
    near(g.ylat.values, b["ylat"], 1e-9, "latitudes of the globe")
    m = dict(b, ylat=b["ylat"], **{k: g[k].transpose("plev", "ylat", "xlon").values for k in "uvt"})
    run = Run(case, data={**m, "theta": m["t"] * (b["theta"] / b["t"])})
    out = analyse(run)
    if out is None or not resolvable(run):
        return None
    mag = magnitudes(run, out)
    # Qref away from the equator (there the median of an antisymmetric field lies on a bin edge)
    bw = 0.
    for h in (1, -1):
        for k in range(1, run.K - 1):
            lo, hi, dq = run.qref_interval(h, k)
            bw = max(bw, float((hi - lo)[1:].max()) / (dq * (run.nbin() - 1)))
    if bw > 2e-3:
        return None
    for k, ax in (("qref", 1), ("lwa", 1), ("lwa_baro", 0)):
        x = np.moveaxis(out[k], ax, 0)
        sign = -1 if k == "qref" else 1
        # without a boundary row the equator belongs to one hemisphere only
        near(x[:n], sign * x[::-1][:n], (1e-5 + 3 * bw) * mag[k], f"{k} of a globe made from one hemisphere")
    labels = [case["cls"], "from the south" if case["south"] else "from the north"]
    if not separated(run):
        return labels
    tol = tolerance(run, out, change(out["qref"], -out["qref"][:, ::-1], out["qgpv"]))
    for k, ax in (("uref", 1), ("ptref", 1), ("adv_flux_f1", 0), ("adv_flux_f3", 0), ("meridional_heat_flux", 0)):
        x = np.moveaxis(out[k], ax, 0)
        near(x[:n], x[::-1][:n], tol[k], f"{k} of a globe made from one hemisphere")
    return labels + ["with reference wind"]


B = st.booleans()
budget_case = st.fixed_dictionaries(dict(
    seed=gen.seeds, tseed=gen.seeds, nt=st.integers(2, 12), unit=st.sampled_from([0.25, 1, 60, 3600, 21600, 86400]),
    clock=st.sampled_from(["", "", "s", "ms", "us"]), calendar=st.sampled_from(["", "", "", "noleap", "360_day", "standard"]),
    irregular=B, ny=st.integers(1, 5), nx=st.integers(1, 5), tname=st.integers(0, 4), axis=st.integers(0, 3),
    member=B, renamed=B, backward=B, missing=B, mag=st.integers(-5, 3), constant=B, split=st.integers(0, 50)))
globe_case = st.fixed_dictionaries(dict(
    seed=gen.seeds, ny=st.integers(2, 12), pole=B, south=B, eps=st.integers(0, 3), order=B, yname=st.integers(0, 3),
    vname=st.integers(0, 2), has_v=B, extra=st.integers(0, 3), ndim=st.integers(1, 4), nx=st.integers(1, 5),
    twin=B))
LAWS = [
    Law("budget", budget_case, budget, 600, 6000, 3, "random tendencies"),
    Law("globe", globe_case, globe, 600, 6000, 3, "random fields"),
    Law("symmetric", st.builds(lambda c, s: {**c, "south": s}, gen.qg_case(), B), symmetric, 200, 3000, 3,
        "stable mean profile, solved reference states, hardly any PV value on a bin edge"),
]
