"""C24: time statistics and extraction of time slices."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, relscale

ASSUMPTIONS = ["at least two times; finite values", "files are written in a scratch folder that is removed"]


class Handle:
    """Only what a variable of an open file offers: shape and indexing."""

    def __init__(self, x):
        self.x, self.shape = x, x.shape

    def __getitem__(self, key):
        return self.x[key].copy()


def fields(case):
    r = np.random.default_rng(case["seed"])
    shape = (case["nt"], case["nlat"], case["nlon"])
    a = r.normal(size=shape) * 10.0 ** case["mag"] + case["offset"]
    k = case["kind"]
    b = dict(noise=lambda: r.normal(size=shape), linear=lambda: -2.5 * a + 1, same=lambda: a.copy(),
             constant=lambda: np.full(shape, 3.25), mixed=lambda: 0.3 * a + r.normal(size=shape))[k]()
    if case["ints"]:
        a, b = (np.round(x * 10 / max(relscale(x), 1e-9)).astype([np.int32, np.int64][case["f4"]]) for x in (a, b))
    elif case["f4"]:
        a, b = a.astype(np.float32), b.astype(np.float32)
    return a, b


def covariance(case):
    from falwa.stat_utils import calculate_covariance
    a, b = fields(case)
    ka, kb = a.copy(), b.copy()
    x, y = a.astype(float), b.astype(float)
    xa, ya = x - x.mean(axis=0), y - y.mean(axis=0)
    want = (xa * ya).sum(axis=0) / (case["nt"] - 1)
    s = max(relscale(xa) * relscale(ya), 1e-300)
    # cancellation of the means
    tol = 1e-9 * s + (1e-13 if not case["f4"] else 1e-5) * relscale(x) * relscale(y)
    wrap = Handle if case["handle"] else (lambda v: v)
    got = calculate_covariance(wrap(a), wrap(b))
    check(got.shape == (case["nlat"], case["nlon"]), f"shape {got.shape}")
    near(got, want, tol, "covariance")
    near(calculate_covariance(b, a), got, tol, "covariance is not symmetric")
    v = calculate_covariance(a, a)
    near(v, xa.var(axis=0, ddof=1), 1e-9 * relscale(xa) ** 2 + (1e-13 if not case["f4"] else 1e-5) * relscale(x) ** 2, "variance")
    p = np.random.default_rng(case["seed"] + 1).permutation(case["nt"])
    near(calculate_covariance(a[p], b[p]), got, tol, "covariance depends on the order of the times")
    near(a, ka, 0, "first variable modified")
    near(b, kb, 0, "second variable modified")
    if case["nt"] < 3 or case["kind"] == "constant":
        return None
    return [case["kind"], "handle" if case["handle"] else "array"]


def extract(case):
    import xarray as xr
    from falwa.netcdf_utils import extract_one_timeslice
    r = np.random.default_rng(case["seed"])
    nt, nlat, nlon = case["nt"], case["nlat"], case["nlon"]
    ds = xr.Dataset(
        dict(u=(("time", "lat", "lon"), r.normal(size=(nt, nlat, nlon)), dict(units="m/s")),
             t=(("time", "lat"), r.normal(size=(nt, nlat)).astype(np.float32)),
             mask=(("lat", "lon"), r.integers(0, 5, size=(nlat, nlon)))),
        coords=dict(time=np.arange(nt) * 6 + 3, lat=np.linspace(-80, 80, nlat), lon=np.arange(nlon) * 3.),
        attrs=dict(title="x"))
    d = tempfile.mkdtemp(prefix="verif-c24-")
    try:
        src, dst = os.path.join(d, "in.nc"), os.path.join(d, "out.nc")
        ds.to_netcdf(src)
        before = open(src, "rb").read()
        if case["pick"] is None:
            idx = [0]
            extract_one_timeslice(src, dst)
        else:
            idx = [i % nt for i in case["pick"]]
            extract_one_timeslice(src, dst, timeslice=list(idx))
        check(sorted(os.listdir(d)) == ["in.nc", "out.nc"], "files written")
        check(open(src, "rb").read() == before, "the input file was changed")
        with xr.open_dataset(dst) as out:
            check(dict(out.sizes) == dict(time=len(idx), lat=nlat, lon=nlon), f"sizes {dict(out.sizes)}")
            check(set(out.data_vars) == {"u", "t", "mask"}, "variables")
            for k in ("u", "t", "time"):
                near(out[k].values, ds[k].values[idx], 0, f"{k} of the extracted times")
            for k in ("mask", "lat", "lon"):
                near(out[k].values, ds[k].values, 0, f"{k} of the extracted times")
            check(out["u"].attrs.get("units") == "m/s" and out.attrs.get("title") == "x", "attributes are lost")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ["default" if case["pick"] is None else f"{len(idx)} times"]


def sizes(small, large, least=1):
    return st.one_of(*[st.integers(least, small)] * 15, st.integers(small, large))


def strat(tmin):
    return st.fixed_dictionaries(dict(
        seed=gen.seeds, nt=sizes(12, 60, tmin), nlat=sizes(7, 20), nlon=sizes(9, 100),
        mag=st.integers(-4, 4), offset=gen.floats(-50, 50), f4=st.booleans(), ints=st.integers(0, 3).map(lambda i: i == 3), handle=st.booleans(),
        kind=st.sampled_from(["noise", "linear", "same", "constant", "mixed"])))


LAWS = [
    Law("covariance", strat(2), covariance, 3000, 40000, 3, "at least three times and no constant variable"),
    Law("extract", st.builds(lambda c, p: {**c, "pick": p}, strat(1),
                             st.one_of(st.none(), st.lists(st.integers(0, 11), min_size=1, max_size=5))),
        extract, 250, 4000, 3, "every case"),
]
