"""C29: the scripts that drive the package over files of many time steps (scripts/)."""
import calendar
import importlib.util
import json
import os
import runpy
import sys
import tempfile
import types

import numpy as np
from hypothesis import assume, strategies as st

from checks.c27 import fill
from lib import gen
from lib.common import Law, check, near, relscale

SCRIPTS = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "scripts")
ASSUMPTIONS = ["files are laid out as the script says (names of variables and dimensions, hPa); one year of a few time "
               "steps; paths outside the scratch folder are redirected into it; 49 levels of 1000 m as the scripts fix them",
               "gridfill.fill is replaced by a stand-in with its interface (see C27)"]
P, KMAX = np.array([1000, 925, 850, 700, 600, 500, 400, 300, 250, 200, 150, 100, 70, 50, 30, 20, 10, 7, 5, 3, 2, 1.]), 49


class End(FileNotFoundError):
    pass


def fields(case):
    r = np.random.default_rng(case["seed"])
    nt, ny, nx = case["nt"], case["nlat"], case["nlon"]
    lat, lon = np.linspace(-90, 90, ny), np.arange(nx) * 360. / nx
    y, x = np.deg2rad(lat)[:, None], np.deg2rad(lon)
    z = (-7000 * np.log(P / 1000))[:, None, None]
    out = {k: [] for k in ("U", "V", "T", "DTDTMST")}
    for t in range(nt):
        wave = lambda s: s * np.cos(y) ** 2 * np.sin(r.integers(1, 3) * x + r.integers(1, 4) * y + r.uniform(0, 6) + z / 9000)
        out["U"].append(25 * np.cos(y) * np.sin(2 * y) ** 2 * np.exp(-((z - 11000) / 9000) ** 2) + wave(4.) + 0 * x)
        out["V"].append(wave(4.))
        out["T"].append(np.maximum(300 - 6.5e-3 * z, 210) + np.maximum(z - 2e4, 0) * 1e-3 - 15 * np.sin(y) ** 2 * np.exp(-z / 9000) + wave(1.))
        out["DTDTMST"].append(wave(2e-5) + 1e-6)
    return lat, lon, {k: np.array(v, "f4") for k, v in out.items()}


def times(case, n):
    """Hours; steps differ."""
    return 700000 + np.cumsum(np.random.default_rng(case["seed"] + 1).integers(1, 20, n))


def write(path, name, case, lat, lon, f, names=("lat", "lon", "level"), flip=(False, False)):
    from netCDF4 import Dataset
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with Dataset(path, "w") as d:
        dims = dict(zip(("time", names[2], names[0], names[1]), f.shape))
        for k, n in dims.items():
            d.createDimension(k, n)
            d.createVariable(k, "i4" if k == "time" else "f8", (k,))
        d["time"].units = "hours since 1900-01-01 00:00:00"
        if case.get("calendar") or not case.get("heating"):      # only the heating script does without
            d["time"].calendar = case.get("calendar") or "gregorian"
        d["time"][:] = times(case, f.shape[0])
        d[names[0]][:] = lat[::-1] if flip[0] else lat
        d[names[1]][:] = lon
        d[names[2]][:] = P[::-1] if flip[1] else P
        v = d.createVariable(name, "f4", tuple(dims))
        v[:] = f[:, ::-1 if flip[1] else 1, ::-1 if flip[0] else 1]


def inside(root, path):
    path = os.path.abspath(path)
    return path if path.startswith(root + os.sep) else root + path


def run(script, root, argv=(), last="1981"):
    """Runs a script in root/run; whatever it opens lies under root; opening a file of `last` ends it."""
    import netCDF4
    real, cwd, args, month = netCDF4.Dataset, os.getcwd(), sys.argv, calendar.monthrange

    class Dataset(real):
        def __init__(self, path, *a, **k):
            path = inside(root, os.fspath(path))
            if last in os.path.basename(path):
                raise End
            os.makedirs(os.path.dirname(path), exist_ok=True)
            real.__init__(self, path, *a, **k)

    os.makedirs(root + "/run", exist_ok=True)
    try:
        os.chdir(root + "/run")
        netCDF4.Dataset, sys.argv = Dataset, [script, *argv]
        calendar.monthrange = lambda y, m: (0, 1)                # a month of one day: four steps
        runpy.run_path(os.path.join(SCRIPTS, script), run_name="__main__")
        return True
    except End:
        return False
    finally:
        os.chdir(cwd)
        netCDF4.Dataset, sys.argv, calendar.monthrange = real, args, month


def same(got, want, what, digits=1e-4):
    near(np.ma.filled(got, np.nan), want, digits * relscale(np.asarray(want)), what)


def coords(d, case, lat, lon):
    near(np.array(d["latitude"][:]), lat, 1e-4, "latitude of the output")
    near(np.array(d["longitude"][:]), lon, 1e-4, "longitude of the output")
    if "levelist" in d.variables:
        near(np.array(d["levelist"][:]), 1000 * np.exp(-np.arange(KMAX) / 7.), 1e-2, "levels of the output")
        near(np.array(d["time"][:]), times(case, len(d["time"])), 0, "times of the output")
        check(d["time"].units == "hours since 1900-01-01 00:00:00", "units of time")
        check(d["time"].calendar == (case["calendar"] or ("standard" if case["heating"] else "gregorian")), "calendar of the output")


def budget(case):
    from netCDF4 import Dataset
    from falwa.oopinterface import QGFieldNHN22
    lat, lon, f = fields(case)
    flip = (case["flip_lat"], case["flip_lev"])
    with tempfile.TemporaryDirectory() as root:
        root = os.path.realpath(root)
        for k in f:
            for base in ("", "/pscratch/sd/s/slubis/MERRA2"):
                write(f"{root}{base}/{k}/intp/{k}.1980_plev.nc", k, case, lat, lon, f[k], flip=flip)
        run(f"lubis_et_al_2025/{'cal_ncforce_loop' if case['heating'] else 'cal_lwa_budget_NHN22'}.py", root)
        with Dataset(f"{root}/run/" + ("ncforce_3D.1980.nc" if case["heating"] else "output.1980.nc")) as d:
            coords(d, case, lat, lon)
            check(len(d["time"]) == case["nt"], "number of time steps")
            for t in range(case["nt"]):
                q = QGFieldNHN22(lon, lat, P, *(f[k][t].astype(float) for k in "UVT"), eq_boundary_index=5,
                                 northern_hemisphere_results_only=False)
                q.interpolate_fields(return_named_tuple=False)
                q.compute_reference_states(return_named_tuple=False)
                if case["heating"]:
                    n = q.compute_ncforce_from_heating_rate(heating_rate=f["DTDTMST"][t].astype(float))
                    q.compute_layerwise_lwa_fluxes(ncforce=n)
                    same(d["ncforce_3D"][t], np.array(q.layerwise_flux_terms_storage.ncforce).transpose(2, 1, 0), f"ncforce at step {t}")
                    continue
                q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
                for name, want in dict(
                        qgpv=q.qgpv, interpolated_u=q.interpolated_u, interpolated_v=q.interpolated_v,
                        interpolated_theta=q.interpolated_theta, qref=q.qref, uref=q.uref, ptref=q.ptref, lwa=q.lwa,
                        adv_flux_f1=q.adv_flux_f1, adv_flux_f2=q.adv_flux_f2, adv_flux_f3=q.adv_flux_f3,
                        adv_flux_conv=q.convergence_zonal_advective_flux,
                        divergence_eddy_momentum_flux=q.divergence_eddy_momentum_flux,
                        meridional_heat_flux=q.meridional_heat_flux, lwa_baro=q.lwa_baro, u_baro=q.u_baro).items():
                    same(d[name][t], want, f"{name} at step {t}")
    return ["heating" if case["heating"] else "budget", f"latitude {'north to south' if flip[0] else 'south to north'}",
            f"pressure {'ascending' if flip[1] else 'descending'}"]


def predigest(case):
    from netCDF4 import Dataset
    from falwa.oopinterface import QGFieldNH18
    lat, lon, f = fields(dict(case, nt=4))
    want = []
    for t in range(4):
        q = QGFieldNH18(lon, lat, P, *(f[k][t].astype(float) for k in "UVT"), kmax=KMAX, dz=1000.)
        try:
            q.interpolate_fields(return_named_tuple=False)
            q.compute_reference_states(return_named_tuple=False)
        except ValueError:                                       # the solver does not converge on this field
            assume(False)
        q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
        want.append(dict(lwa_baro=q.lwa_baro, u_baro=q.u_baro, fawa=q.lwa.mean(-1), uref=q.uref,
                         ubar=q.interpolated_u.mean(-1)))
    y, m = case["year"], case["month"]
    with tempfile.TemporaryDirectory() as root:
        root = os.path.realpath(root)
        for k in "UVT":
            write(f"{root}/in/{y}/{y}_{m:02d}_{k.lower()}.nc", k.lower(), case, lat, lon, f[k],
                  ("latitude", "longitude", "level"), (True, True))
        os.makedirs(root + "/run")
        with open(root + "/run/path.json", "w") as j:
            json.dump(dict(vol1=root + "/in/", vol2=root + "/in/"), j)
        run("mdtf_predigest_data/predigest_data.py", root, [str(y), str(m)], last="*")
        with Dataset(f"{root}/mnt/winds/data/csyhuang/predigest/output_{y}_{m:02d}.nc") as d:
            coords(d, case, lat, lon)
            for t in range(4):
                for name in want[t]:
                    same(d[name][t], want[t][name], f"{name} at step {t}")
    return ["month of one day"]


def grl(case):
    """The script of Neal et al. (2022), fixed to 181 latitudes and 97 levels of 500 m, without its figures."""
    from netCDF4 import Dataset
    from falwa.oopinterface import QGFieldNHN22
    lat, lon, f = fields(case)
    drawn = []
    figures = types.ModuleType("graph_plot_module")
    for n in ("1a", "1b", "1c", "1d_2a", "3_and_S1", "3e", "3f", "4", "5"):
        setattr(figures, "plot_figure" + n, lambda *a, n=n: drawn.append(n))
    sys.modules["graph_plot_module"], path = figures, list(sys.path)
    with tempfile.TemporaryDirectory() as root:
        root = os.path.realpath(root)
        for k in "UVT":
            write(f"{root}/run/grl2021_data/2021_06_{k.lower()}.nc", k.lower(), case, lat, lon, f[k],
                  ("latitude", "longitude", "level"), (True, True))
        try:
            run("nhn_grl2022/sample_run_script.py", root, last="*")
        finally:
            del sys.modules["graph_plot_module"]
            sys.path[:] = path
        check(len(drawn) == 9, "figures")
        with Dataset(f"{root}/run/2021-06-01_to_2021-06-30_output.nc") as d:
            coords(d, case, lat[90:], lon)
            for t in range(case["nt"]):
                q = QGFieldNHN22(lon, lat, P, *(f[k][t].astype(float) for k in "UVT"), kmax=97, dz=500., eq_boundary_index=5,
                                 northern_hemisphere_results_only=True)
                q.interpolate_fields(return_named_tuple=False)
                q.compute_reference_states(return_named_tuple=False)
                q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
                for name, want in dict(lwa=q.lwa_baro, ua1=q.adv_flux_f1, ua2=q.adv_flux_f2, ep1=q.adv_flux_f3,
                                       ep4=q.meridional_heat_flux).items():
                    same(d[name][t], want, f"{name} at step {t}")
                # the two parts of the momentum flux: their difference is the divergence the package returns
                c = np.cos(np.deg2rad(lat[90:]))[:, None]
                got = np.ma.filled(d["ep2"][t].astype(float) - d["ep3"][t], np.nan) / (2 * q.planet_radius * q.dphi * c)
                same(got[1:-1], q.divergence_eddy_momentum_flux[1:-1], f"divergence of the momentum flux at step {t}")
    return ["figures left out"]


def hybrid(case):
    import xarray as xr
    sys.modules["gridfill"] = types.SimpleNamespace(fill=fill)
    sys.modules["logruns"] = types.ModuleType("logruns")
    path = list(sys.path)
    spec = importlib.util.spec_from_file_location("hybrid", os.path.join(
        SCRIPTS, "pre_process_data_in_hybrid_coordinates",
        "vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.path[:] = path
    r = np.random.default_rng(case["seed"])
    nt, n, ny, nx = case["nt"], case["nlev"], case["nlat"], case["nlon"]
    s = np.linspace(0, 1, n + 1)
    bi = s ** case["power"]
    ai = 0.002 + (s - bi) * 0.9
    ps = 1e5 - 3e4 * case["relief"] * r.random((nt, ny, nx))
    lev = (1000 * (ai + bi))
    v = r.normal(size=(nt, n, ny, nx)) * 20
    if case["zeros"]:                                            # whole columns of zeros, otherwise small integers
        v = np.round(v / 20) * (r.random((nt, 1, ny, nx)) < 0.5)
    ds = xr.Dataset(
        {"U": (("time", "lev", "lat", "lon"), v, {"units": "m/s", "long_name": "Zonal wind"}),
         "PS": (("time", "lat", "lon"), ps, {"units": "Pa"}), "hyai": ("ilev", ai), "hybi": ("ilev", bi),
         "P0": ((), 1e5), "time_bnds": (("time", "nbnd"), np.zeros((nt, 2)))},
        {"time": ("time", np.arange(nt) * 1.0, {"long_name": "time"}), "lev": (lev[1:] + lev[:-1]) / 2, "ilev": lev,
         "lat": ("lat", np.linspace(-90, 90, ny), {"units": "degrees_north"}),
         "lon": ("lon", np.arange(nx) * 360. / nx, {"units": "degrees_east"})}, {"case": "x"})
    keep = ds.copy(deep=True)
    new = np.array(sorted(r.choice([1000, 975, 925, 850, 700, 600, 500, 400, 300, 250, 200, 100, 50, 20, 10, 5],
                                   size=case["out"], replace=False)), float)
    if not case["up"]:
        new = new[::-1].copy()
    pi = ai[None, :, None, None] * 1e5 + bi[None, :, None, None] * ps[:, None]
    p = (pi[:, 1:] + pi[:, :-1]) / 200
    want = np.full((nt, len(new), ny, nx), np.nan)
    for t, i, j in np.ndindex(nt, ny, nx):
        c = p[t, :, i, j]
        for k, x in enumerate(new):
            if c[0] <= x <= c[-1]:
                a = min(np.searchsorted(c, x, side="right") - 1, n - 2)
                w = (x - c[a]) / (c[a + 1] - c[a])
                want[t, k, i, j] = v[t, a, i, j] * (1 - w) + v[t, a + 1, i, j] * w
    some = (~np.isnan(want)).any(axis=(2, 3)).all(axis=0)        # gridfill needs one value on each level
    assume(some.any())
    new, want = new[some], want[:, some]
    has = ~np.isnan(want)
    said = []
    for _ in range(2):                                           # the second call starts from the same dataset
        got, topo, lev_out = mod.vertical_interpolation_to_pressure(
            ds=ds, variable=ds["U"].values, save_topography=case["topography"], logging_method=said.append,
            new_lev=new, var="U")
        got, topo = np.array(got), None if topo is None else np.array(topo)
        near(lev_out, new, 0, "levels returned")
        check(got.shape == want.shape, f"shape {got.shape}")
        near(got[has], want[has], 1e-9 * relscale(v), "values inside the column")
        check(np.isfinite(got).all(), "missing values are left")
        for t, k in np.ndindex(nt, len(new)):
            w = want[t, k]
            lo, hi = np.nanmin(w), np.nanmax(w)
            check((got[t, k] >= lo - 1e-9).all() and (got[t, k] <= hi + 1e-9).all(), "a filled value lies outside the range of its level")
        if case["topography"]:
            near(topo[has], np.ones(has.sum()), 0, "topography where there is air")
            check(np.isnan(topo[~has]).all(), "topography below the ground (or above the top)")
        else:
            check(topo is None, "topography was returned although not asked for")
    out, dims = mod.similar_xarray_dataset(ds, new, "plev")
    out = mod.update_new_variable_to_pressure("U", got, ds, out, default_attrs=None, new_coordinate_system=dims)
    if topo is not None:
        out = mod.update_new_variable_to_pressure("topo", topo, ds, out, default_attrs={}, new_coordinate_system=dims)
        check(np.array_equal(out["topo"].values, topo, equal_nan=True), "topography in the dataset")
    check(ds.identical(keep), "the source was modified")
    check(tuple(out["U"].dims) == ("time", "plev", "lat", "lon"), f"dimensions {out['U'].dims}")
    near(out["U"].values, got, 0, "values in the dataset")
    near(out["plev"].values, new, 0, "plev in the dataset")
    for c in ("time", "lat", "lon"):
        near(out[c].values, ds[c].values, 0, f"{c} in the dataset")
        check(out[c].attrs == ds[c].attrs, f"attributes of {c}")
    near(out["PS"].values, ps, 0, "surface pressure in the dataset")
    for k, a in ds["U"].attrs.items():
        check(out["U"].attrs.get(k) == a, f"attribute {k} is lost")
    check(out.attrs == ds.attrs and "lev" not in out.dims and "ilev" not in out.dims, "dataset")
    return ["all levels inside the air" if has.all() else "levels below the ground or above the top",
            "upwards" if case["up"] else "downwards"]


def grid(**more):
    return st.fixed_dictionaries(dict(nlat=st.sampled_from([19, 21, 23, 25]), nlon=st.integers(6, 14), seed=gen.seeds, **more))


LAWS = [
    Law("budget", grid(nt=st.integers(1, 3), heating=st.booleans(), calendar=st.sampled_from(["gregorian", "noleap", None]), flip_lat=st.booleans(), flip_lev=st.booleans()), budget,
        8, 300, 3, "every case (a script is run end to end and each stored field compared with the package's)"),
    Law("predigest", grid(year=st.integers(1979, 2023), month=st.integers(1, 12)), predigest, 4, 100, 2,
        "every case on which the solver converges"),
    Law("grl", st.fixed_dictionaries(dict(nlat=st.just(181), nlon=st.integers(4, 8), nt=st.integers(1, 2), seed=gen.seeds)), grl,
        1, 30, 3, "every case (the script is run end to end and each stored field compared with the package's)"),
    Law("hybrid", st.fixed_dictionaries(dict(
        nlat=st.integers(2, 6), nlon=st.integers(3, 7), nlev=st.integers(3, 12), nt=st.integers(1, 3), seed=gen.seeds,
        power=st.sampled_from([1, 2, 3]), relief=st.sampled_from([0., 0.3, 1.]), out=st.integers(1, 8), up=st.booleans(),
        topography=st.booleans(), zeros=st.booleans())), hybrid, 60, 2000, 2, "every case (classes say whether levels are missing)"),
]
