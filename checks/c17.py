"""C17: the xarray interface is the per-snapshot analysis of every slice, correctly labelled."""
import itertools

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, relscale
from lib.meta import INTERP, LAYER, REF

ASSUMPTIONS = ["the single-field classes are the reference (their results are decided by C05-C12)",
               "slices have statically stable hemispheric means; flux steps only where every slice has reference states"]
FLUX = ("adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux",
        "divergence_eddy_momentum_flux", "meridional_heat_flux", "lwa_baro", "u_baro", "ncforce_baro",
        "flux_vector_lambda_baro", "flux_vector_phi_baro", "lwa")
NAMES = dict(plev=["plev", "lev", "level", "isobaricInhPa", "pressure_level", "my_p"],
             ylat=["ylat", "lat", "latitude", "my_y"], xlon=["xlon", "lon", "longitude", "my_x"],
             u=["u", "U", "wind_u"], v=["v", "V", "wind_v"], t=["t", "T", "temp"])
OTHER = ["time", "number", "expver"]


def coordinate(name, n, seed):
    r = np.random.default_rng(seed)
    if name == "time":
        return np.datetime64("2020-01-01T00:00", "ns") + np.sort(r.choice(1000, n, replace=False)) * np.timedelta64(1, "h")
    if name == "number":
        return r.permutation(50)[:n]
    return np.array([f"m{int(i)}" for i in r.permutation(50)[:n]])


class Problem:
    def __init__(self, case):
        import xarray as xr
        self.case = case
        self.sizes = case["sizes"]
        self.dims = OTHER[:len(self.sizes)]
        n = case["nlon"]
        self.xlon = np.arange(n) * 360. / n
        if case["lon"] == "wrapped":
            self.xlon = np.where(self.xlon >= 180, self.xlon - 360, self.xlon)
        elif case["lon"] == "west":
            self.xlon = self.xlon - 180.
        elif case["lon"] == "rolled":
            self.xlon = np.roll(self.xlon, case["seed"] % n)
        self.names = {k: v[case["names"][k] % len(v)] for k, v in NAMES.items()}
        slices = [gen.build({**case, "seed": case["seed"] + 17 * i}) for i in range(int(np.prod(self.sizes)))]
        self.b = b = slices[0]
        self.slices = slices
        axes = [a for a, f in ((1, case["flip_lat"]), (0, case["flip_lev"])) if f]
        self.axes = axes
        self.plev = b["plev"][::-1] if case["flip_lev"] else b["plev"]
        self.ylat = b["ylat"][::-1] if case["flip_lat"] else b["ylat"]
        n = self.names
        if case["f32"]:      # coordinates as they are stored in many files
            self.plev, self.ylat, self.xlon = (x.astype("f4") for x in (self.plev, self.ylat, self.xlon))
        self.other = {d: coordinate(d, s, case["seed"] + i) for i, (d, s) in enumerate(zip(self.dims, self.sizes))}
        if case["aux"] == "unlabelled" and self.dims:
            self.other[self.dims[0]] = np.arange(self.sizes[0])
        self.coords = {**self.other, n["plev"]: self.plev, n["ylat"]: self.ylat, n["xlon"]: self.xlon}
        self.alldims = (*self.dims, n["plev"], n["ylat"], n["xlon"])
        self.da = {}
        for k in "uvt":
            x = np.array([np.flip(s[k], axis=axes) for s in slices]).reshape(*self.sizes, *b[k].shape)
            self.da[k] = xr.DataArray(x, dims=self.alldims, coords=self.coords, name=n[k])
            # coordinates besides those of the dimensions, as in files of weather services
            aux = case["aux"]
            if aux == "scalar":
                self.da[k] = self.da[k].assign_coords(step=np.timedelta64(6, "h"), surface=0.0)
            elif aux == "along" and self.dims:
                self.da[k] = self.da[k].assign_coords(valid_time=(self.dims[-1], np.arange(self.sizes[-1]) + 0.5),
                                                      band=(n["ylat"], np.round(self.ylat / 30)))
            elif aux == "unlabelled" and self.dims:
                self.da[k] = self.da[k].drop_vars(self.dims[0])
            if case["lazy"]:
                self.da[k] = self.da[k].chunk({d: 1 for d in self.dims} if case["seed"] % 2 else -1)
            if case["form"] == "arrays" and case["label"] != "own":     # the position tells the role, not the name
                self.da[k].name = {"none": None, "same": "field", "swapped": {"u": "v", "v": "t", "t": "u"}[k]}[case["label"]]
        self.var_names = {k: x for k, x in n.items() if x.startswith("my_") or x.startswith("wind") or x == "temp" or case["explicit"]}
        kw = dict(b["kw"])
        kw["northern_hemisphere_results_only"] = case["nh"]
        if case["cls"] == "NHN22":
            kw["eq_boundary_index"] = gen.jb_of(case)
        else:
            kw.update(maxit=20000, raise_error_for_nonconvergence=False)
        self.args = []
        if case["positional"]:
            self.args = [kw.pop("kmax"), kw.pop("maxit", 20000), kw.pop("dz")]
        self.kw = kw

    def cls(self):
        from falwa import oopinterface
        return getattr(oopinterface, "QGField" + self.case["cls"])

    def dataset(self):
        import xarray as xr
        from falwa.xarrayinterface import QGDataset
        kw = dict(qgfield_kwargs=self.kw)
        if self.args:
            kw["qgfield_args"] = self.args
        if self.case["cls"] != "NH18" or self.case["explicit"]:
            kw["qgfield"] = self.cls()
        if self.var_names:
            kw["var_names"] = self.var_names
        u, v, t = (self.da[k] for k in "uvt")
        case = self.case
        f = case["form"]
        if f == "dataset":
            return QGDataset(xr.Dataset({d.name: d for d in (t, u, v)}), **kw)
        if f == "arrays":
            return QGDataset(u, v, t, **kw)
        if f == "datasets":
            return QGDataset(u.to_dataset(), v.to_dataset(), t.to_dataset(), **kw)
        # explicit fields take precedence over those of the dataset
        over = {"v": v, "t": t} if case["over"] == 2 else {"vt"[case["over"]]: (v, t)[case["over"]]}
        wrong = xr.Dataset({d.name: d * 0 + 250 if k in over else d for k, d in dict(u=u, v=v, t=t).items()})
        if case["over_ds"]:
            over = {k: xr.Dataset({d.name: d, u.name: u * 0}) for k, d in over.items()}
        return QGDataset(wrong, **{"da_" + k: d for k, d in over.items()}, **kw)

    def fields(self):
        out = []
        ylat = self.ylat[::-1] if self.case["flip_lat"] else self.ylat
        plev = self.plev[::-1] if self.case["flip_lev"] else self.plev
        for s in self.slices:
            out.append(self.cls()(self.xlon, ylat, plev, s["u"], s["v"], s["t"], *self.args, **self.kw))
        return out


def compare(p, got, fields, k, core, latref, name=None):
    """DataArray got against attribute k of every field."""
    want = np.array([np.asarray(getattr(f, k)) for f in fields])
    labelled(p, got, want, fields[0], name or k, core, latref)


def labelled(p, got, want, field, name, core, latref):
    check(got.dims == (*p.dims, *core), f"dimensions of {name}: {got.dims}")
    want = want.reshape(*p.sizes, *want.shape[1:])
    near(got.values, want, 1e-9 * relscale(want), name)
    for d in p.dims:
        check(np.array_equal(got.coords[d].values, p.other[d]), f"coordinate {d} of {name}")
    c = dict(height=field.height, ylat=field.ylat_ref_states if latref else field.ylat, xlon=p.xlon)
    for d in core:
        near(got.coords[d].values, c[d], 1e-12 * relscale(c[d]), f"coordinate {d} of {name}")


CORE = dict(height=("height",), yz=("height", "ylat"), xy=("ylat", "xlon"), xyz=("height", "ylat", "xlon"))


def attributes(p, ds, field):
    a = ds.attrs
    for k in ("kmax", "dz", "maxit", "tol", "npart", "rjac", "scale_height", "cp", "dry_gas_constant", "omega",
              "planet_radius", "prefactor"):
        check(k in a and a[k] == getattr(field, k), f"attribute {k} of the dataset: {a.get(k)!r}")
    check(a["protocol"] == "QGField" + p.case["cls"], f"attribute protocol: {a['protocol']}")


def analysis(case):
    import xarray as xr
    p = Problem(case)
    before = {k: p.da[k].copy(deep=True) for k in "uvt"}
    qg = p.dataset()
    fields = p.fields()
    check(len(qg.fields) == len(fields), f"{len(qg.fields)} fields for {len(fields)} slices")
    check(all(type(f) is p.cls() for f in qg.fields), "class of the fields")
    labels = [case["cls"], case["form"], *["dask"] * case["lazy"], "even" if case["nlat"] % 2 == 0 else "odd"]
    silent = case["silent"]

    def run(name, *a, **kw):
        if silent:
            kw["return_dataset"] = False
        elif case["explicit"]:
            kw["return_dataset"] = True      # (also the default)
        r = getattr(qg, name)(*a, **kw)
        if silent:
            check(r is None, f"{name} returned {type(r)} despite return_dataset=False")
            return lambda k: getattr(qg, k)
        attributes(p, r, qg.fields[0])
        return lambda k: r[k]

    # interpolation
    for f in fields:
        f.interpolate_fields(return_named_tuple=False)
    get = run("interpolate_fields")
    for k in INTERP:
        compare(p, get(k), fields, k, CORE["xyz"], False)
    s = np.array([np.asarray(f.static_stability) for f in fields])
    if s.ndim == 3:
        for i, n in enumerate(("static_stability_s", "static_stability_n")):
            labelled(p, qg.static_stability[i] if silent else get(n), s[:, i], fields[0], n, CORE["height"], False)
            check(qg.static_stability[i].name == n, "names of the static stability pair")
    else:
        labelled(p, get("static_stability"), s, fields[0], "static_stability", CORE["height"], False)
    if s.min() < 1e-3:
        return None
    # reference states
    for f in fields:
        f.compute_reference_states(return_named_tuple=False)
    get = run("compute_reference_states")
    for k in REF:
        compare(p, get(k), fields, k, CORE["yz"], True)
    if case["lwa_only"] or any(f.nonconvergent_uref for f in fields):
        for f in fields:
            f.compute_lwa_only()
        get = run("compute_lwa_only")
        for k in ("lwa_baro", "u_baro"):
            compare(p, get(k), fields, k, CORE["xy"], True)
        compare(p, get("lwa"), fields, "lwa", CORE["xyz"], True)
        return labels + ["wave activity only"]
    # forcing: given as a labelled array, in any order of its slices
    nc, ncs = None, [None] * len(fields)
    if case["forced"] and case["nlat"] % 2:
        r = np.random.default_rng(case["seed"])
        shape = fields[0].qgpv.shape
        if case["forced"] == "heating" and hasattr(qg, "compute_ncforce_from_heating_rate"):
            h = [1e-5 * r.normal(size=p.b["u"].shape) for _ in fields]
            ncs = [f.compute_ncforce_from_heating_rate(x) for f, x in zip(fields, h)]
            x = np.array([np.flip(y, axis=p.axes) for y in h]).reshape(*p.sizes, *p.b["u"].shape)
            rate = shuffled(p, xr.DataArray(x, dims=p.alldims, coords=p.coords), r)
            nc = qg.compute_ncforce_from_heating_rate(rate)
            labelled(p, nc, np.array(ncs), fields[0], "ncforce", CORE["xyz"], False)
            labels.append("heating")
        else:
            ncs = [1e-10 * r.normal(size=shape) for _ in fields]
            nc = xr.DataArray(np.array(ncs).reshape(*p.sizes, *shape), dims=(*p.dims, *CORE["xyz"]),
                              coords={**p.other, "height": fields[0].height, "ylat": p.b["ylat"], "xlon": p.xlon})
            nc = shuffled(p, nc, r)
            labels.append("forcing")
    if case["layer_first"]:
        layers(p, qg, fields, run, nc, ncs)
    for f, x in zip(fields, ncs):
        f.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=x)
    get = run("compute_lwa_and_barotropic_fluxes", ncforce=nc) if nc is not None else run("compute_lwa_and_barotropic_fluxes")
    for k in FLUX:
        compare(p, get(k), fields, k, CORE["xyz" if k == "lwa" else "xy"], True)
    if not case["layer_first"]:
        layers(p, qg, fields, run, nc, ncs)
    for k in "uvt":
        check(before[k].identical(p.da[k]), f"the input {k} was modified")
    return labels


def layers(p, qg, fields, run, nc, ncs):
    for f, x in zip(fields, ncs):
        f.compute_layerwise_lwa_fluxes(ncforce=x)
    get = run("compute_layerwise_lwa_fluxes", ncforce=nc)
    for k in LAYER:
        compare(p, get(k), fields, k, CORE["xyz"], True)


def shuffled(p, da, r):
    """The same labelled array with its slices in another order."""
    for i, d in enumerate(p.dims):
        if not (p.case["aux"] == "unlabelled" and i == 0):      # (without labels the order is all there is)
            da = da.isel({d: r.permutation(da.sizes[d])})
    if r.random() < 0.4:      # the extra dimensions may also stand elsewhere
        core, k = [d for d in da.dims if d not in p.dims], int(r.integers(4))
        da = da.transpose(*core[:k], *r.permutation(list(p.dims)), *core[k:])
    if p.case["aux"] == "unlabelled" and p.dims and r.random() < 0.5:
        da = da.drop_vars(p.dims[0], errors="ignore")
    return da


def refused(case):
    """Inputs that do not describe one atmosphere are refused."""
    import xarray as xr
    from falwa.xarrayinterface import QGDataset
    p = Problem(case)
    u, v, t = (p.da[k] for k in "uvt")
    n = p.names
    kind = case["kind"]
    kw = dict(qgfield=p.cls(), qgfield_kwargs=p.kw, qgfield_args=p.args, var_names=p.var_names)
    if kind == "grids":
        t = t.assign_coords({n["xlon"]: t[n["xlon"]] + 1.0})
    elif kind == "levels":
        v = v.isel({n["plev"]: slice(1, None)})
    elif kind == "order":
        o = (*p.dims, n["ylat"], n["plev"], n["xlon"])
        u, v, t = u.transpose(*o), v.transpose(*o), t.transpose(*o)
    elif kind == "order of one":
        o = list(p.alldims)
        i = case["seed"] % 2
        o[-1 - i], o[-2 - i] = o[-2 - i], o[-1 - i]
        if case["seed"] % 3:
            t = t.transpose(*o)
        else:
            v = v.transpose(*o)
    elif kind == "labels":      # slices of other times (some or all of them)
        if not p.dims or case["aux"] == "unlabelled":
            return None
        d = p.dims[case["seed"] % len(p.dims)]
        x = p.other[d].astype("U9") if d == "expver" else p.other[d].copy()
        i = slice(None) if case["seed"] % 3 else slice(-1, None)
        x[i] = {"time": lambda y: y + np.timedelta64(3000, "h"), "number": lambda y: y + 100,
                "expver": lambda y: np.char.add("x", y)}[d](x[i])
        if case["seed"] % 2:
            t = t.assign_coords({d: x})
        else:
            v = v.assign_coords({d: x})
    elif kind == "missing variable":
        ds = xr.Dataset({u.name: u, v.name: v})
        check_refused(lambda: QGDataset(ds, **kw), kind)
        return [kind]
    elif kind == "wrong name":
        ds = xr.Dataset({d.name: d for d in (u, v, t)})
        kw["var_names"] = {**p.var_names, ["u", "v", "t", "plev", "ylat", "xlon"][case["seed"] % 6]: "nonexistent"}
        check_refused(lambda: QGDataset(ds, **kw), kind)
        return [kind]
    check_refused(lambda: QGDataset(u, v, t, **kw), kind)
    return [kind]


def check_refused(fn, what):
    try:
        fn()
    except Exception:
        return
    check(False, f"QGDataset accepted input with: {what}")


def base(**over):
    idx = st.integers(0, 5)
    return st.builds(
        lambda c, names, extra: {**c, "names": names, **extra},
        st.one_of(gen.qg_case(nlats=(9, 11, 13), nlons=(5, 10), kmaxs=(5, 7), max_amp=1.0, big=True),
                  gen.qg_case(nlats=(9, 11), nlons=(5, 10), kmaxs=(5, 7), even=True, max_amp=1.0)),
        st.fixed_dictionaries({k: idx for k in NAMES}),
        st.fixed_dictionaries(dict(
            sizes=st.one_of(st.just([]), st.lists(st.integers(1, 3), min_size=1, max_size=1),
                            st.lists(st.integers(1, 2), min_size=2, max_size=3)),
            flip_lat=st.booleans(), flip_lev=st.booleans(), explicit=st.booleans(), positional=st.booleans(),
            nh=st.booleans(), silent=st.booleans(), lwa_only=st.integers(0, 4).map(lambda i: i == 3),
            f32=st.booleans(), aux=st.sampled_from(["", "", "", "scalar", "along", "unlabelled"]), lazy=st.integers(0, 3).map(lambda i: i == 3), label=st.sampled_from(["own", "own", "none", "same", "swapped"]),
            lon=st.sampled_from(["", "wrapped", "west", "rolled"]), over=st.integers(0, 2), over_ds=st.booleans(),
            forced=st.sampled_from([None, "forcing", "heating"]), layer_first=st.booleans(),
            form=st.sampled_from(["dataset", "arrays", "datasets", "mixed"]), **over)))


KINDS = ["grids", "labels", "labels", "levels", "order", "order of one", "missing variable", "wrong name"]
LAWS = [
    Law("analysis", base(), analysis, 420, 5000, 5, "all slices statically stable"),
    Law("refused", base(kind=st.sampled_from(KINDS)), refused, 240, 2400, 2, "every case"),
]
