"""C26: the plotting helpers show exactly the data they are given."""
import glob
import os
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, relscale

ASSUMPTIONS = ["fields that are not constant; coastlines are replaced by nothing (their outlines would be downloaded)",
               "what is drawn is read from the calls of contourf and from the figure that is left open"]


class Recorder:
    """A scratch folder, an offscreen matplotlib and the list of calls of contourf."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-c26-")
        if "MPLCONFIGDIR" not in os.environ:
            os.environ["MPLCONFIGDIR"] = self.dir
            for n in glob.glob("/opt/mplconfig/fontlist*.json"):      # saves the search for fonts
                shutil.copy(n, self.dir)
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.axes
        import matplotlib.pyplot as plt
        from cartopy.mpl.geoaxes import GeoAxes
        self.plt, self.calls, self.depth = plt, [], 0
        self.show, self.shown = plt.show, 0
        self.undo = []
        plt.rcParams["figure.dpi"] = plt.rcParams["savefig.dpi"] = 20
        plt.close("all")

        def show(*a, **k):
            self.shown += 1
        self.put(plt, "show", show)
        self.put(GeoAxes, "coastlines", lambda *a, **k: None)
        for cls in (matplotlib.axes.Axes, GeoAxes):
            self.wrap(cls)
        warnings.simplefilter("ignore")
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        return self

    def put(self, obj, name, value):
        self.undo.append((obj, name, obj.__dict__.get(name), name in obj.__dict__))
        setattr(obj, name, value)

    def wrap(self, cls):
        if "contourf" not in cls.__dict__:
            return
        orig = cls.contourf

        def contourf(ax, *args, **kw):
            self.depth += 1
            try:
                cs = orig(ax, *args, **kw)
            finally:
                self.depth -= 1
            if self.depth == 0:
                lev = args[3] if len(args) > 3 else kw.get("levels")
                self.calls.append(dict(ax=ax, x=np.asarray(args[0]), y=np.asarray(args[1]), z=np.asarray(args[2]),
                                       levels=lev, drawn=np.asarray(cs.levels), cmap=cs.get_cmap().name))
            return cs
        self.put(cls, "contourf", contourf)

    def __exit__(self, *exc):
        os.chdir(self.cwd)
        for obj, name, value, had in reversed(self.undo):
            setattr(obj, name, value) if had else delattr(obj, name)
        self.plt.close("all")
        shutil.rmtree(self.dir, ignore_errors=True)

    def files(self):
        return sorted(f for f in os.listdir(self.dir) if f.endswith((".png", ".pdf")))


def data(case):
    r = np.random.default_rng(case["seed"])
    ny, nx = case["ny"], case["nx"]
    y = np.linspace(-90, 90, ny) if case["full"] else np.sort(r.uniform(-85, 85, ny))
    x = np.arange(nx) * 360. / nx
    a = case["scale"] * (r.normal(size=(ny, nx)) + case["shift"])
    b = a + case["scale"] * 0.3 * r.normal(size=(ny, nx))
    return x, y, a, b


def panel(c, x, y, z, levels, cmap, title, what):
    near(c["z"], z, 1e-12 * relscale(z), f"{what}: values")
    X, Y = (c["x"], c["y"]) if c["x"].ndim == 1 else (c["x"][0], c["y"][:, 0])
    near(X, x, 1e-9, f"{what}: longitudes")
    near(Y, y, 1e-9, f"{what}: latitudes")
    if levels is not None:
        near(np.asarray(c["drawn"]), levels, 1e-9 * relscale(levels), f"{what}: contour levels")
    check(c["cmap"] == cmap, f"{what}: colour map {c['cmap']}, {cmap} was asked for")
    check(c["ax"].get_title() == title, f"{what}: title {c['ax'].get_title()!r}, expected {title!r}")


def compare(case):
    """Two panels with a common range and the absolute difference, on plain axes or on a map."""
    with Recorder() as rec:
        from falwa import plot_utils
        x, y, a, b = data(case)
        keep = a.copy(), b.copy()
        kw = {}
        if case["cmap"]:
            kw["cmap"] = case["cmap"]
        if case["factor"] != "default":
            kw["diff_factor"] = case["factor"]
        if case["file"] != "default":
            kw["savefig_fname"] = case["file"]
        fn = plot_utils.compare_two_fields_on_map if case["map"] else plot_utils.compare_two_fields
        fn(a, b, "first", "second", x, y, "whole plot", figsize=(9, 3), **kw)
        check(len(rec.calls) == 3, f"{len(rec.calls)} filled contour plots, 3 expected")
        rec.calls.sort(key=lambda c: c["ax"].get_position().x0)     # from left to right
        lo, hi = min(a.min(), b.min()), max(a.max(), b.max())
        cm = case["cmap"] or "rainbow"
        common = np.linspace(lo, hi, 31)
        panel(rec.calls[0], x, y, a, common, cm, "first", "first panel")
        panel(rec.calls[1], x, y, b, common, cm, "second", "second panel")
        f = 0.01 if case["factor"] == "default" else case["factor"]
        d = np.abs(a - b)
        panel(rec.calls[2], x, y, d, np.linspace(0, f * max(abs(lo), abs(hi)), 31) if f else None, cm, "Abs difference",
              "difference panel")
        if not f:
            lv = rec.calls[2]["drawn"]
            check(lv[0] <= d.min() + 1e-9 * d.max() and lv[-1] >= d.max() * (1 - 1e-9),
                  "the automatic colour range does not cover the difference")
        fig = rec.calls[0]["ax"].figure
        check(all(c["ax"].figure is fig for c in rec.calls) and len({id(c["ax"]) for c in rec.calls}) == 3,
              "the panels are not three axes of one figure")
        check(fig.get_suptitle() == "whole plot", f"main title {fig.get_suptitle()!r}")
        check(len(fig.axes) == 6, f"{len(fig.axes)} axes, expected three panels with a colour bar each")
        want = dict(default=["default.png"]).get(case["file"], [case["file"]] if case["file"] else [])
        check(rec.files() == want, f"files {rec.files()}, expected {want}")
        near(a, keep[0], 0, "first field modified")
        near(b, keep[1], 0, "second field modified")
    return ["map" if case["map"] else "plain", f"diff_factor {case['factor']}", "saved" if want else "not saved"]


def plotters(case):
    """Latitude-longitude and height-latitude plots."""
    with Recorder() as rec:
        from falwa import plot_utils
        x, y, a, _ = data(case)
        r = np.random.default_rng(case["seed"] + 1)
        kw = {}
        if case["exclude"] is not None:
            kw["exclude_equator"] = case["exclude"]
        if case["seed"] % 2:
            kw["white_space_width"] = 3.5
        if case["seed"] % 3 == 0:
            kw["x_axis_title"], kw["y_axis_title"] = "one axis", "other axis"
        lev = {} if case["levels"] is None else dict(num_level=case["levels"])
        name = case["file"] if case["file"] not in ("default", None) else "out.png"
        if case["map"]:
            ix, iy = r.integers(0, x.size, 4), r.integers(0, y.size, 4)
            marks = (np.arange(-180, 181, r.choice([30, 60, 90])),
                     np.arange(r.choice([-90, -60, 0, 20]), 91, r.choice([15, 30, 45])))
            p = plot_utils.LatLonMapPlotter((5, 3), "title", x, y, ix, iy, *marks, **kw)
            fkw = {} if case["file"] == "default" else dict(save_path=case["file"])
            want = dict(default=["figure.png"]).get(case["file"], [case["file"]] if case["file"] else [])
            p.plot_and_save_variable(a, "viridis", "variable", **fkw, **lev)
            line, at, labels = "y", (y,), ("Longitude[deg]", "Latitude[deg]")
        else:
            lim = [(-80., 75.), (0., 90.), (-90., 10.)][case["seed"] % 3]
            p = plot_utils.HeightLatPlotter((5, 3), "title", x, y, lim, **kw)
            p.plot_and_save_variable(a, "viridis", "variable", name, **lev)
            want = [name]
            line, labels = "x", ("Latitude[deg]", "Pseudoheight[m]")
        check(len(rec.calls) == 1, f"{len(rec.calls)} filled contour plots, 1 expected")
        c = rec.calls[0]
        panel(c, x, y, a, None, "viridis", "title\nvariable", "plot")
        check(c["drawn"][0] <= a.min() + 1e-6 * relscale(a) and c["drawn"][-1] >= a.max() - 1e-6 * relscale(a),
              "the colour range does not cover the field")
        check(np.isscalar(c["levels"]) and c["levels"] == (case["levels"] or 30), f"number of levels {c['levels']}")
        ax = c["ax"]
        if "x_axis_title" in kw:
            labels = ("one axis", "other axis")
        check((ax.get_xlabel(), ax.get_ylabel()) == labels, f"axis labels {ax.get_xlabel()!r}, {ax.get_ylabel()!r}")
        lines = [l for l in ax.lines if np.allclose(l.get_ydata() if line == "y" else l.get_xdata(), 0.)]
        on = case["exclude"] is not False
        check(len(lines) == int(on), f"{len(lines)} lines along the equator")
        if on:
            check(lines[0].get_linewidth() == kw.get("white_space_width", 20), f"width of the equator line {lines[0].get_linewidth()}")
            check(lines[0].get_color() in ("w", "white"), f"colour of the equator line {lines[0].get_color()}")
        if case["map"]:
            off = [o.get_offsets() for o in ax.collections if type(o).__name__ == "PathCollection"]
            check(len(off) == 1, "no points on land")
            near(ax.get_xticks(), marks[0], 1e-9, "marks of longitude")
            near(ax.get_yticks(), marks[1], 1e-9, "marks of latitude")
            near(np.asarray(off[0], float), np.stack([x[ix], y[iy]], 1), 1e-9, "points on land")
        else:
            near(np.asarray(ax.get_xlim()), np.asarray(lim), 1e-9, "limits of the x axis")
        check(rec.files() == want, f"files {rec.files()}, expected {want}")
    return ["map" if case["map"] else "height", "equator excluded" if on else "equator shown"]


def snapshot(case):
    """A time step of a variable of a file."""
    import xarray as xr
    with Recorder() as rec:
        from falwa import plot_utils
        x, y, a, b = data(case)
        nt = 11 + case["seed"] % 4
        r = np.random.default_rng(case["seed"] + 2)
        v = r.normal(size=(nt, y.size, x.size))
        lat, lon = ("latitude", "longitude") if case["seed"] % 2 else ("lat", "x")
        xr.Dataset(dict(q=(("time", lat, lon), v), other=(("time", lat, lon), -v)),
                   dict(zip((lat, lon), (y, x)))).to_netcdf("in.nc", engine="scipy")
        kw = {} if lat == "latitude" else dict(latitude_name=lat, longitude_name=lon)
        step = 10
        if case["levels"]:
            step = kw["tstep"] = case["levels"] % nt
        plot_utils.plot_lon_lat_field("in.nc", "q", **kw)
        check(len(rec.calls) == 1, f"{len(rec.calls)} filled contour plots, 1 expected")
        c = rec.calls[0]
        near(c["z"], v[step], 1e-12, f"values of time step {step}")
        near(c["x"], x, 1e-9, "longitudes")
        near(c["y"], y, 1e-9, "latitudes")
        xr.backends.file_manager.FILE_CACHE.clear()
    return ["given step" if case["levels"] else "default step"]


def strat():
    return st.fixed_dictionaries(dict(
        nx=st.integers(4, 12), ny=st.integers(4, 12), seed=gen.seeds, full=st.booleans(), map=st.booleans(),
        scale=st.sampled_from([1., 1e-5, 300.]), shift=gen.floats(-8, 8, 16),
        cmap=st.sampled_from([None, None, "viridis", "jet"]),
        factor=st.sampled_from(["default", None, 0.5, 0.02]), file=st.sampled_from(["default", None, "one.png"]),
        exclude=st.sampled_from([None, True, False]), levels=st.sampled_from([None, 5, 12, 40])))


RULE = "every case (fields are random)"
LAWS = [
    Law("compare", strat(), compare, 80, 1200, 4, RULE),
    Law("plotters", strat(), plotters, 80, 1200, 4, RULE),
    Law("snapshot", strat(), snapshot, 50, 600, 2, RULE),
]
