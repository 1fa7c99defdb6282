"""C20: unusable input is refused with the documented error; inputs are never modified; masks are ignored."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, raises, relscale
from lib.meta import INTERP, analyse, compare, separated
from lib.qg import Run

ASSUMPTIONS = ["errors of the constructor are those named in its code (TypeError, ValueError)"]


def refused(case):
    b = gen.build(case)
    cls, kind = case["cls"], case["kind"]
    r = np.random.default_rng(case["seed"])
    x = dict(b)
    kcase = case
    err = TypeError
    if kind == "ascending plev":
        x["plev"] = b["plev"][::-1].copy()
        for k in "uvt":
            x[k] = b[k][::-1].copy()
    elif kind == "descending ylat":
        x["ylat"] = b["ylat"][::-1].copy()
        for k in "uvt":
            x[k] = b[k][:, ::-1].copy()
    elif kind == "kmax too large":
        if case["uniform"]:
            return None
        top = -b["c"]["scale_height"] * np.log(b["plev"][-1] / 1000.)
        most = int(top // case["dz"]) + 1
        kw = dict(b["kw"], kmax=most + 1 + case["pick"] % 3)
        raises(ValueError, lambda: gen.make(case, dict(b, kw=kw)), f"kmax={kw['kmax']} with data for {most} levels")
        o = gen.make(case, dict(b, kw=dict(b["kw"], kmax=most)))       # the largest valid value
        t = o.interpolate_fields()
        check(t.U.shape[0] == most and np.isfinite(t.U).all(), "largest valid kmax")
        return [kind]
    elif kind == "wrong shape":
        k = "uvt"[case["pick"] % 3]
        a = (case["pick"] // 3) % 5
        f = b[k]
        x[k] = [f[1:], f[:, 1:], f[..., 1:], np.swapaxes(f, 1, 2), f[..., None]][a]
        if x[k].shape == f.shape:
            return None
        if k == "t":
            err = (TypeError, ValueError)       # may already fail in the conversion to potential temperature
    elif kind == "no equator":
        if case["nlat"] % 2 == 0:
            return None
        # an odd grid that misses the equator
        x["ylat"] = b["ylat"] + 180. / (case["nlat"] - 1) * (0.1 + 0.3 * r.random())
    elif kind == "equator off centre":
        if case["nlat"] % 2 == 0:
            return None
        # rows are missing at one end, up to a whole hemisphere
        k = (1 + case["pick"] % (case["nlat"] // 2)) if case["what"] else case["nlat"] // 2
        rows = slice(k, None) if case["nh"] else slice(None, -k)
        x["ylat"] = b["ylat"][rows]
        for f in "uvt":
            x[f] = b[f][:, rows].copy()
    elif kind == "equator twice":
        y = np.array(b["ylat"])
        i = case["nlat"] // 2
        y[i - 1] = y[i] = 0.
        x["ylat"] = y
    raises(err, lambda: gen.make(kcase, x), kind)
    return [kind]


def nonfinite(case):
    """A non-finite value anywhere never crashes and is refused where it reaches the QGPV."""
    b = gen.build(case)
    x = {k: np.array(b[k]) for k in "uvt"}
    r = np.random.default_rng(case["seed"] + 1)
    k = "uvt"[case["pick"] % 3]
    n = 1 + case["pick"] // 3 % 3
    for _ in range(n):
        x[k][r.integers(x[k].shape[0]), r.integers(x[k].shape[1]), r.integers(x[k].shape[2])] = [np.nan, np.inf, -np.inf][case["what"]]
    o = gen.make(case, dict(b, **x), nh_only=case["nh"], maxit=300)
    if k == "t":
        # temperature enters the hemispheric profiles, which are fitted with a spline that may refuse on its own
        try:
            o.interpolate_fields()
        except ValueError:
            return ["refused by interpolate_fields"]
    else:
        o.interpolate_fields()
    bad = not np.isfinite(o.qgpv).all()
    try:
        o.compute_reference_states()
    except ValueError:
        return ["refused by compute_reference_states"]
    check(not bad, "compute_reference_states accepted non-finite QGPV")
    check(np.isfinite(o.qref).all(), "Qref is not finite though nothing was reported")
    return ["not used"]


def masked(case):
    b = gen.build(case)
    r = np.random.default_rng(case["seed"] + 2)
    x = dict(b)
    kinds = []
    for i, k in enumerate(("u", "v", "t")):
        if case["pick"] >> i & 1 or case["what"] == 2:
            m = np.zeros(b[k].shape, bool)
            kinds.append(["empty", "random", "point", "level", "row", "full", "nomask"][r.integers(7) if case["what"] else 0])
            if kinds[-1] == "random":
                m = r.random(m.shape) < 0.2
            elif kinds[-1] == "point":
                m[tuple(r.integers(n) for n in m.shape)] = True
            elif kinds[-1] == "level":
                m[r.integers(m.shape[0])] = True
            elif kinds[-1] == "row":
                m[:, r.integers(m.shape[1])] = True
            elif kinds[-1] == "full":
                m[:] = True
            x[k] = np.ma.masked_array(b[k].copy(), mask=np.ma.nomask if kinds[-1] == "nomask" else m)
            if r.random() < 0.3:
                x[k].fill_value = -999.
    if case["pick"] >> 3 & 1:
        x["ylat"] = np.ma.masked_array(np.array(b["ylat"]), mask=np.zeros(len(b["ylat"]), bool))
    keep = {k: np.array(np.ma.getdata(x[k])) for k in ("u", "v", "t", "ylat")}
    one, two = Run(case, data=b, nh_only=case["nh"]), Run(case, data=x, nh_only=case["nh"])
    want = analyse(one)
    if want is None:
        return None
    got = analyse(two)
    check(got is not None, "analysis of masked arrays does not finish")
    for k, v in keep.items():
        check(np.array_equal(np.ma.getdata(x[k]), v), f"the data of the masked input {k} were modified")
    for k in want:
        check(not isinstance(getattr(two.o, k), np.ma.MaskedArray), f"{k} is a masked array")
        near(got[k], want[k], 1e-9 * relscale(want[k]), f"{k} of masked arrays")
    return [case["cls"], *sorted({k + " mask" for k in kinds})]


def untouched(case):
    """Read-only or non-contiguous single or double precision input gives the same results and is not modified."""
    b = gen.build(case)
    f32 = case["what"] == 1
    cast = lambda a: np.asarray(a, dtype=np.float32 if f32 else float)
    base = {k: cast(b[k]) for k in "uvt"}
    one = Run(case, data=dict(b, **{k: v.copy() for k, v in base.items()}), nh_only=case["nh"])
    want = analyse(one)
    if want is None:
        return None
    x = {}
    lay = case["pick"] % 4
    for k, v in base.items():
        if lay == 0:
            x[k] = np.asfortranarray(v)
        elif lay == 1:
            w = np.zeros((v.shape[0], v.shape[1], 2 * v.shape[2]), v.dtype)
            w[..., ::2] = v
            x[k] = w[..., ::2]
        elif lay == 2:
            x[k] = np.ascontiguousarray(v[::-1, ::-1])[::-1, ::-1]
        else:
            x[k] = v.copy()
        x[k].flags.writeable = False
    grid = {k: np.array(b[k]) for k in ("ylat", "xlon", "plev")}
    for v in grid.values():
        v.flags.writeable = False
    keep = {k: np.array(v) for k, v in {**x, **grid}.items()}
    got = analyse(Run(case, data=dict(b, **x, **grid), nh_only=case["nh"]))
    check(got is not None, "analysis does not finish")
    for k, v in {**x, **grid}.items():
        check(np.array_equal(v, keep[k]), f"input {k} was modified")
    for k in want:
        near(got[k], want[k], (1e-3 if f32 else 1e-6) * relscale(want[k]) if k in INTERP else np.inf, f"{k} for another memory layout")
    if not f32 and case["nlat"] % 2 and separated(one):
        compare(one, want, got, "another memory layout")
    return [case["cls"], ["Fortran order", "strided", "flipped", "contiguous"][lay], "float32" if f32 else "float64"]


def number_types(case):
    """Coordinates and fields of whole numbers give the same results whatever number type holds them."""
    deg = [d for d in (5, 6, 9, 10, 15, 18) if (d < 9) == (case["pick"] == 0)][case["zseed"] % (2 if case["pick"] == 0 else 4)]
    n = 180 // deg
    if case["nlat"] % 2:
        case = {**case, "nlat": n + 1}
        ylat = np.arange(-90, 91, deg)
    else:
        if n % 2 or deg % 2:
            n, deg = 18, 10
        case = {**case, "nlat": n, "polar": False}
        ylat = np.arange(-90 + deg // 2, 90, deg)
    case = {**case, "nlon": [8, 10, 12, 9, 6][case["seed"] % 5], "uniform": case["uniform"] and case["what"] != 1}
    b = gen.build(case)
    check(np.allclose(b["ylat"], ylat, atol=1e-9), "internal: latitudes")
    b["ylat"] = ylat.astype(float)
    b["xlon"] = np.round(b["xlon"])
    if not case["uniform"]:
        b["plev"] = np.floor(b["plev"])
        if (np.diff(b["plev"]) >= 0).any() or b["plev"][-1] < 1:
            return None
    for k in "uvt":
        b[k] = np.round(b[k])
    b["kw"]["dz"] = float(max(1, int(b["kw"]["dz"])) if not case["uniform"] else b["kw"]["dz"])
    want = analyse(one := Run(case, data=b, nh_only=case["nh"]))
    if want is None:
        return None
    kind = ["int64", "int32", "float32"][case["what"]]
    x = dict(b, kw=dict(b["kw"]))
    for k in ("ylat", "xlon", "u", "v", "t") + (() if case["uniform"] else ("plev",)):
        if (case["seed"] >> "ylat xlon u v t plev".split().index(k)) % 4:
            x[k] = b[k].astype(kind)
    if not case["uniform"] and kind != "float32":
        x["kw"]["dz"] = int(b["kw"]["dz"])
    got = analyse(Run(case, data=x, nh_only=case["nh"]))
    check(got is not None, f"analysis of {kind} input does not finish")
    for k in INTERP:
        if k in want:
            near(got[k], want[k], (1e-3 if kind == "float32" else 1e-5) * relscale(want[k]), f"{k} of {kind} input")
    check(got.keys() == want.keys(), "different outputs")
    if kind != "float32" and case["nlat"] % 2 and separated(one):
        compare(one, want, got, f"{kind} input")
    return [case["cls"], kind, "even" if case["nlat"] % 2 == 0 else "odd"]


def strat(kinds=None):
    d = dict(pick=st.integers(0, 15), what=st.integers(0, 2), nh=st.booleans())
    if kinds:
        d["kind"] = st.sampled_from(kinds)
    q = dict(nlats=(9, 11, 13, 15), nlons=(5, 12), kmaxs=(5, 8), max_amp=1.5)
    return st.builds(lambda c, x: {**c, **x}, st.one_of(gen.qg_case(**q), gen.qg_case(**q), gen.qg_case(even=True, **q)),
                     st.fixed_dictionaries(d))


KINDS = ["ascending plev", "descending ylat", "kmax too large", "wrong shape", "no equator", "equator twice", "equator off centre"]
LAWS = [
    Law("refused", strat(KINDS), refused, 500, 5000, 2, "the case really is unusable"),
    Law("nonfinite", strat(), nonfinite, 500, 6000, 3, "every case has a non-finite value"),
    Law("masked", strat(), masked, 200, 3000, 2, "stable mean profile and solved reference states"),
    Law("number_types", strat(), number_types, 250, 3000, 2, "stable mean profile and solved reference states"),
    Law("untouched", strat(), untouched, 250, 3000, 2, "stable mean profile and solved reference states"),
]
