"""C25: hemispheric views of the result storage (model-based histories of reads and writes)."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, fail, near

ASSUMPTIONS = ["analysis grids with the equator; Southern Hemisphere values are handed over from the pole-ordered "
               "(mirrored) native kernels, i.e. in the reversed order of latitude"]

# storage class -> (fields, latitude axis, number of axes)
KINDS = dict(
    ReferenceStatesStorage=(("qref", "uref", "ptref"), 0, 2),
    LayerwiseFluxTermsStorage=(("lwa", "astar1", "astar2", "ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term", "ncforce"), 1, 3),
    BarotropicFluxTermsStorage=(("ua1baro", "ua2baro", "ep1baro", "ep2baro", "ep3baro", "ep4", "ncforce_baro", "u_baro",
                                 "lwa_baro", "astar1_baro", "astar2_baro"), 1, 2),
)


def storage(name, nh, nlat, nlon, kmax):
    import falwa.data_storage as d
    rows = nlat // 2 + 1 if nh else nlat
    fdim = dict(ReferenceStatesStorage=(rows, kmax), LayerwiseFluxTermsStorage=(nlon, rows, kmax),
                BarotropicFluxTermsStorage=(nlon, rows))[name]
    axes = (0, 2) if len(fdim) == 3 else (0, 1)
    return getattr(d, name)(pydim=fdim[::-1], fdim=fdim, swapaxis_1=axes[0], swapaxis_2=axes[1],
                            northern_hemisphere_results_only=nh), fdim, rows


def history(case):
    from falwa.data_storage import InvalidCallOfSHemVariables
    name, nh, nlat = case["kind"], case["nh"], case["nlat"]
    fields, ax, nd = KINDS[name]
    s, fdim, rows = storage(name, nh, nlat, case["nlon"], case["kmax"])
    other, _, _ = storage(name, nh, nlat, case["nlon"], case["kmax"])
    h = nlat // 2 + 1
    model = {f: np.zeros(fdim) for f in fields}
    r = np.random.default_rng(case["seed"])

    def cut(x, sl):
        return x[(slice(None),) * ax + (sl,)]
    wrote = set()
    for which, op, cut_rows in case["ops"]:
        f = fields[which % len(fields)]
        n = max(1, h - cut_rows)
        if op == "write north" or (op == "write south" and nh):
            shape = tuple(n if i == ax else m for i, m in enumerate(fdim))
            v = r.normal(size=shape)
            if op == "write south":
                try:
                    setattr(s, f + "_shem", v)
                except InvalidCallOfSHemVariables:
                    continue
                fail(f"{f}_shem could be written although only northern results are kept")
            setattr(s, f + "_nhem", v)
            cut(model[f], slice(rows - n, None))[...] = v
            wrote.add("n")
        elif op == "write south":
            shape = tuple(n if i == ax else m for i, m in enumerate(fdim))
            v = r.normal(size=shape)
            setattr(s, f + "_shem", v)
            cut(model[f], slice(0, n))[...] = np.flip(v, axis=ax)
            wrote.add("s")
        elif op == "read north":
            near(getattr(s, f + "_nhem"), cut(model[f], slice(rows - h, None)), 0, f"{f}_nhem")
        elif op == "read south":
            if nh:
                try:
                    getattr(s, f + "_shem")
                except InvalidCallOfSHemVariables:
                    continue
                fail(f"{f}_shem could be read although only northern results are kept")
            near(getattr(s, f + "_shem"), cut(model[f], slice(0, h)), 0, f"{f}_shem")
        for g in fields:
            near(getattr(s, g), model[g], 0, f"{g} after {op} of {f}")
            near(getattr(other, g), np.zeros(fdim), 0, f"{g} of another storage after {op} of {f}")
        p = s.fortran_to_python(getattr(s, f))
        near(p, model[f].T if nd == 2 else model[f].transpose(2, 1, 0), 0, "fortran_to_python")
        near(s.python_to_fortran(p), model[f], 0, "python_to_fortran after fortran_to_python")
        check(tuple(p.shape) == tuple(s.pydim), "shape in python order")
    if name == "ReferenceStatesStorage":
        ylat = np.linspace(0 if nh else -90, 90, rows)
        want = model["qref"] * (2 * 7.29e-5 * np.sin(np.deg2rad(ylat)))[:, None]
        near(s.qref_correct_unit(ylat, 7.29e-5), want.T, 1e-18, "qref_correct_unit")
        near(s.qref_correct_unit(ylat, 7.29e-5, python_indexing=False), want, 1e-18, "qref_correct_unit (fortran order)")
        near(s.qref, model["qref"], 0, "qref after qref_correct_unit")
    return [name, "north only" if nh else "global"] if wrote else None


def public(case):
    """With northern results only, no southern quantity can be reached through an analysis object."""
    from falwa.data_storage import InvalidCallOfSHemVariables
    o = gen.make(case, nh_only=True)
    o.interpolate_fields()
    seen = set()
    for s in vars(o).values():
        if type(s).__name__ not in KINDS:
            continue
        seen.add(type(s).__name__)
        for f in KINDS[type(s).__name__][0]:
            try:
                getattr(s, f + "_shem")
            except InvalidCallOfSHemVariables:
                continue
            fail(f"{f}_shem can be read")
    if not seen:
        return None
    return [case["cls"]]


OPS = ["write north", "write south", "read north", "read south"]
LAWS = [
    Law("history", st.fixed_dictionaries(dict(
        kind=st.sampled_from(list(KINDS)), nh=st.booleans(), nlat=st.sampled_from([3, 5, 7, 9, 11, 15]),
        nlon=st.integers(1, 6), kmax=st.integers(1, 6), seed=gen.seeds,
        ops=st.lists(st.tuples(st.integers(0, 10), st.sampled_from(OPS), st.sampled_from([0, 0, 0, 1, 2, 5])).map(list),
                     min_size=1, max_size=15))), history, 4000, 60000, 4, "at least one hemisphere was written"),
    Law("public", gen.qg_case(nlats=(9, 11), nlons=(4, 8), kmaxs=(5, 6)), public, 200, 2000, 1, "every case"),
]
