"""C14: results for the Northern Hemisphere only are the northern rows of the global results."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, model
from lib.common import Law, check, near, relscale
from lib.meta import ALL, INTERP, LAYER, analyse, tolerance
from lib.qg import Run

ASSUMPTIONS = ["statically stable hemispheric mean profiles, solved reference states",
               "without a boundary row (NH18, or eq_boundary_index=0) the equator row of the global results belongs "
               "to the Southern Hemisphere and is not compared"]


def same(case):
    b = gen.build(case)
    f = None
    g = Run(case, data=b)
    g.interp()
    if case["forced"] and case["nlat"] % 2:
        f = 1e-10 * np.random.default_rng(case["seed"] + 5).normal(size=g.t.QGPV.shape)
    out = analyse(g, f)
    if out is None:
        return None
    h = Run(case, data=b, nh_only=True)
    got = analyse(h, f)
    check(got is not None, "the analysis of the Northern Hemisphere alone does not finish")
    tol = tolerance(g, out)
    even = case["nlat"] % 2 == 0
    rows = case["nlat"] // 2 + (0 if even else 1)
    check(len(h.o.ylat_ref_states) == rows, f"ylat_ref_states has {len(h.o.ylat_ref_states)} rows")
    near(h.o.ylat_ref_states, np.asarray(b["ylat"])[-rows:], 0, "ylat_ref_states")
    near(g.o.ylat_ref_states, b["ylat"], 0, "ylat_ref_states of the global analysis")
    for k, (ax, _, _) in ALL.items():
        x, y = np.moveaxis(out[k], ax, 0), np.moveaxis(got[k], ax, 0)
        if k in INTERP:
            near(y, x, tol[k], f"{k} (always global)")
            continue
        check(y.shape[0] == rows, f"{k} has {y.shape[0]} rows, expected {rows}")
        i = 0
        if g.jb == 0 and k not in ("qref",):
            i = 2 if k in ("ep3", "divergence_eddy_momentum_flux") else 1
        if even and g.jb:
            i = 0
        near(y[i:], x[-rows:][i:], tol[k], f"{k} of the Northern Hemisphere")
    ss = out["static_stability"]
    near(got["static_stability"], ss[1] if ss.ndim == 2 else ss, 0, "static stability")
    if not even:
        h2 = Run(case, data=b, nh_only=True)
        h2.interp()
        h2.o.compute_reference_states()
        h2.o.compute_lwa_only()
        i = 1 if g.jb == 0 else 0
        near(h2.o.lwa[:, i:], out["lwa"][:, -rows:][:, i:], tol["lwa"], "lwa of compute_lwa_only")
        near(h2.o.lwa_baro[i:], out["lwa_baro"][-rows:][i:], tol["lwa"], "lwa_baro of compute_lwa_only")
    return [case["cls"], "even" if even else "odd", f"boundary row {g.jb}"]


def strat():
    return st.builds(lambda c, f: {**c, "forced": f},
                     st.one_of(gen.qg_case(), gen.qg_case(), gen.qg_case(even=True, nlats=(9, 11, 13, 15, 17))),
                     st.booleans())


RULE = "stable mean profile and solved reference states"
LAWS = [Law("same", strat(), same, 450, 6000, 6, RULE)]
