"""C16: latitude grids without the equator."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, relscale
from lib.meta import ALL, INTERP, analyse, change, separated, tolerance
from lib.qg import Run

ASSUMPTIONS = ["evenly spaced even grids, pole to pole or staggered; statically stable means; solved reference states"]


def offgrid(case):
    b = gen.build(case)
    run = Run(case, data=b, nh_only=case["nh"])
    out = analyse(run)
    if out is None:
        return None
    odd = gen.odd_data(b)
    ocase = {**case, "nlat": case["nlat"] + 1}
    if ocase.get("npart") is None:
        ocase["npart"] = case["nlat"] + 1
    ref = Run(ocase, data=odd, nh_only=case["nh"])
    want = analyse(ref)
    if want is None or not separated(ref):
        return None
    lat, x = odd["ylat"], np.asarray(b["ylat"])
    n = case["nlat"]
    hl, hx = (lat[-(n // 2 + 1):], x[-(n // 2):]) if case["nh"] else (lat, x)
    near(run.o.ylat, x, 0, "ylat is the input grid")
    near(run.o.ylat_ref_states, hx, 0, "ylat_ref_states")
    check(run.o.get_latitude_dim() == n, "get_latitude_dim")
    wq = gen.back(want["qref"], 1, hl, hx)
    tol = tolerance(ref, want, change(wq, out["qref"], want["qgpv"]))
    for k, (ax, _, _) in ALL.items():
        a, c = (lat, x) if k in INTERP else (hl, hx)
        w = gen.back(want[k], ax, a, c)
        check(out[k].shape == w.shape, f"{k}: shape {out[k].shape}, expected {w.shape}")
        near(out[k], w, tol[k], f"{k} on a grid without the equator")
    near(out["static_stability"], want["static_stability"], 1e-7 * relscale(want["static_stability"]), "static stability")
    # wave activity of a hemisphere whose wind was not needed
    lw = Run(case, data=b, nh_only=case["nh"])
    lw.interp()
    lw.o.compute_reference_states()
    lw.o.compute_lwa_only()
    near(lw.o.lwa, out["lwa"], tol["lwa"], "lwa of compute_lwa_only")
    near(lw.o.lwa_baro, out["lwa_baro"], tol["lwa"], "lwa_baro of compute_lwa_only")
    return [case["cls"], "poles" if case["polar"] else "staggered", "nh only" if case["nh"] else "global"]


def strat():
    return st.builds(lambda c, nh: {**c, "nh": nh}, gen.qg_case(even=True, nlats=(7, 9, 11, 13, 15, 17, 19)), st.booleans())


RULE = "stable mean profile, solved reference states and no PV value on a bin edge"
LAWS = [Law("offgrid", strat(), offgrid, 450, 6000, 6, RULE)]
