"""C15: rotation about the axis: rolling the input in longitude rolls every output."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, near, relscale
from lib.meta import ALL, analyse, compare, separated
from lib.qg import Run

ASSUMPTIONS = ["statically stable hemispheric mean profiles, solved reference states, no PV value on a bin edge"]


def clear(case, run, b):
    """No PV value of the analysis grid lies on a bin edge."""
    if case["nlat"] % 2:
        return separated(run)
    odd = Run({**case, "nlat": case["nlat"] + 1}, data=gen.odd_data(b), nh_only=case["nh"])
    odd.interp()
    r = separated(odd)
    run.bw = getattr(odd, "bw", 0.)
    return r


def rolled(case):
    b = gen.build(case)
    run = Run(case, data=b, nh_only=case["nh"])
    out = analyse(run)
    if out is None or not clear(case, run, b):
        return None
    k = 1 + case["shift"] % (run.nlon - 1)
    m = dict(b)
    for n in ("u", "v", "t", "theta"):
        m[n] = np.roll(b[n], k, axis=2)
    # the longitudes move along (the first meridian is then anywhere) or stay as they were
    if case["along"]:
        m["xlon"] = np.roll(b["xlon"], k)
        if case["along"] == 2:
            m["xlon"] = np.where(m["xlon"] >= 180, m["xlon"] - 360, m["xlon"])
    got = analyse(Run(case, data=m, nh_only=case["nh"]))
    if got is None:
        return None
    want = {n: np.roll(out[n], k, axis=-1) if ALL[n][2] else out[n] for n in ALL}
    want["static_stability"] = out["static_stability"]
    compare(run, want, got, f"an atmosphere rolled by {k} points")
    near(got["static_stability"], out["static_stability"], 1e-7 * relscale(out["static_stability"]), "static stability")
    # the coordinate values of longitude do not enter
    x = dict(b)
    x["xlon"] = b["xlon"] + 37.5
    got = analyse(Run(case, data=x, nh_only=case["nh"]))
    compare(run, out, got, "an atmosphere with other values of longitude")
    return [case["cls"], "even" if case["nlat"] % 2 == 0 else "odd"]


def strat():
    return st.builds(lambda c, nh, s, a: {**c, "nh": nh, "shift": s, "along": a},
                     st.one_of(gen.qg_case(), gen.qg_case(), gen.qg_case(even=True, nlats=(9, 11, 13, 15, 17))),
                     st.booleans(), st.one_of(st.integers(0, 100), st.just(0)), st.integers(0, 2))


RULE = "stable mean profile, solved reference states and no PV value on a bin edge"
LAWS = [Law("rolled", strat(), rolled, 450, 6000, 6, RULE)]
