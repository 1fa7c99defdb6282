"""C07: reference state of QGPV (Qref)."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, model
from lib.common import Law, check, near, relscale
from lib.qg import Run, qref_check, resolvable

ASSUMPTIONS = ["PV that varies by more than 0.1 % of its largest value on every interior level"]


def ok(run):
    t0s, t0n, ss, sn = run.profiles()
    return min(ss.min(), sn.min()) > 1e-3 and resolvable(run)


def definition(case):
    run = Run(case, nh_only=case["nh"], maxit=case["maxit"])
    run.interp()
    if not ok(run):
        return None
    run.o.compute_reference_states()
    amb = qref_check(run)
    return [case["cls"], "nh only" if case["nh"] else "global", "SOR stopped" if run.o.nonconvergent_uref else "solved",
            "points on bin edges" if amb else "no points on bin edges"]


def permuted(case):
    """Qref depends on the PV of latitude circles only through its values: rolling each row of the PV keeps it.

    The rows of PV cannot be permuted through the input (PV is derived), so this drives the kernels' wrapper object:
    two atmospheres rolled against each other in longitude have the same Qref.
    """
    run = Run(case)
    run.interp()
    if not ok(run):
        return None
    run.o.compute_reference_states()
    k = 1 + case["seed"] % max(1, run.nlon - 1)
    b2 = dict(run.b)
    for n in ("u", "v", "t"):
        b2[n] = np.roll(run.b[n], k, axis=2)
    o2 = gen.make(case, b2)
    o2.interpolate_fields()
    o2.compute_reference_states()
    for h in (1, -1):
        wid = np.zeros((run.K, run.nd))
        for lev in range(1, run.K - 1):
            lo, hi, dq = run.qref_interval(h, lev)
            wid[lev, 1:-1] = (hi - lo)[1:]
        a, c = run.F(run.o.qref, h), run.F(o2.qref, h)
        near(c, a, wid + 2e-6 * relscale(a) , "Qref of an atmosphere rolled in longitude")
    return [case["cls"]]


def strat(**kw):
    return st.builds(lambda c, nh, m: {**c, "nh": nh, "maxit": m}, gen.qg_case(**kw), st.booleans(),
                     st.sampled_from([20000, 20000, 20000, 3]))


RULE = "statically stable mean profile and PV that varies on every interior level"
LAWS = [
    Law("definition", strat(nlats=(9, 11, 13, 15, 17, 19, 21, 25, 31)), definition, 600, 8000, 5, RULE),
    Law("permuted", gen.qg_case(), permuted, 150, 2000, 2, RULE),
]
