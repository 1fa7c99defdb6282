"""C09: NHN22 reference states of zonal wind and potential temperature (direct inversion)."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, model
from lib.common import Law, check, near, relscale
from lib.qg import Run, bc_nhn22, ptref, resolvable, thermal_slack, uref_nhn22

ASSUMPTIONS = ["statically stable hemispheric mean profiles over the rows of the domain"]


def ok(run):
    t0s, t0n, ss, sn = run.profiles()
    return min(ss.min(), sn.min()) > 1e-3 and resolvable(run)


def solution(case):
    run = Run(case, nh_only=case["nh"])
    run.interp()
    if not ok(run):
        return None
    r = run.o.compute_reference_states()
    near(r.Uref, run.o.uref, 0, "named tuple Uref")
    near(r.PTref, run.o.ptref, 0, "named tuple PTref")
    near(r.Qref, run.o.qref, 0, "named tuple Qref")
    jb = run.jb
    check(run.o.eq_boundary_index == jb, f"eq_boundary_index is {run.o.eq_boundary_index}, {jb} was given")
    for h in run.hemis():
        n = "north" if h > 0 else "south"
        q, u, th = run.F(run.o.qref, h) * h, run.F(run.o.uref, h), run.F(run.o.ptref, h)
        bc, slack = bc_nhn22(run, h)
        seen = run.shared(h) == jb
        if seen:
            near(u[:, jb] * run.cos[jb], bc, slack + 1e-3 + 5e-6 * run.om * run.a, f"Uref ({n}) at the equatorward boundary")
            bc = u[:, jb] * run.cos[jb]
        want = uref_nhn22(run, h, q, bc).T
        i = run.shared(h)
        # without the boundary value of the code the bin ambiguity of the circulation enters
        tol = max(1e-4, 2e-7 * run.nd ** 2) * relscale(want) + 1e-3 + (0 if seen else 3 * slack.max() + 1e-2)
        near(u[:, i:], want[:, i:], tol + thermal_slack(run, h)[:, i:], f"Uref ({n})")
        near(u[:, :jb], np.zeros((run.K, jb)), 0, f"Uref ({n}) equatorward of the boundary")
        if not seen:
            continue
        wt = ptref(run, h, u.T)
        near(th[:, jb:], wt[:, jb:], 3e-6 * relscale(wt), f"PTref ({n})")
        near(th[:, :jb], np.zeros((run.K, jb)), 0, f"PTref ({n}) equatorward of the boundary")
    return ["nh only" if case["nh"] else "global", f"boundary row {jb}"]


def strat():
    return st.builds(lambda c, nh: {**c, "nh": nh}, gen.qg_case(cls=("NHN22",)), st.booleans())


RULE = "statically stable mean profile and PV that varies on every interior level"
LAWS = [Law("solution", strat(), solution, 800, 12000, 6, RULE)]
