"""C08: NH18 reference states of zonal wind and potential temperature."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, model
from lib.common import Law, check, near, relscale
from lib.qg import Run, ptref, resolvable, rounding_floor, thermal_slack, uref_nh18

ASSUMPTIONS = ["statically stable hemispheric mean profiles", "the SOR solver stops at its tolerance 1e-5",
               "non-convergence is allowed where the rounding error of the residual exceeds the tolerance"]


def ok(run):
    t0s, t0n, ss, sn = run.profiles()
    return min(ss.min(), sn.min()) > 1e-3 and resolvable(run)


def solution(case):
    small = case["nlat"] <= 31 and case["kmax"] <= 13
    over = {k: case[k] for k in ("rjac", "tol") if case[k] is not None and small}
    eps = over.get("tol", 1e-5) / 1e-5
    run = Run(case, nh_only=case["nh"], **over)
    run.interp()
    if not ok(run):
        return None
    r = run.o.compute_reference_states()
    if run.o.nonconvergent_uref:
        # allowed (and reported) only where rounding in single precision keeps the residual above the tolerance
        check(max(rounding_floor(run, h, run.F(run.o.qref, h) * h) for h in run.hemis()) > eps,
              "the iteration did not converge within 20000 iterations")
        return None
    near(r.Uref, run.o.uref, 0, "named tuple Uref")
    near(r.PTref, run.o.ptref, 0, "named tuple PTref")
    near(r.Qref, run.o.qref, 0, "named tuple Qref")
    check(r.Uref.shape == (run.K, run.nd if case["nh"] else run.nlat), f"shape of Uref {r.Uref.shape}")
    for h in run.hemis():
        n = "north" if h > 0 else "south"
        i = run.shared(h)
        q, u, th = run.F(run.o.qref, h) * h, run.F(run.o.uref, h), run.F(run.o.ptref, h)
        want, slack = uref_nh18(run, h, q)
        # the iteration stops on the sum of the residuals: the error it leaves grows with the number of points
        tol = (max(1e-4, 2e-7 * run.nd ** 2) * relscale(want) + 1e-3) * max(1., run.nd * run.K / 200.) * max(1., eps)
        near(u[:, i:], want.T[:, i:], tol + 3 * slack + thermal_slack(run, h)[:, i:], f"Uref ({n})")
        if i:
            u = u.copy()
            u[:, 0] = want[0]
        wt = ptref(run, h, u.T)
        near(th[:, i:], wt[:, i:], 2e-5 * relscale(wt), f"PTref ({n})")
    return ["nh only" if case["nh"] else "global", "own constants" if case["const"] else "Earth",
            *(f"{k}={v}" for k, v in over.items())]


def stopping(case):
    """More iterations change nothing once it has converged; the tolerance decides what counts as converged."""
    run = Run(case, nh_only=case["nh"])
    run.interp()
    if not ok(run):
        return None
    run.o.compute_reference_states()
    if run.o.nonconvergent_uref:
        return None

    def other(**kw):
        o = gen.make(case, run.b, nh_only=case["nh"], **kw)
        o.interpolate_fields()
        o.compute_reference_states()
        return o
    o = other(maxit=20000 * (2 + case["seed"] % 5))
    check(not o.nonconvergent_uref, "not converged with more iterations")
    near(o.uref, run.o.uref, 0, "Uref with a larger limit of iterations")
    near(o.ptref, run.o.ptref, 0, "PTref with a larger limit of iterations")
    n = 3 + case["seed"] % 40
    check(other(maxit=n, tol=0.).nonconvergent_uref, f"converged within {n} iterations to a residual of zero")
    check(not other(maxit=n, tol=1e30).nonconvergent_uref, f"no convergence within {n} iterations with tolerance 1e30")
    # find the limit of iterations from which on it converges: a much smaller tolerance is not met there
    t = 1e-5 * (0.5, 1., 3.)[case["seed"] % 3]
    lo, hi = 2, 20000
    if other(maxit=hi, tol=t).nonconvergent_uref:
        return None
    while hi - lo > 1:
        m = int(np.sqrt(lo * hi)) if hi > 2 * lo else (lo + hi) // 2
        m = min(max(m, lo + 1), hi - 1)
        lo, hi = (m, hi) if other(maxit=m, tol=t).nonconvergent_uref else (lo, m)
    if lo > 2:
        check(other(maxit=hi, tol=t / 100).nonconvergent_uref,
              f"{hi} iterations are just enough for a tolerance of {t:g} and for a hundredth of it")
        check(not other(maxit=hi, tol=t * 100).nonconvergent_uref, "no convergence with a larger tolerance")
    check(other(maxit=2, tol=1e-7).nonconvergent_uref, "converged within 2 iterations")
    return ["nh only" if case["nh"] else "global"]


def resting(case):
    """An atmosphere at rest whose theta depends on height only has a reference state at rest."""
    c = dict(cls="NH18", nlat=case["nlat"], nlon=8, kmax=case["kmax"], dz=1000., extra_lev=0, zseed=1, seed=1,
             jet=0., amp=0., noise=0., strat=0.004, grad=0., asym=0., jb=0, npart=None, const=None, uniform=True)
    b = gen.build(c)
    b["u"] = np.zeros_like(b["u"])
    b["v"] = np.zeros_like(b["v"])
    k = b["c"]
    b["t"] = ((280. + 0.004 * b["z"]) * np.exp(-k["dry_gas_constant"] / k["cp"] * b["z"] / k["scale_height"])
              )[:, None, None] * np.ones(b["u"].shape)
    run = Run(c, data=b)
    run.interp()
    run.o.compute_reference_states()
    check(not run.o.nonconvergent_uref, "not converged")
    u = np.abs(run.o.uref[1:-1, 1:-1]).max()
    check(u <= 1.0, f"largest |Uref| of an atmosphere at rest is {u:.2f} m/s")
    return True


def known_findings(one):
    out = []
    for nlat in (61, 181):
        case = dict(nlat=nlat, kmax=6)
        m = one("resting", case)
        if m:
            out.append((f"resting-atmosphere nlat={nlat}", "resting", case, m))
    return out


def strat():
    return st.builds(lambda c, nh, r, t: {**c, "nh": nh, "rjac": r, "tol": t}, gen.qg_case(cls=("NH18",)), st.booleans(),
                     st.sampled_from([None, None, None, 0., 0.5, 0.9, 0.97]),
                     st.sampled_from([None, None, None, None, 1e-4, 3e-6]))


RULE = "statically stable mean profile and PV that varies on every interior level"
LAWS = [Law("solution", strat(), solution, 700, 10000, 6, RULE),
        Law("stopping", strat(), stopping, 150, 2000, 2, RULE)]
PROBES = [Law("resting", st.none(), resting, 1, 1, 1)]
