"""C10: QG local wave activity; agreement of the three methods that compute it."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, model
from lib.common import Law, check, near, raises, relscale
from lib.qg import Run

ASSUMPTIONS = ["statically stable hemispheric mean profiles; grids with the equator (others: C16)"]


def lwa_oracle(run, h):
    q = run.F(run.o.qref, h) * h
    pv = run.F(run.t.QGPV, h) * h
    return model.lwa_hemisphere(pv, q, run.a, run.jb)


def lwa_tol(run):
    return 4e-6 * relscale(run.t.QGPV, run.o.qref) * run.a * np.pi / 2


def ok(run):
    t0s, t0n, ss, sn = run.profiles()
    return min(ss.min(), sn.min()) > 1e-3


def compare(run, lwa, lwa_baro, what):
    tol = lwa_tol(run)
    check(lwa.shape == (run.K, run.nd if run.nh_only else run.nlat, run.nlon), f"{what}: shape of lwa {lwa.shape}")
    big = 0.
    for h in run.hemis():
        i = run.shared(h) if run.jb == 0 else 0
        n = f"{what} ({'north' if h > 0 else 'south'})"
        a1, a2 = lwa_oracle(run, h)
        got = run.F(lwa, h)
        near(got[:, i:], (a1 + a2)[:, i:], tol, f"lwa of {n}")
        check((got >= -tol * 1e-3).all(), f"negative lwa of {n}")
        # the column average of the package's own layers, and of the model
        base = run.F(lwa_baro, h, axis=0)
        want = model.column(a1 + a2, run.dz, run.H)
        near(base[i:], want[i:], tol, f"lwa_baro of {n}")
        big = max(big, relscale(a1 + a2))
    return big


def storage(run, what):
    """Cyclonic and anticyclonic parts in the layerwise storage."""
    s = run.o.layerwise_flux_terms_storage
    tol = lwa_tol(run)
    a1, a2, tot = (s.fortran_to_python(x) for x in (s.astar1, s.astar2, s.lwa))
    for h in run.hemis():
        i = run.shared(h) if run.jb == 0 else 0
        n = f"{what} ({'north' if h > 0 else 'south'})"
        w1, w2 = lwa_oracle(run, h)
        near(run.F(a1, h)[:, i:], w1[:, i:], tol, f"astar1 of {n}")
        near(run.F(a2, h)[:, i:], w2[:, i:], tol, f"astar2 of {n}")
        near(run.F(tot, h)[:, i:], (w1 + w2)[:, i:], 2 * tol, f"stored lwa of {n}")


def methods(case):
    runs = []
    for m in ("compute_lwa_and_barotropic_fluxes", "compute_lwa_only", "compute_layerwise_lwa_fluxes"):
        run = Run(case, nh_only=case["nh"], data=runs[0].b if runs else None)
        run.interp()
        if not ok(run):
            return None
        run.o.compute_reference_states()
        if run.o.nonconvergent_uref:
            return None
        r = getattr(run.o, m)()
        if m.endswith("layerwise_lwa_fluxes"):
            storage(run, m)
            s = run.o.layerwise_flux_terms_storage
            near(run.o.lwa, s.fortran_to_python(s.astar1) + s.fortran_to_python(s.astar2), 1e-12 * relscale(run.o.lwa),
                 "lwa is not astar1 + astar2")
            base = model.column(np.asarray(run.o.lwa), run.dz, run.H)
            big = compare(run, run.o.lwa, base, m)
        else:
            big = compare(run, run.o.lwa, run.o.lwa_baro, m)
            near(run.o.lwa_baro, model.column(np.asarray(run.o.lwa), run.dz, run.H), lwa_tol(run),
                 f"lwa_baro of {m} against the column average of its layers")
            if m == "compute_lwa_only":
                storage(run, m)
            else:
                near(r.lwa, run.o.lwa, 0, "named tuple lwa")
                near(r.lwa_baro, run.o.lwa_baro, 0, "named tuple lwa_baro")
        runs.append(run)
    tol = lwa_tol(runs[0])
    for other in runs[1:]:
        near(other.o.lwa, runs[0].o.lwa, tol, "lwa of two methods")
    near(runs[1].o.lwa_baro, runs[0].o.lwa_baro, tol, "lwa_baro of two methods")
    a, b = np.array(runs[1].o.u_baro), np.array(runs[0].o.u_baro)
    # compute_lwa_only leaves rows at and equatorward of the boundary and the pole rows without a mean wind
    for h in runs[0].hemis():
        j = max(runs[0].jb + 1, 1)
        near(runs[0].F(a, h, 0)[j:-1], runs[0].F(b, h, 0)[j:-1], 2e-6 * relscale(b), "u_baro of two methods")
    return [case["cls"], "nh only" if case["nh"] else "global"] if big > 0 else None


def stopped(case):
    """A reference state whose wind was not found still gives the local wave activity of its Qref."""
    run = Run(case, nh_only=case["nh"], maxit=2)
    run.interp()
    if not ok(run):
        return None
    run.o.compute_reference_states()
    if not run.o.nonconvergent_uref:
        return None
    raises(ValueError, run.o.compute_lwa_and_barotropic_fluxes, "fluxes without a reference wind")
    raises(ValueError, run.o.compute_layerwise_lwa_fluxes, "layerwise fluxes without a reference wind")
    run.o.compute_lwa_only()
    big = compare(run, run.o.lwa, run.o.lwa_baro, "compute_lwa_only")
    storage(run, "compute_lwa_only")
    full = Run(case, nh_only=case["nh"], data=run.b)
    full.interp()
    full.o.compute_reference_states()
    if not full.o.nonconvergent_uref:
        full.o.compute_lwa_and_barotropic_fluxes()
        near(run.o.lwa, full.o.lwa, 2 * lwa_tol(run), "lwa with and without a reference wind")
    return ["nh only" if case["nh"] else "global"] if big > 0 else None


def strat(**kw):
    return st.builds(lambda c, nh: {**c, "nh": nh}, gen.qg_case(**kw), st.booleans())


RULE = "stable mean profile, solved reference state and wave activity that is not identically zero"
LAWS = [
    Law("methods", strat(), methods, 500, 8000, 5, RULE),
    Law("stopped", strat(cls=("NH18",)), stopped, 250, 4000, 2, RULE.replace("solved", "unsolved")),
]
