"""C22: the native kernels stay inside their arrays and use only values that were set."""
import contextlib
import ctypes

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, relscale
from lib.meta import BARO, INTERP, LAYER, REF, ok
from lib.qg import Run

ASSUMPTIONS = ["grids of at least 5 latitudes, 2 longitudes and 4 heights",
               "the instrumented builds (-fcheck=all, -finit-real=nan) compile the same source as the package"]

libc, M_PERTURB, FILL = ctypes.CDLL(None), -6, 0xBF   # as in lib/worker.py
OUT = {"interp": INTERP, "ref": REF, "flux": BARO, "layer": LAYER}


def forcing(case, run):
    if not case["forced"]:
        return None
    return np.random.default_rng(case["seed"] + 9).normal(size=(run.K, run.nlat, run.nlon))


def chain(case, run, order):
    """Run the steps; outputs so far. ValueError is the documented refusal of an unusable problem."""
    o = run.o
    out, reached = {}, []
    f = forcing(case, run)
    steps = {"interp": lambda: o.interpolate_fields(), "ref": lambda: o.compute_reference_states(),
             "flux": lambda: o.compute_lwa_and_barotropic_fluxes(ncforce=f), "lwa": lambda: o.compute_lwa_only(),
             "layer": lambda: o.compute_layerwise_lwa_fluxes(ncforce=f)}
    for s in ("interp", "ref", *order):
        try:
            steps[s]()
        except ValueError:
            break
        reached.append(s)
        for k in OUT.get(s, ("lwa", "lwa_baro", "u_baro")):
            out[s + "." + k] = np.array(getattr(o, k))
        if s == "ref" and o.nonconvergent_uref:
            break
    return out, reached


def bounds(case):
    run = Run(case, nh_only=case["nh"], **extra(case))
    out, reached = chain(case, run, case["order"])
    if "ref" not in reached:
        return None
    return [case["cls"], "+".join(reached[2:]) or "unsolved", "even" if case["nlat"] % 2 == 0 else "odd"]


def extra(case):
    if case["cls"] == "NHN22" and case["deep"] is not None:
        return dict(eq_boundary_index=case["deep"] % max(1, (case["nlat"] + 1) // 2 - 3))
    if case["cls"] == "NH18":
        return dict(maxit=case["maxit"])
    return {}


def initialised(case):
    """Local reals start as NaN: whatever is computed from a value that was never set is not finite."""
    run = Run(case, nh_only=case["nh"], **extra(case))
    run.interp()
    if not ok(run):
        return None
    out, reached = chain(case, run, case["order"])
    for k, x in out.items():
        check(np.isfinite(x).all(), f"{k} is not finite where nothing but local variables start as NaN")
    if len(reached) < 3:
        return None
    return [case["cls"], "+".join(reached[2:])]


@contextlib.contextmanager
def fresh_memory(byte):
    """Every byte the C library hands out or takes back is set to this value (its complement)."""
    libc.mallopt(M_PERTURB, byte)
    try:
        yield
    finally:
        libc.mallopt(M_PERTURB, FILL)


def repeatable(case):
    """A second object gives the same results (to single precision) in a heap full of other values."""
    res = []
    r = np.random.default_rng(case["seed"] + 5)
    for i in range(2):
        with fresh_memory(int(r.integers(0x38, 0x48)) ^ (0x80 * i)):
            run = Run(case, nh_only=case["nh"], **extra(case))
            out, reached = chain(case, run, case["order"])
            if "layer" in reached:
                out["layer.ncforce"] = np.array(run.o.layerwise_flux_terms_storage.ncforce)
        res.append(out)
        shapes = {x.shape for x in out.values()} | {(run.nlon, run.nlat, run.K), (run.nd, run.K), (run.nlon, run.nd)}
        junk = [r.normal(size=s) * 1e6 for s in shapes for _ in range(3)]
        junk += [x.astype(np.float32) for x in junk]
        del junk, run
    check(set(res[0]) == set(res[1]), "steps reached differ between two identical runs")
    for k, x in res[0].items():
        y = res[1][k]
        fin = np.isfinite(x)
        check(np.array_equal(x[~fin], y[~fin], equal_nan=True), f"non-finite values of {k} differ between two identical runs")
        near(y[fin], x[fin], 1e-6 * relscale(x[fin]), f"{k} of two identical runs")
    if len(reached) < 3:
        return None
    return [case["cls"], "+".join(reached[2:])]


def strat(nlats=(5, 7, 9, 11, 13, 15, 17, 21, 25), nlons=(2, 14), kmaxs=(4, 9)):
    add = st.fixed_dictionaries(dict(nh=st.booleans(), forced=st.booleans(),
                                     deep=st.one_of(st.none(), st.integers(0, 20)),
                                     maxit=st.sampled_from([20000, 20000, 20000, 1, 7]),
                                     order=st.lists(st.sampled_from(["flux", "lwa", "layer"]), min_size=1, max_size=3,
                                                    unique=True)))
    base = st.one_of(gen.qg_case(nlats=nlats, nlons=nlons, kmaxs=kmaxs), gen.qg_case(nlats=nlats, nlons=nlons, kmaxs=kmaxs),
                     gen.qg_case(nlats=nlats, nlons=nlons, kmaxs=kmaxs, even=True))
    return st.builds(lambda c, x: {**c, **x}, base, add)


LAWS = [
    Law("bounds", strat(), bounds, 900, 12000, 4, "the reference state step was reached", fcheck="-fcheck=all"),
    Law("initialised", strat(), initialised, 400, 6000, 2, "stable mean profile; wave activity was reached",
        fcheck="-fcheck=all,-finit-real=nan"),
    Law("repeatable", strat(), repeatable, 400, 6000, 2, "wave activity was reached"),
]
