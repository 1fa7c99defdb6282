"""C23: the analysis does not depend on the units of length and time.

(The unit of temperature is fixed: the hemispheric mean profile is a smoothing spline with a tolerance of 1 K rms.)
"""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, relscale
from lib.meta import BARO, INTERP, LAYER, REF, ok
from lib.qg import Run

ASSUMPTIONS = ["units changed by powers of two, so that rounding is the same in both systems; solved reference states"]

# dimensions (length, time, temperature)
DIM = dict(qgpv=(0, -1, 0), interpolated_u=(1, -1, 0), interpolated_v=(1, -1, 0), interpolated_theta=(0, 0, 1),
           qref=(0, -1, 0), uref=(1, -1, 0), ptref=(0, 0, 1), static_stability=(-1, 0, 1),
           lwa=(1, -1, 0), lwa_baro=(1, -1, 0), u_baro=(1, -1, 0),
           adv_flux_f1=(2, -2, 0), adv_flux_f2=(2, -2, 0), adv_flux_f3=(2, -2, 0),
           convergence_zonal_advective_flux=(1, -2, 0), divergence_eddy_momentum_flux=(1, -2, 0),
           meridional_heat_flux=(1, -2, 0), flux_vector_lambda_baro=(2, -2, 0), flux_vector_phi_baro=(2, -2, 0),
           ncforce_baro=(1, -2, 0),
           ua1=(2, -2, 0), ua2=(2, -2, 0), ep1=(2, -2, 0), ep2=(2, -2, 0), ep3=(2, -2, 0), stretch_term=(1, -2, 0))
CONST = dict(omega=(0, -1, 0), planet_radius=(1, 0, 0), scale_height=(1, 0, 0), cp=(2, -2, -1),
             dry_gas_constant=(2, -2, -1))


def factor(dim, s):
    return 2.0 ** sum(d * k for d, k in zip(dim, s))


def outputs(run, f):
    o = run.o
    o.compute_reference_states()
    if o.nonconvergent_uref:
        return None
    out = {k: np.array(getattr(o, k)) for k in (*INTERP, *REF)}
    out["static_stability"] = np.array(o.static_stability)
    o.compute_lwa_and_barotropic_fluxes(ncforce=f)
    out.update({k: np.array(getattr(o, k)) for k in BARO})
    o.compute_layerwise_lwa_fluxes(ncforce=f)
    out.update({k: np.array(getattr(o, k)) for k in LAYER})
    return out


def units(case):
    s = case["length"], case["time"], case["temp"]
    b = gen.build(case)
    run = Run(case, data=b, nh_only=case["nh"])
    run.interp()
    if not ok(run):
        return None
    f = np.random.default_rng(case["seed"] + 9).normal(size=(run.K, run.nlat, run.nlon)) * 1e-5 if case["forced"] else None
    base = outputs(run, f)
    if base is None:
        return None
    kw = dict(b["kw"])
    for k, d in CONST.items():
        kw[k] = kw[k] * factor(d, s)
    kw["dz"] = kw["dz"] * factor((1, 0, 0), s)
    wind = factor((1, -1, 0), s)
    c = {k: kw[k] for k in CONST}
    b2 = dict(b, u=b["u"] * wind, v=b["v"] * wind, t=b["t"] * factor((0, 0, 1), s), kw=kw, c=c)
    run2 = Run({**case, "dz": kw["dz"]}, data=b2, nh_only=case["nh"])
    run2.interp()
    got = outputs(run2, None if f is None else f * factor((0, -2, 0), s))
    check(got is not None, "the solution does not converge in other units")
    for k, x in base.items():
        near(got[k] / factor(DIM[k], s), x, 1e-6 * relscale(x), f"{k} in units scaled by 2^{s}")
    return [case["cls"], "even" if case["nlat"] % 2 == 0 else "odd"] + (["forced"] if case["forced"] else [])


def strat():
    e = st.integers(-5, 5)
    add = st.fixed_dictionaries(dict(nh=st.booleans(), forced=st.booleans(), length=e, time=e, temp=st.just(0)))
    return st.builds(lambda c, x: {**c, **x}, st.one_of(gen.qg_case(), gen.qg_case(even=True)), add)


LAWS = [Law("units", strat(), units, 500, 8000, 7, "stable mean profile, solved reference states")]
