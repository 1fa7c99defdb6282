"""Whole-analysis runs and comparison of two related runs (metamorphic checks)."""
import numpy as np

from lib import gen, model
from lib.common import check, near, relscale
from lib.qg import Run, bc_nhn22, resolvable

# output -> (latitude axis, sign under reflection at the equator, depends on longitude)
INTERP = dict(qgpv=(1, -1, True), interpolated_u=(1, 1, True), interpolated_v=(1, -1, True),
              interpolated_theta=(1, 1, True))
REF = dict(qref=(1, -1, False), uref=(1, 1, False), ptref=(1, 1, False))
BARO = dict(adv_flux_f1=(0, 1, True), adv_flux_f2=(0, 1, True), adv_flux_f3=(0, 1, True),
            convergence_zonal_advective_flux=(0, 1, True), divergence_eddy_momentum_flux=(0, 1, True),
            meridional_heat_flux=(0, 1, True), flux_vector_lambda_baro=(0, 1, True),
            flux_vector_phi_baro=(0, -1, True), lwa_baro=(0, 1, True), u_baro=(0, 1, True), ncforce_baro=(0, 1, True))
LAYER = dict(lwa=(1, 1, True), ua1=(1, 1, True), ua2=(1, 1, True), ep1=(1, 1, True), ep2=(1, -1, True),
             ep3=(1, -1, True), stretch_term=(1, 1, True))
ALL = {**INTERP, **REF, **BARO, **LAYER}
# Tolerances of equivalent analyses, in units of magnitudes(): (rounding in single precision, amplification of a
# difference of Qref).  Measured on 10^4 pairs of analyses; ten and three times the largest value seen.
TOL = dict(qgpv=(5e-6, 0), interpolated_u=(1e-9, 0), interpolated_v=(1e-9, 0), interpolated_theta=(1e-9, 0),
           qref=(2e-6, 0), uref=(1e-4, 1000), ptref=(5e-6, 20), adv_flux_f1=(1e-6, 1.5), adv_flux_f2=(1e-6, 1.5),
           adv_flux_f3=(3e-5, 100), convergence_zonal_advective_flux=(2e-7, .4),
           divergence_eddy_momentum_flux=(1e-5, 20), meridional_heat_flux=(1e-8, .05),
           flux_vector_lambda_baro=(3e-6, 6), flux_vector_phi_baro=(1.5e-5, 30), lwa_baro=(5e-7, 1),
           u_baro=(1e-6, 0), ncforce_baro=(1e-6, 1), lwa=(5e-7, 1.5), ua1=(1e-6, 2.5), ua2=(1e-6, 2.5),
           ep1=(7e-5, 200), ep2=(5e-5, 100), ep3=(5e-5, 100), stretch_term=(2e-8, .06))


def ok(run):
    t0s, t0n, ss, sn = run.profiles()
    return min(ss.min(), sn.min()) > 1e-3


def analyse(run, ncforce=None):
    """All public outputs of a run; None when the case is not judged (unstable mean, no solution)."""
    o = run.o
    if not hasattr(run, "t"):
        run.interp()
    if not ok(run):
        return None
    o.compute_reference_states(return_named_tuple=False)
    if o.nonconvergent_uref:
        return None
    o.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=ncforce)
    out = {k: np.array(getattr(o, k)) for k in {**INTERP, **REF, **BARO}}
    o.compute_layerwise_lwa_fluxes(ncforce=ncforce)
    out.update({k: np.array(getattr(o, k)) for k in LAYER})
    s = o.static_stability
    out["static_stability"] = np.array(s)
    return out


def binwidth(run):
    """Largest uncertainty of Qref due to points on bin edges, in units of the PV range of the level."""
    w = 0.
    for h in run.hemis():
        for k in range(1, run.K - 1):
            lo, hi, dq = run.qref_interval(h, k)
            w = max(w, float((hi - lo).max()) / (dq * (run.nbin() - 1)))
    return w


def separated(run):
    """PV varies on every level and hardly any PV value lies on a bin edge (there, rounding decides)."""
    if not resolvable(run):
        return False
    run.bw = binwidth(run)
    if run.bw > 2e-3:
        return False
    for h in run.hemis():
        if run.cls == "NHN22":
            if bc_nhn22(run, h)[1].max() > 5e-4:
                return False
        else:
            pv = run.pv_global(h)
            if max(model.circulation_tol(pv[k], run.area(), run.nbin(), 2 * np.pi * run.a ** 2) for k in range(1, run.K - 1)) > 5e-4 * 6.28 * run.a:
                return False
    return True


def change(a, b, pv):
    """Relative difference of two Qref."""
    return relscale(a - b) / max(relscale(a, pv), 1e-30)


def growth(run):
    """Growth of the error of the solved reference wind with the number of rows (condition of the elliptic problem)
    and, for the iteration that stops on the sum of the residuals, with the number of points; 1 on small grids."""
    return max(1., 2e-3 * run.nd ** 2) * (max(1., run.nd * run.K / 200.) if run.cls == "NH18" else 1.)


def tolerance(run, out, dq=0., mag=None):
    """Tolerance of each output of two equivalent analyses whose Qref differs by dq."""
    mag = mag or magnitudes(run, out)
    g = growth(run)
    return {k: (r * (g if s else 1.) + (2.2 * getattr(run, "bw", 0.) if k == "qref" else s * dq)) * mag[k] + 1e-30
            for k, (r, s) in TOL.items()}


def magnitudes(run, out):
    """Typical largest ingredients of each output."""
    q = relscale(out["qgpv"])
    u = relscale(out["interpolated_u"]) + relscale(out["uref"])
    v = relscale(out["interpolated_v"]) + 1e-6
    act = q * run.a * np.pi / 2
    th = relscale(out["interpolated_theta"])
    tm = run.theta_mean()
    sm = max(min(np.diff(x).min() for x in tm.values()) / run.dz, 1e-6)
    e = 1e-3 * th
    for h in run.hemis():
        n = run.nd if out["ptref"].shape[1] >= run.nd else out["ptref"].shape[1]
        tt = out["interpolated_theta"][:, -n:] if h > 0 else out["interpolated_theta"][:, :n]
        pt = out["ptref"][:, -n:] if h > 0 else out["ptref"][:, :n]
        d = np.abs(tt - pt[:, :, None])
        d = d[:, run.jb + 1:] if h > 0 else d[:, :n - run.jb - 1]
        e = max(e, relscale(d))
    zonal = u * act + u * u + v * v + run.R / run.H * e * e / sm
    ep1 = u * u + v * v + run.R / run.H * e * e / sm
    d = np.deg2rad(180. / (run.nlat - 1))
    cmin = np.sin(d / 2)
    heat = 2 * run.om * v * e / sm
    m = dict(qgpv=q, interpolated_u=u, interpolated_v=v, interpolated_theta=th, qref=q, uref=u, ptref=th,
             adv_flux_f1=u * act, adv_flux_f2=u * act, adv_flux_f3=ep1,
             convergence_zonal_advective_flux=zonal / (run.a * cmin * 2 * np.pi / run.nlon),
             divergence_eddy_momentum_flux=u * v / (run.a * d), meridional_heat_flux=heat,
             flux_vector_lambda_baro=zonal, flux_vector_phi_baro=u * v, lwa_baro=act, u_baro=u, ncforce_baro=act,
             lwa=act, ua1=u * act, ua2=u * act, ep1=ep1, ep2=u * v, ep3=u * v, stretch_term=heat / run.dz * run.H,
             static_stability=relscale(out["static_stability"]))
    return m


def compare(run, a, b, what, keys=None, rows=None):
    """Compare outputs a and b (dicts) of equivalent problems; rows: slice along latitude per key."""
    tol = tolerance(run, a, change(a["qref"], b["qref"], a["qgpv"]))
    for k in (keys or ALL):
        ax = ALL[k][0]
        x, y = np.moveaxis(a[k], ax, 0), np.moveaxis(b[k], ax, 0)
        check(x.shape == y.shape, f"{k} of {what}: shape {x.shape} against {y.shape}")
        s = rows(k) if rows else slice(None)
        near(y[s], x[s], tol[k], f"{k} of {what}")
