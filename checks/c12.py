"""C12: barotropic (column averaged) outputs."""
import numpy as np
from hypothesis import strategies as st

from checks.c11 import ok, scales, terms
from lib import gen, model
from lib.common import Law, check, near, relscale
from lib.qg import Run

ASSUMPTIONS = ["statically stable hemispheric mean profiles; solved reference states; grids with the equator"]
TUPLE = ("adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux",
         "divergence_eddy_momentum_flux", "meridional_heat_flux", "lwa_baro", "u_baro", "lwa")


def columns(case):
    run = Run(case, nh_only=case["nh"])
    run.interp()
    if not ok(run):
        return None
    o = run.o
    o.compute_reference_states()
    if o.nonconvergent_uref:
        return None
    r = o.compute_lwa_and_barotropic_fluxes()
    rows = run.nd if case["nh"] else run.nlat
    for k in TUPLE[:8]:
        check(getattr(o, k).shape == (rows, run.nlon), f"shape of {k}: {getattr(o, k).shape}")
    check(r._fields == TUPLE, f"fields of the named tuple: {r._fields}")
    for k in TUPLE:
        near(getattr(r, k), getattr(o, k), 0, f"named tuple {k}")
    near(o.prefactor, model.prefactor(run.K, run.dz, run.H), 1e-9 * o.prefactor, "prefactor")
    tol = scales(run)
    col = lambda x: model.column(x, run.dz, run.H)
    sphi = {1: run.sin, -1: -run.sin}
    for h in run.hemis():
        n = "north" if h > 0 else "south"
        i = run.shared(h) if run.jb == 0 else 0
        w = terms(run, h)
        G = lambda x: run.F(x, h, axis=0)
        for name, k in (("adv_flux_f1", "ua1"), ("adv_flux_f2", "ua2"), ("adv_flux_f3", "ep1")):
            near(G(getattr(o, name))[i:], col(w[k])[i:], 1.5 * tol[k], f"{name} ({n})")
        # poleward and equatorward neighbours in geographic order
        c = np.where(run.cos > 0, run.cos, np.inf)
        div = (col(w["ep2"]) - col(w["ep3"])) / (2 * run.a * run.dp * c)[:, None]
        t = 3 * tol["ep2"] / (2 * run.a * run.dp * c)[:, None] * np.ones((1, run.nlon))
        j = i + 1 if i else i
        near(G(o.divergence_eddy_momentum_flux)[j:], div[j:], t[j:] + 1e-30, f"divergence_eddy_momentum_flux ({n})")
        th_err = 4e-7 * relscale(run.t.Theta)
        e = relscale((run.F(run.t.Theta, h) - run.F(o.ptref, h)[:, :, None])[:2, run.jb:])
        tg = run.theta_mean()[h]
        dt = min(tg[1] - tg[0], tg[2] - tg[0])
        ht = 2 * run.om * run.dz / o.prefactor * relscale(run.t.V[:2]) * (th_err + 3e-6 * e + e * th_err / dt) * 2 / dt
        near(G(o.meridional_heat_flux)[i:], w["ep4"][i:], ht + 1e-30, f"meridional_heat_flux ({n})")
        near(G(o.lwa_baro)[i:], col(w["astar1"] + w["astar2"])[i:], tol["astar1"], f"lwa_baro ({n})")
        u = run.F(run.t.U, h)
        near(G(o.u_baro), col(u), 1e-6 * relscale(u), f"u_baro ({n})")
        v = run.F(run.t.V, h)
        phi_flux = -col((u - run.F(o.uref, h)[:, :, None]) * v * run.cos[None, :, None])
        near(G(o.flux_vector_phi_baro), phi_flux, 1e-9 * relscale(phi_flux) + 1e-9, f"flux_vector_phi_baro ({n})")
    # relations between outputs
    f = o.adv_flux_f1 + o.adv_flux_f2 + o.adv_flux_f3
    near(o.flux_vector_lambda_baro, f, 1e-9 * (relscale(o.adv_flux_f1, o.adv_flux_f2, o.adv_flux_f3) + 1e-30),
         "flux_vector_lambda_baro is not F1 + F2 + F3")
    lat = np.linspace(0 if case["nh"] else -90, 90, rows)
    c = np.abs(np.cos(np.deg2rad(lat)))[:, None]
    live = c > 1e-5
    dl = 2 * np.pi / run.nlon
    with np.errstate(all="ignore"):
        conv = np.where(live, -(np.roll(f, -1, 1) - np.roll(f, 1, 1)) / (2 * dl * run.a * c), 0.)
    s = relscale(f) / (run.a * dl * c[live].min())
    near(o.convergence_zonal_advective_flux, conv, 1e-9 * s + 1e-30, "convergence_zonal_advective_flux")
    near(o.convergence_zonal_advective_flux.sum(axis=1), np.zeros(rows), 1e-9 * s * run.nlon + 1e-30,
         "zonal mean of the convergence of the zonal flux")
    near(o.ncforce_baro, np.zeros((rows, run.nlon)), 0, "ncforce_baro without forcing")
    return [case["cls"], "nh only" if case["nh"] else "global", f"boundary row {run.jb}"]


def layers(case):
    """The column averages are those of the layerwise terms of the same object."""
    run = Run(case, nh_only=case["nh"])
    run.interp()
    if not ok(run):
        return None
    o = run.o
    o.compute_reference_states()
    if o.nonconvergent_uref:
        return None
    if case["seed"] % 2:
        o.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
        o.compute_layerwise_lwa_fluxes()
    else:
        o.compute_layerwise_lwa_fluxes()
        o.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
    col = lambda x: model.column(np.asarray(x), run.dz, run.H)
    for name, k in (("adv_flux_f1", "ua1"), ("adv_flux_f2", "ua2"), ("adv_flux_f3", "ep1"), ("lwa_baro", "lwa")):
        x = getattr(o, k)
        near(getattr(o, name), col(x), 1e-6 * relscale(x) + 1e-30, f"{name} against the column average of {k}")
    c = np.abs(np.cos(np.linspace(0 if case["nh"] else -np.pi / 2, np.pi / 2, o.u_baro.shape[0])))
    d = (col(o.ep2) - col(o.ep3)) / (2 * run.a * run.dp * np.where(c > 1e-9, c, np.inf))[:, None]
    t = 1e-6 * relscale(o.ep2, o.ep3) / (2 * run.a * run.dp * np.where(c > 1e-9, c, 1e-9))[:, None]
    near(o.divergence_eddy_momentum_flux, d, t * np.ones((1, run.nlon)) + 1e-30,
         "divergence_eddy_momentum_flux against the layerwise momentum fluxes")
    return [case["cls"], "nh only" if case["nh"] else "global"]


def strat(**kw):
    return st.builds(lambda c, nh: {**c, "nh": nh}, gen.qg_case(**kw), st.booleans())


RULE = "stable mean profile and solved reference state"
LAWS = [
    Law("columns", strat(), columns, 500, 8000, 4, RULE),
    Law("layers", strat(), layers, 250, 4000, 3, RULE),
]
