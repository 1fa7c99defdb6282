"""C13: reflection at the equator."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, near, relscale
from lib.meta import ALL, INTERP, REF, analyse, compare, separated
from lib.qg import Run

ASSUMPTIONS = ["statically stable hemispheric mean profiles, solved reference states, no PV value on a bin edge"]


def mirrored(b):
    m = dict(b)
    m["u"] = b["u"][:, ::-1].copy()
    m["v"] = -b["v"][:, ::-1]
    m["t"] = b["t"][:, ::-1].copy()
    m["theta"] = b["theta"][:, ::-1].copy()
    return m


def reflect(out):
    r = {}
    for k, (ax, sign, _) in ALL.items():
        r[k] = sign * np.flip(out[k], axis=ax)
    # the neighbours of a row change places
    r["ep2"], r["ep3"] = r["ep3"], r["ep2"]
    s = out["static_stability"]
    r["static_stability"] = s[::-1] if s.ndim == 2 else s
    return r


def reflection(case):
    b = gen.build(case)
    run = Run(case, data=b)
    out = analyse(run)
    if out is None or not separated(run):
        return None
    other = Run(case, data=mirrored(b))
    ncf = None
    got = analyse(other)
    if got is None:
        return None
    want = reflect(out)
    n = run.nlat // 2

    def rows(k):
        if run.jb or k in INTERP or k in ("u_baro", "qref"):
            return slice(None)
        # without a boundary row the equator belongs to both hemispheres: not compared, nor what is taken from it
        w = 1 if k in ("ep2", "ep3", "divergence_eddy_momentum_flux") else 0
        return np.r_[0:n - w, n + 1 + w:run.nlat]
    compare(run, want, got, "the mirrored atmosphere", rows=rows)
    near(got["static_stability"], want["static_stability"], 1e-7 * relscale(want["static_stability"]),
         "static stability of the mirrored atmosphere")
    return [case["cls"], f"boundary row {run.jb}"]


def forcing(case):
    """With a forcing q of opposite sign in the mirrored atmosphere the forcing term is the mirrored one."""
    b = gen.build(case)
    r = np.random.default_rng(case["seed"] + 5)
    run = Run(case, data=b)
    run.interp()
    f = 1e-10 * r.normal(size=run.t.QGPV.shape)
    out = analyse(run, f)
    if out is None or not separated(run):
        return None
    other = Run(case, data=mirrored(b))
    got = analyse(other, -f[:, ::-1])
    if got is None:
        return None
    n = run.nlat // 2
    x, y = got["ncforce_baro"], out["ncforce_baro"][::-1]
    live = np.r_[0:n, n + 1:run.nlat] if run.jb == 0 else slice(None)
    # points whose PV equals Qref up to rounding (and up to the difference of the two Qref) may belong to either side
    amb = np.zeros((run.nlat, run.nlon))
    for h in (1, -1):
        q, pv = run.F(run.o.qref, h) * h, run.F(run.t.QGPV, h) * h
        dq = np.nan_to_num(np.abs(run.F(run.o.qref, h) + run.F(other.o.qref[:, ::-1], h)))
        for j in range(run.nd):
            n = (np.abs(pv - q[:, j][:, None, None]) < 3e-6 * relscale(pv) + 2 * dq[:, j][:, None, None]
                 )[1:-1].sum(axis=(0, 1))
            i = (run.nlat // 2) + h * j
            amb[i] = np.maximum(amb[i], n)
    amb = amb[::-1]
    near(x[live], y[live], ((1e-5 * run.nd + amb) * relscale(f) * run.a * run.dp * 1.5)[live], "forcing term of the mirrored atmosphere")
    return [case["cls"], "exact" if not amb.any() else "with points on contours"]


RULE = "stable mean profile, solved reference states and no PV value on a bin edge"
LAWS = [
    Law("reflection", gen.qg_case(), reflection, 400, 6000, 5, RULE),
    Law("forcing", gen.qg_case(), forcing, 120, 2000, 2, RULE),
]
