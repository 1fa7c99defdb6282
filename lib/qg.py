"""Helpers of the QG checks: hemispheric views, stage oracles with tolerances."""
import numpy as np

from lib import gen, model
from lib.common import Violation, check, near, relscale

EPS = 6e-8          # single precision
AMB = 2e-5          # distance (in bin widths) below which the bin of a point depends on rounding
AREA_RTOL = 2e-5


class Run:
    """A QGField object with its inputs and geometry."""

    def __init__(self, case, cls=None, nh_only=False, data=None, **over):
        self.case = case
        self.cls = cls or case["cls"]
        self.b = data if data is not None else gen.build(case)
        self.c = self.b["c"]
        self.nh_only = nh_only
        self.o = gen.make(case, self.b, cls=self.cls, nh_only=nh_only, **over)
        o = self.o
        self.a, self.om, self.H = self.c["planet_radius"], self.c["omega"], self.c["scale_height"]
        self.R, self.cp = self.c["dry_gas_constant"], self.c["cp"]
        self.K, self.nlon = o.kmax, case["nlon"]
        self.dz = case["dz"]
        n = len(self.b["ylat"])
        self.nlat = n + 1 - n % 2            # analysis grid
        self.nd = self.nlat // 2 + 1
        self.jb = over.get("eq_boundary_index", gen.jb_of(case)) if self.cls == "NHN22" else 0
        self.phi = np.linspace(0, np.pi / 2, self.nd)
        self.dp = np.pi / 2 / (self.nd - 1)
        self.cos = np.cos(self.phi)
        self.cos[-1] = 0.
        self.sin = np.sin(self.phi)

    def interp(self):
        self.t = self.o.interpolate_fields()
        return self.t

    def profiles(self):
        if not hasattr(self, "_prof"):
            odd = gen.odd_data(self.b)
            self._prof = model.hemispheric_profiles(odd["theta"], odd["z"],
                                                    self.dz * np.arange(self.K) if not self.case["uniform"] else self.b["z"],
                                                    odd["ylat"], self.nd - self.jb)
        return self._prof

    def hemis(self):
        """Hemispheres to check: +1 north, -1 south."""
        return (1,) if self.nh_only else (1, -1)

    def F(self, x, h, axis=1):
        """Rows from the equator to the pole of hemisphere h (global or already northern array)."""
        x = np.moveaxis(np.asarray(x), axis, 0)
        if x.shape[0] == self.nd:
            if h < 0:
                raise AssertionError("no Southern Hemisphere rows")
        else:
            x = x[-self.nd:] if h > 0 else x[:self.nd][::-1]
        return np.moveaxis(x, 0, axis)

    def shared(self, h):
        """First row (from the equator) where a reference state of hemisphere h can be observed."""
        return 1 if (h > 0 and not self.nh_only and self.jb == 0) else self.jb

    def nbin(self):
        return self.o.npart if self.cls == "NH18" else self.nlat

    def theta_mean(self):
        """Hemispheric mean theta used by each hemisphere's fluxes: dict h -> profile."""
        t0s, t0n, ss, sn = self.profiles()
        if self.cls == "NH18":
            m = 0.5 * (t0s + t0n)
            return {1: m, -1: m}
        return {1: t0n, -1: t0s}

    def stability(self):
        t0s, t0n, ss, sn = self.profiles()
        if self.cls == "NH18":
            m = 0.5 * (ss + sn)
            return {1: m, -1: m}
        return {1: sn, -1: ss}

    def pv_global(self, h):
        """PV on the globe seen from hemisphere h."""
        return self.t.QGPV if h > 0 else -self.t.QGPV[:, ::-1]

    def area(self):
        return model.cell_area(self.nlat, self.nlon, self.a)

    def qref_interval(self, h, k, exact=False):
        return model.box_count(self.pv_global(h)[k], self.area(), self.nbin(),
                               model.cap_area(self.nd, self.a)[:-1], AMB, AREA_RTOL, exact=exact)

    def qn(self, q):
        """Qref/sin(phi) as the inversion uses it, from the public Qref of one hemisphere (K, nd)."""
        x = np.zeros((self.nd, self.K))
        x[1:] = (q[:, 1:] / self.sin[1:]).T
        x[0] = 2 * x[1] - x[2]
        return x


def resolvable(run):
    """False when a bin has hardly any resolution in single precision (e.g. uniform PV)."""
    for k in range(1, run.K - 1):
        p = run.t.QGPV[k]
        if not (p.max() - p.min()) > 1e-3 * np.abs(p).max():
            return False
    return True


def same(got, want, rtol, what, atol=0.):
    near(got, want, rtol * max(relscale(got) if np.isfinite(np.asarray(got)).all() else 0., relscale(want)) + atol, what)


# ------------------------------------------------------------------ reference-state oracles

def qref_check(run, st=None):
    """Qref of every hemisphere is the box-counting rearrangement of its PV (either end convention of the table)."""
    qpub = run.o.qref
    amb = 0
    for h in run.hemis():
        q = run.F(qpub, h) * h
        pv = run.pv_global(h)
        name = "north" if h > 0 else "south"
        near(q[[0, -1]], np.zeros((2, run.nd)), 0, f"Qref ({name}) at the lowest and highest level")
        near(q[:, 0], np.zeros(run.K), 1e-12 * relscale(pv), f"Qref ({name}) at the equator")
        errs = []
        for exact in (False, True):
            try:
                for k in range(1, run.K - 1):
                    lo, hi, dq = run.qref_interval(h, k, exact)
                    amb += int(((hi - lo) > 0.02 * dq).sum())
                    t = 1e-6 * relscale(pv[k])
                    g = q[k, 1:-1]
                    near(np.clip(g, lo[1:], hi[1:]), g, t, f"Qref ({name}, level {k}) against box counting")
                errs = []
                break
            except Violation as e:
                errs.append(e)
        if errs:
            raise errs[0]
        for k in range(1, run.K - 1):
            s = relscale(pv[k])
            dq = (pv[k].max() - pv[k].min()) / (run.nbin() - 1)
            near(q[k, -1], pv[k].max(), 1e-6 * s, f"Qref ({name}, level {k}) at the pole")
            check((np.diff(q[k, 1:]) >= -1e-6 * s).all(), f"Qref ({name}, level {k}) is not monotonic with latitude")
            check(q[k, 1:].min() >= pv[k].min() - 1e-6 * s, f"Qref ({name}, level {k}) leaves the range of the PV")
            # definition, free of the binning: the area above Qref is the polar cap to within two bins and the
            # area of the bin of the largest values (which the cumulative table starts after)
            area = run.area()
            first = area[pv[k] > pv[k].max() - 1.001 * dq].sum()
            cap = model.cap_area(run.nd, run.a)
            tot = area.sum()
            for j in range(1, run.nd - 1):
                above = area[pv[k] > q[k, j] + dq * 1.001].sum()
                upto = area[pv[k] >= q[k, j] - dq * 2.001].sum()
                check(above <= cap[j] + first + 1e-4 * tot,
                      lambda: f"Qref ({name}, level {k}, row {j}): area with larger PV exceeds the polar cap")
                check(upto >= cap[j] - 1e-4 * tot,
                      lambda: f"Qref ({name}, level {k}, row {j}): area with larger PV falls short of the polar cap")
    return amb


def uref_nh18(run, h, q):
    """Uref of NH18 for the package's own Qref: direct solution of the elliptic equation, (nd, K), and the slack of
    its boundary value due to points on bin edges."""
    K, nd, a, dp = run.K, run.nd, run.a, run.dp
    pv = run.pv_global(h)
    ub = run.F(run.t.U, h).mean(axis=-1)
    tb = run.F(run.t.Theta, h).mean(axis=-1)
    pvn = pv[:, -nd:]
    bc, slack = np.zeros(K), 0.
    ch = np.cos((np.arange(nd - 1) + .5) * dp)
    for k in range(1, K - 1):
        cref = model.circulation(pv[k], run.area(), run.nbin(), 2 * np.pi * a * a)
        qb = pvn[k].mean(axis=-1)
        cbar = (0.5 * (qb[1:] + qb[:-1]) * a * dp * 2 * np.pi * a * ch).sum()
        bc[k] = ub[k, 0] + (cref - cbar) / (2 * np.pi * a)
        slack = max(slack, model.circulation_tol(pv[k], run.area(), run.nbin(), 2 * np.pi * a * a) / (2 * np.pi * a))
    k = K - 2
    top = np.zeros(nd)
    top[1:-1] = -(run.dz * run.R * run.cos[1:-1] * np.exp(-run.dz * k * run.R / run.cp / run.H)
                  * (tb[k, 2:] - tb[k, :-2]) / (2 * run.om * run.sin[1:-1] * dp * run.H * a))
    x = model.solve_uref(nd, 0, K, run.dz, run.stability()[h], a, run.om, run.H, run.R, run.cp, run.qn(q), bc, top)
    u = x / np.where(run.cos > 0, run.cos, 1.)[:, None]
    u[0] = ub[:, 0]
    u[-1] = 2 * u[-2] - u[-3]
    return u, slack


def thermal_slack(run, h):
    """Bound (K, nd) on what rounding of the zonal mean of theta (a sum over longitude in single precision) changes
    in Uref through the thermal-wind condition at the top."""
    K, nd, jb = run.K, run.nd, run.jb
    top = 2 if run.cls == "NH18" else 1
    k = K - 2 if run.cls == "NH18" else K - 1
    tb = np.abs(run.F(run.t.Theta, h)[k]).max()
    e = np.zeros(nd)
    e[1:-1] = (run.dz * run.R * run.cos[1:-1] * np.exp(-run.dz * (K - 2) * run.R / run.cp / run.H)
               / ((2 if top == 2 else 4) * run.om * run.sin[1:-1] * run.dp * run.H * run.a)
               * 2 * tb * EPS * (1 + run.nlon ** 0.5))
    x = model.solve_uref(nd, jb, K, run.dz, run.stability()[h], run.a, run.om, run.H, run.R, run.cp,
                         np.zeros((nd, K)), np.zeros(K), e, top=top)
    x = np.abs(x) / np.where(run.cos > 0, run.cos, 1.)[:, None]
    x[-1] = 2 * x[-2] + x[-3]
    return x.T


def rounding_floor(run, h, q):
    """Residual of the exact solution in single precision, in units of the tolerance of the NH18 iteration."""
    x = np.abs(uref_nh18(run, h, q)[0] * run.cos[:, None])
    A, B, C, D = model.elliptic_coeffs(run.nd, 0, run.K, run.dz, run.stability()[h], run.a, run.om, run.H, run.R, run.cp)
    A, B = A[:, None], B[:, None]
    m = x[1:-1, 1:-1]
    res = EPS * (A * x[2:, 1:-1] + B * x[:-2, 1:-1] + C * x[1:-1, 2:] + D * x[1:-1, :-2] + (A + B + C + D) * m).sum()
    rhs = 0.5 * run.a * run.dp * np.abs(np.diff(run.qn(q)[:, 1:-1], axis=0))
    return res / (1e-5 * (rhs[1:] + rhs[:-1]).sum())


def bc_nhn22(run, h):
    """U cos(phi) at the equatorward boundary row from the circulation of absolute vorticity (levels 1..K-1)."""
    av = model.abs_vorticity(run.t.U, run.t.V, run.a, run.om)
    av = av if h > 0 else -av[:, ::-1]
    out, slack = np.zeros(run.K), np.zeros(run.K)
    s, c = run.sin[run.jb], run.cos[run.jb]
    for k in range(1, run.K):
        ck = model.circulation(av[k], run.area(), run.nbin(), 2 * np.pi * run.a ** 2 * (1 - s))
        out[k] = ck / (2 * np.pi * run.a) - run.om * run.a * c
        slack[k] = model.circulation_tol(av[k], run.area(), run.nbin(), 2 * np.pi * run.a ** 2 * (1 - s)) / (2 * np.pi * run.a)
    return out, slack


def uref_nhn22(run, h, q, bc):
    K, nd, jb = run.K, run.nd, run.jb
    tb = run.F(run.t.Theta, h).mean(axis=-1)
    top = np.zeros(nd)
    top[1:-1] = -(run.dz * run.R * run.cos[1:-1] * np.exp(-run.dz * (K - 2) * run.R / run.cp / run.H)
                  * (tb[-1, 2:] - tb[-1, :-2]) / (4 * run.om * run.sin[1:-1] * run.dp * run.H * run.a))
    x = model.solve_uref(nd, jb, K, run.dz, run.stability()[h], run.a, run.om, run.H, run.R, run.cp, run.qn(q), bc,
                         top, top=1)
    u = x / np.where(run.cos > 0, run.cos, 1.)[:, None]
    u[jb] = bc / run.cos[jb]
    u[-1] = 2 * u[-2] - u[-3]
    u[:jb] = 0
    return u


def ptref(run, h, u):
    """Reference theta in thermal-wind balance with u (nd, K); own mean of the class. Returns (K, nd)."""
    if run.cls == "NH18":
        th = run.F(run.t.Theta, h).mean(axis=-1)
        t0 = (th * run.cos).sum(axis=1) / run.cos.sum()
    else:
        t0 = run.theta_mean()[h]
    jb = run.jb
    out = np.zeros((run.K, run.nd))
    out[:, jb:] = model.ptref(u[jb:], run.phi[jb:], run.dp, run.K, run.dz, run.a, run.om, run.H, run.R, run.cp, t0).T
    return out
