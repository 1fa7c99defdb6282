"""Independent float64 reference model (NumPy, [level, latitude, longitude] ordering).

Written from the published equations and the package documentation; each function describes one stage,
so that a check can feed it the package's own output of the previous stage.
"""
import numpy as np
from scipy.interpolate import UnivariateSpline


# ------------------------------------------------------------ interpolation and profiles

def heights(plev, H):
    return -H * np.log(np.asarray(plev, dtype=float) / 1000.)


def potential_temperature(t, plev, R, cp):
    return t * (1000. / np.asarray(plev, dtype=float))[:, None, None] ** (R / cp)


def interp_linear(x, y, xq):
    """Piecewise linear in axis 0 with linear extrapolation."""
    out = np.empty((len(xq),) + y.shape[1:])
    for n, q in enumerate(xq):
        i = int(np.clip(np.searchsorted(x, q, side="right") - 1, 0, len(x) - 2))
        w = (q - x[i]) / (x[i + 1] - x[i])
        out[n] = y[i] * (1 - w) + y[i + 1] * w
    return out


def hemispheric_profiles(theta_in, zin, height, ylat, jd):
    """(t0_s, t0_n, stat_s, stat_n): smoothing spline through the cos-weighted hemispheric mean theta."""
    clat = np.abs(np.cos(np.deg2rad(ylat)))
    zm = theta_in.mean(axis=-1)
    out = []
    for rows in (slice(None, jd), slice(-jd, None)):
        w = clat[rows]
        prof = (zm[:, rows] * w).sum(axis=-1) / w.sum()
        s = UnivariateSpline(zin, prof)
        out.append((s(height), s.derivative()(height)))
    (t0s, ss), (t0n, sn) = out
    return t0s, t0n, ss, sn


# ------------------------------------------------------------ QGPV

def grid(nlat):
    return np.linspace(-np.pi / 2, np.pi / 2, nlat)


def abs_vorticity(u, v, a, om):
    nlat, nlon = u.shape[1:]
    phi = grid(nlat)
    c = np.cos(phi)
    dphi = np.pi / (nlat - 1)
    dl = 2 * np.pi / nlon
    av = np.zeros(u.shape)
    dv = (np.roll(v, -1, axis=2) - np.roll(v, 1, axis=2)) / (2 * dl)
    uc = u * c[None, :, None]
    du = np.zeros(u.shape)
    du[:, 1:-1] = (uc[:, 2:] - uc[:, :-2]) / (2 * dphi)
    av[:, 1:-1] = 2 * om * np.sin(phi)[None, 1:-1, None] + (dv[:, 1:-1] - du[:, 1:-1]) / (a * c[None, 1:-1, None])
    av[:, 0] = av[:, 1].mean(axis=-1)[:, None]
    av[:, -1] = av[:, -2].mean(axis=-1)[:, None]
    return av


def stretching(theta, t0, stat, z, H):
    """e^{z/H} d/dz [ e^{-z/H} (theta - t0)/stat ] at interior levels (t0, stat of shape (kmax, nlat))."""
    g = np.exp(-z / H)[:, None, None] * (theta - t0[:, :, None]) / stat[:, :, None]
    out = np.zeros(theta.shape)
    out[1:-1] = np.exp(z / H)[1:-1, None, None] * (g[2:] - g[:-2]) / (z[2:] - z[:-2])[:, None, None]
    return out


def qgpv(u, v, theta, t0s, t0n, ss, sn, z, H, a, om, cls):
    kmax, nlat, nlon = u.shape
    av = abs_vorticity(u, v, a, om)
    eq = nlat // 2
    if cls == "NH18":
        t0 = np.repeat(0.5 * (t0s + t0n)[:, None], nlat, axis=1)
        st = np.repeat(0.5 * (ss + sn)[:, None], nlat, axis=1)
        f = av.mean(axis=-1)  # NH18 uses the zonal-mean absolute vorticity
    else:
        south = np.arange(nlat) <= eq
        t0 = np.where(south[None, :], t0s[:, None], t0n[:, None])
        st = np.where(south[None, :], ss[:, None], sn[:, None])
        f = np.repeat(2 * om * np.sin(grid(nlat))[None, :], kmax, axis=0)
    pv = av + f[:, :, None] * stretching(theta, t0, st, z, H)
    pv[0] = 0.
    pv[-1] = 0.
    return pv, av


# ------------------------------------------------------------ box counting (area analysis)

def cell_area(nlat, nlon, a):
    """Area of each grid cell as the box counting takes it, a^2 cos(phi) dphi dlambda."""
    phi = grid(nlat)
    return np.repeat((a * a * np.abs(np.cos(phi)) * (np.pi / (nlat - 1)) * (2 * np.pi / nlon))[:, None], nlon, axis=1)


def cap_area(nd, a):
    phi = np.linspace(0, np.pi / 2, nd)
    return 2 * np.pi * a * a * (1 - np.sin(phi))


def box_count(q, area, nbin, targets, amb, rtol=2e-5, exact=False):
    """Reference value by box counting, as an interval.

    Bins run downward from max(q) in nbin-1 equal steps. The cumulative area of the bins below the first one
    is tabulated against the bin edges and inverted linearly at each target area. Points whose bin depends on
    rounding (within amb of an edge, in bin widths) are counted on either side. With exact=True the area above
    each edge is counted completely (see the known finding of C07).
    Returns (lo, hi) of the reference value at each target.
    """
    qmax, qmin = q.max(), q.min()
    dq = (qmax - qmin) / (nbin - 1)
    x = (qmax - q) / dq
    edges = qmax - dq * np.arange(nbin)
    tot = area.sum()

    def table(shift):
        ind = np.clip(np.floor(x + shift).astype(int), 0, nbin - 1)
        # the first bin is not part of the cumulative area: its ambiguous points are in it for the smaller
        # table and outside it for the larger one; the maximum itself always lies in it
        if exact:
            pass
        elif shift > 0:
            ind = np.where(x < 1 + shift, 0, ind)
        else:
            ind = np.where(x >= 1 + shift, np.maximum(ind, 1), ind)
        ind = np.where(q == qmax, 0, ind)
        an = np.bincount(ind.ravel(), weights=area.ravel(), minlength=nbin)
        if exact:
            return np.concatenate([[0.], np.cumsum(an)[:-1]])
        an[0] = 0.
        return np.cumsum(an)
    out = []
    for shift, t in ((amb, targets + rtol * tot), (-amb, targets - rtol * tot)):
        # shift>0 moves ambiguous points to later bins: smaller cumulative area, lower reference value
        aan = table(shift)
        vals = np.empty(len(targets))
        for i, s in enumerate(t):
            n = int(np.searchsorted(aan, s, side="right")) - 1
            if n < 0:
                vals[i] = edges[0]
            elif n >= nbin - 1:
                vals[i] = edges[-1]
            else:
                dd = (s - aan[n]) / (aan[n + 1] - aan[n])
                vals[i] = edges[n] * (1 - dd) + edges[n + 1] * dd
        out.append(vals)
    lo, hi = np.minimum(*out), np.maximum(*out)
    return lo, hi, dq


def circulation(q, area, nbin, target):
    """Area integral of q over {q > Q(target area)} on the same box-counting table (single value)."""
    qmax, qmin = q.max(), q.min()
    dq = (qmax - qmin) / (nbin - 1)
    ind = np.clip(np.floor((qmax - q) / dq).astype(int), 0, nbin - 1)
    ind = np.where(q == qmax, 0, ind)
    an = np.bincount(ind.ravel(), weights=area.ravel(), minlength=nbin)
    cn = np.bincount(ind.ravel(), weights=(area * q).ravel(), minlength=nbin)
    an[0] = cn[0] = 0.
    aan, ccn = np.cumsum(an), np.cumsum(cn)
    return np.interp(target, aan, ccn)


def circulation_tol(q, area, nbin, target, amb=3e-5):
    """Bound on the change of circulation() when points closer than amb (bin widths) to an edge change bins.

    Edges beyond the bins that reach the target area do not enter.
    """
    qmax, qmin = q.max(), q.min()
    dq = (qmax - qmin) / (nbin - 1)
    x = (qmax - q) / dq
    near_edge = np.abs(x - np.round(x)) < amb
    first = near_edge & (np.round(x) == 1)
    ind = np.where(q == qmax, 0, np.clip(np.floor(x + amb).astype(int), 0, nbin - 1))
    an = np.bincount(ind.ravel(), weights=area.ravel(), minlength=nbin)
    an[0] = 0.
    last = int(np.searchsorted(np.cumsum(an), target * (1 + 1e-5), side="right")) + 1
    other = near_edge & (np.round(x) > 1) & (np.round(x) <= last)
    return 2 * dq * area[other].sum() + 2 * (qmax - qmin) * area[first].sum()


def exact_rearrangement(q, area, targets):
    """sup { Q : area{q > Q} > target }: the bin-free reference value, for tolerance-of-binning statements."""
    order = np.argsort(-q.ravel(), kind="stable")
    qs, cum = q.ravel()[order], np.cumsum(area.ravel()[order])
    return qs[np.minimum(np.searchsorted(cum, targets, side="left"), qs.size - 1)]


# ------------------------------------------------------------ local wave activity and fluxes (one hemisphere)

def lwa_hemisphere(pv, qref, a, jb):
    """pv (nlev, nd, nlon) from the equator to the pole, qref (nlev, nd).

    Returns (astar1, astar2) [cyclonic, anticyclonic] * cos(phi), zero on rows < jb and on the polar row.
    """
    K, nd, nlon = pv.shape
    phi = np.linspace(0, np.pi / 2, nd)
    aa = a * (np.pi / 2 / (nd - 1)) * np.cos(phi)
    a1 = np.zeros(pv.shape)
    a2 = np.zeros(pv.shape)
    for j in range(jb, nd - 1):
        qe = pv - qref[:, j][:, None, None]
        w = qe * aa[None, :, None]
        a2[:, j] = -np.where(qe[:, j:] <= 0, w[:, j:], 0.).sum(axis=1)
        a1[:, j] = np.where(qe[:, :j] > 0, w[:, :j], 0.).sum(axis=1)
    return a1, a2


def ncforce_hemisphere(pv, qref, ncf, a, jb, amb):
    """Interval (lo, hi) of the nonconservative term; amb: |qe| below which the sign is ambiguous."""
    K, nd, nlon = pv.shape
    phi = np.linspace(0, np.pi / 2, nd)
    aa = a * (np.pi / 2 / (nd - 1)) * np.cos(phi)
    lo, hi = np.zeros(pv.shape), np.zeros(pv.shape)
    for j in range(jb, nd - 1):
        qe = pv - qref[:, j][:, None, None]
        w = ncf * aa[None, :, None]
        # ambiguous points contribute either 0 or their weight
        e = amb[:, j][:, None, None]
        w2, w1 = -w[:, j:], w[:, :j]
        q2, q1 = qe[:, j:], qe[:, :j]
        lo[:, j] = (np.where(q2 <= -e, w2, np.where(q2 <= e, np.minimum(w2, 0), 0.)).sum(axis=1)
                    + np.where(q1 > e, w1, np.where(q1 > -e, np.minimum(w1, 0), 0.)).sum(axis=1))
        hi[:, j] = (np.where(q2 <= -e, w2, np.where(q2 <= e, np.maximum(w2, 0), 0.)).sum(axis=1)
                    + np.where(q1 > e, w1, np.where(q1 > -e, np.maximum(w1, 0), 0.)).sum(axis=1))
    return lo, hi


def fluxes_hemisphere(pv, u, v, th, qref, uref, tref, tg, a, om, dz, H, R, cp, prefac, jb):
    """All layerwise flux terms of one hemisphere (equator to pole). uref, tref: (nlev, nd)."""
    K, nd, nlon = pv.shape
    phi = np.linspace(0, np.pi / 2, nd)
    dp = np.pi / 2 / (nd - 1)
    c = np.cos(phi)
    a1, a2 = lwa_hemisphere(pv, qref, a, jb)
    ua1 = uref[:, :, None] * (a1 + a2)
    ua1[:, :jb] = 0
    ua2 = np.zeros(pv.shape)
    for j in range(jb, nd - 1):
        qe = pv - qref[:, j][:, None, None]
        ue = u * c[j] - (uref[:, j][:, None] * c[None, :])[:, :, None]
        w = qe * ue * (a * dp)
        ua2[:, j] = (-np.where(qe[:, j:] <= 0, w[:, j:], 0.).sum(axis=1)
                     + np.where(qe[:, :j] > 0, w[:, :j], 0.).sum(axis=1))
    z = dz * np.arange(K)
    dtg = np.full(K, np.nan)
    dtg[1:-1] = (tg[2:] - tg[:-2]) / (2 * dz)
    ep1 = np.zeros(pv.shape)
    ee = (0.5 * (v ** 2 - (u - uref[:, :, None]) ** 2)
          - 0.5 * (R / H) * np.exp(-R / cp * z / H)[:, None, None] * (th - tref[:, :, None]) ** 2 / dtg[:, None, None])
    ep1[:] = ee * c[None, :, None]
    mom = (u - uref[:, :, None]) * v * (c ** 2)[None, :, None]
    ep2 = np.zeros(pv.shape)
    ep3 = np.zeros(pv.shape)
    ep2[:, :-1] = mom[:, 1:]
    ep3[:, 1:] = mom[:, :-1]
    ep3[:, jb] = mom[:, jb]   # one-sided at the equatorward boundary row
    heat = np.zeros(pv.shape[1:])
    e42 = np.exp(-dz / H) * v[1] * (th[1] - tref[1][:, None]) / (tg[2] - tg[0])
    e43 = 0.5 * v[0] * (th[0] - tref[0][:, None]) / (tg[1] - tg[0])
    heat[:] = (2 * om * np.sin(phi) * c * dz / prefac)[:, None] * (e42 + e43)
    out = dict(astar1=a1, astar2=a2, ua1=ua1, ua2=ua2, ep1=ep1, ep2=ep2, ep3=ep3)
    for x in out.values():
        x[0] = 0
        x[-1] = 0
        x[:, :jb] = 0
        x[:, -1] = 0
    heat[:jb] = 0
    heat[-1] = 0
    out["ep4"] = heat
    return out


def prefactor(kmax, dz, H):
    return sum(np.exp(-k * dz / H) * dz for k in range(1, kmax - 1))


def column(x, dz, H, prefac=None):
    """Density-weighted column average over the interior layers (axis 0 is the level)."""
    K = x.shape[0]
    w = np.exp(-np.arange(K) * dz / H) * dz
    p = prefactor(K, dz, H) if prefac is None else prefac
    return np.tensordot(w[1:-1], x[1:-1], axes=(0, 0)) / p


# ------------------------------------------------------------ elliptic problem for Uref

def elliptic_coeffs(nd, jb, kmax, dz, stat, a, om, H, R, cp):
    """Coefficients at interior rows j=jb+1..nd-2, levels 1..kmax-2 (0-based)."""
    dp = np.pi / 2 / (nd - 1)
    k_ = R / cp
    z = dz * np.arange(kmax)
    j = np.arange(jb + 1, nd - 1)
    phi0, phip, phim = j * dp, (j + .5) * dp, (j - .5) * dp
    k = np.arange(1, kmax - 1)
    zp, zm = 0.5 * (z[k + 1] + z[k]), 0.5 * (z[k - 1] + z[k])
    sp, sm = 0.5 * (stat[k + 1] + stat[k]), 0.5 * (stat[k - 1] + stat[k])
    fact = 4 * om * om * H * a * a * np.sin(phi0) * dp * dp / (dz * dz * R * np.cos(phi0))
    A = 1 / (np.sin(phip) * np.cos(phip))
    B = 1 / (np.sin(phim) * np.cos(phim))
    C = fact[:, None] * (np.exp((k_ - 1) * zp / H) / sp * np.exp(z[k] / H))[None, :]
    D = fact[:, None] * (np.exp((k_ - 1) * zm / H) / sm * np.exp(z[k] / H))[None, :]
    return A, B, C, D


def solve_uref(nd, jb, kmax, dz, stat, a, om, H, R, cp, qsin, u_bc, utop, top=2):
    """Solve the elliptic equation for U cos(phi) directly.

    qsin (nd, kmax): Qref/sin(phi); u_bc (kmax): U cos(phi) at row jb; utop (nd): the imposed difference
    U cos(kmax-1) - U cos(kmax-1-top).
    Returns U cos(phi), shape (nd, kmax) (rows < jb zero).
    """
    import scipy.sparse as sp
    import scipy.sparse.linalg as spl
    A, B, C, D = elliptic_coeffs(nd, jb, kmax, dz, stat, a, om, H, R, cp)
    dp = np.pi / 2 / (nd - 1)
    J, K = nd - 2 - jb, kmax - 2
    idx = np.arange(J * K).reshape(J, K)
    rows, cols, vals = [], [], []
    rhs = -0.5 * a * dp * (qsin[jb + 2:nd, 1:-1] - qsin[jb:nd - 2, 1:-1])

    def add(r, c, v):
        rows.append(r), cols.append(c), vals.append(v)
    for j in range(J):
        for k in range(K):
            r = idx[j, k]
            add(r, r, -(A[j] + B[j] + C[j, k] + D[j, k]))
            if j + 1 < J:
                add(r, idx[j + 1, k], A[j])
            if j > 0:
                add(r, idx[j - 1, k], B[j])
            else:
                rhs[j, k] -= B[j] * u_bc[k + 1]
            if k > 0:
                add(r, idx[j, k - 1], D[j, k])
            if k + 1 < K:
                add(r, idx[j, k + 1], C[j, k])
            else:
                # U(top) = U(top - 2 or 1) + utop
                add(r, idx[j, k + 1 - top], C[j, k])
                rhs[j, k] -= C[j, k] * utop[jb + 1 + j]
    M = sp.csc_matrix((vals, (rows, cols)), shape=(J * K, J * K))
    x = spl.spsolve(M, rhs.ravel()).reshape(J, K)
    out = np.zeros((nd, kmax))
    out[jb, :] = u_bc
    out[jb + 1:nd - 1, 1:-1] = x
    out[jb + 1:nd - 1, -1] = x[:, K - top] + utop[jb + 1:nd - 1]
    return out


def ptref(u, phi, dp, kmax, dz, a, om, H, R, cp, t0):
    """Reference potential temperature in thermal-wind balance with u (rows of the domain, kmax).

    Leapfrog integration in latitude at levels 1..kmax-2 starting with equal values on the first two rows,
    hemispheric (cosine-weighted) mean t0; the end levels are the neighbouring profile shifted to their own mean.
    """
    n = u.shape[0]
    out = np.zeros((n, kmax))
    w = np.cos(phi)
    for k in range(1, kmax - 1):
        x = np.zeros(n)
        for j in range(1, n - 1):
            uz = (u[j, k + 1] - u[j, k - 1]) / (2 * dz)
            x[j + 1] = x[j - 1] - 2 * dp * 2 * om * np.sin(phi[j]) * uz * a * H * np.exp(R / cp * dz * k / H) / R
        out[:, k] = x + t0[k] - (w * x).sum() / w.sum()
    out[:, 0] = out[:, 1] - t0[1] + t0[0]
    out[:, -1] = out[:, -2] - t0[-2] + t0[-1]
    return out
