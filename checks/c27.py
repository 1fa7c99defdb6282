"""C27: filling of missing values keeps what is there.

The solver (package gridfill) is not installed; a stand-in with its interface solves the same problem here, so that
what is judged is how falwa calls it and what it returns.
"""
import sys
import types

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.common import Law, check, near, relscale

ASSUMPTIONS = ["gridfill.fill(grids, xdim, ydim, eps, relax, itermax, initzonal, cyclic, verbose) is replaced by a "
               "stand-in that relaxes Poisson's equation with the same meaning of its arguments"]
LOG = []


def fill(grids, xdim, ydim, eps, relax=.6, itermax=100, initzonal=False, cyclic=False, verbose=False):
    g = np.ma.asarray(grids)
    LOG.append(dict(xdim=xdim % g.ndim, ydim=ydim % g.ndim, eps=eps, itermax=itermax, cyclic=cyclic, verbose=verbose))
    v = np.moveaxis(np.array(g.filled(np.nan), float), (ydim, xdim), (0, 1))
    m = np.isnan(v)
    v[m] = v[~m].mean() if (~m).any() else 0.
    done = False
    for _ in range(itermax):
        e = np.pad(v, ((0, 0), (1, 1)), mode="wrap" if cyclic else "edge")
        p = np.pad(v, ((1, 1), (0, 0)), mode="edge")
        res = np.where(m, 0.25 * (e[:, 2:] + e[:, :-2] + p[2:] + p[:-2]) - v, 0.)
        v = v + relax * res
        if np.abs(res).max() <= eps:
            done = True
            break
    return np.moveaxis(v, (0, 1), (ydim, xdim)), np.array([done])


def field(case):
    r = np.random.default_rng(case["seed"])
    f = case["scale"] * (r.normal(size=(case["ny"], case["nx"])) + 5 * case["shift"])
    m = np.zeros(f.shape, bool)
    if case["holes"] == "points":
        m = r.random(f.shape) < 0.2
    elif case["holes"] == "block":
        i, j = r.integers(0, case["ny"] - 1), r.integers(0, case["nx"])
        m[i:i + 1 + case["ny"] // 3, [(j + k) % case["nx"] for k in range(1 + case["nx"] // 3)]] = True
    elif case["holes"] == "one":
        m[r.integers(case["ny"]), r.integers(case["nx"])] = True
    if m.all():
        m[0, 0] = False
    f[m] = np.nan
    return gen.relayout(f, case["layout"]), m


def filled(case):
    sys.modules["gridfill"] = types.SimpleNamespace(fill=fill)
    from falwa.preprocessing import gridfill_each_level
    f, m = field(case)
    keep = f.copy()
    kw = {} if case["itermax"] is None else dict(itermax=case["itermax"])
    LOG.clear()
    out = gridfill_each_level(f, **kw)
    check(np.array_equal(f, keep, equal_nan=True), "the input was modified")
    out = np.ma.filled(out, np.nan)
    check(out.shape == f.shape, f"shape {out.shape}")
    near(out[~m], keep[~m], 1e-12 * relscale(keep), "values that were not missing")
    check(np.isfinite(out).all(), "missing values are left")
    if not m.any():
        check(not LOG, "the solver ran although nothing is missing")
        return ["nothing missing"]
    call = LOG[-1]
    check(call["itermax"] == (case["itermax"] or 1000), f"iteration limit {call['itermax']}")
    check(bool(call["cyclic"]), "longitude is not treated as periodic")
    lo, hi = np.nanmin(keep), np.nanmax(keep)
    check(out.min() >= lo - 1e-9 * relscale(keep) and out.max() <= hi + 1e-9 * relscale(keep),
          "a filled value lies outside the range of the field")
    # each filled value is the mean of its neighbours (to the tolerance), around the globe in longitude
    e = np.pad(out, ((0, 0), (1, 1)), mode="wrap")
    p = np.pad(out, ((1, 1), (0, 0)), mode="edge")
    res = 0.25 * (e[:, 2:] + e[:, :-2] + p[2:] + p[:-2]) - out
    if (case["itermax"] or 1000) >= 1000:
        near(res[m], np.zeros(int(m.sum())), 0.0101, "filled values against the mean of their neighbours")
    k = 1 + case["seed"] % (case["nx"] - 1)
    near(gridfill_each_level(np.roll(keep, k, 1), **kw), np.roll(out, k, 1), 1e-9 * relscale(keep) + 1e-12,
         "a field rolled in longitude")
    return [case["holes"], "default limit" if case["itermax"] is None else "given limit"]


def strat():
    return st.fixed_dictionaries(dict(
        nx=st.integers(3, 14), ny=st.integers(3, 12), seed=gen.seeds, scale=st.sampled_from([1., 30., 0.5]),
        shift=gen.floats(-3, 3, 12), layout=st.sampled_from(gen.LAYOUTS[:-1]),
        holes=st.sampled_from(["points", "points", "block", "one", "none"]), itermax=st.sampled_from([None, None, 2000, 7])))


LAWS = [Law("filled", strat(), filled, 800, 12000, 2, "every case (the field is random; classes say what is missing)")]
