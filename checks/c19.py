"""C19: call histories: steps refuse to run before their prerequisites and results do not depend on the history."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, pristine
from lib.common import Law, check, fail, near, raises, relscale
from lib.meta import BARO, INTERP, LAYER, REF
from lib.qg import Run

ASSUMPTIONS = ["the reference for a step is a fresh object on which only the prerequisites of the step were run",
               "the reading of attributes whose step has not run is specified only where the code documents an error"]
ONLYLAYER = [k for k in LAYER if k != "lwa"]
TUPLES = dict(interp=dict(QGPV="qgpv", U="interpolated_u", V="interpolated_v", Theta="interpolated_theta"),
              ref=dict(Qref="qref", Uref="uref", PTref="ptref"),
              flux={k: k for k in ("adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux",
                                   "divergence_eddy_momentum_flux", "meridional_heat_flux", "lwa_baro", "u_baro", "lwa")})
OPS = ["interp", "ref", "ref", "flux", "flux", "flux0", "layer", "layer", "layer0", "lwa", "badref", "badflux"]


class Model:
    """One problem: its object under test, the model of its state, and canonical values from fresh objects."""

    def __init__(self, case, forced):
        self.case = case
        self.b = gen.build(case)
        self.keep = {k: np.array(self.b[k]) for k in ("u", "v", "t", "xlon", "ylat", "plev")}
        self.nh = case["nh"]
        self.err = case["raise"] and case["cls"] == "NH18"
        self.o = self.fresh()
        self.cache = {}
        self.interp = False
        self.ref = None            # None, "ok" or "failed"
        self.values = {}
        self.layer = False
        r = np.random.default_rng(case["seed"] + 9)
        n = case["nlat"] + 1 - case["nlat"] % 2
        self.ncf = [1e-10 * r.normal(size=(self.o.kmax, n, case["nlon"])) for _ in range(2)]
        self.forced = forced

    def fresh(self):
        over = dict(raise_error_for_nonconvergence=self.err) if self.case["cls"] == "NH18" else {}
        return gen.make(self.case, self.b, nh_only=self.nh, **over)

    def canon(self, step, i=None, maxit=None):
        """Values (dict) that a step produces on a fresh object in a process that ran nothing before."""
        key = (step, i, maxit)
        if key not in self.cache:
            self.cache[key] = pristine.call("checks.c19", "canonical", self.case, self.forced, *key)
        return self.cache[key]

    def refuses(self, fn, what):
        try:
            fn()
        except ValueError:
            return
        except Exception as e:
            fail(f"{what}: {type(e).__name__}: {e}; expected ValueError")
        fail(f"{what}: no error")

    def step(self, op, log):
        o = self.o
        tup = len(log) % 2 == 0
        # the deprecated argument has no effect
        dep = ({}, dict(northern_hemisphere_results_only=True), {}, dict(northern_hemisphere_results_only=False))[(len(log) // 2 + self.case["seed"]) % 4]
        if op == "interp":
            r = o.interpolate_fields(return_named_tuple=tup)
            self.interp = True
            self.values.update(self.canon("interp"))
            self.returned(r, tup, "interp")
        elif op == "ref":
            if not self.interp:
                return self.refuses(lambda: o.compute_reference_states(return_named_tuple=tup, **dep), "compute_reference_states before interpolate_fields")
            r = o.compute_reference_states(return_named_tuple=tup, **dep)
            self.ref = "ok"
            self.values.update(self.canon("ref"))
            self.returned(r, tup, "ref")
        elif op == "badref":
            # the solver is not given enough iterations
            if self.case["cls"] != "NH18" or not self.interp:
                return
            few = 2 + len(log) % 3
            v = self.canon("ref", maxit=few)
            if not v["nonconvergent_uref"]:
                return
            o.maxit = few
            try:
                if self.err:
                    self.refuses(o.compute_reference_states, "compute_reference_states without convergence")
                else:
                    self.returned(o.compute_reference_states(return_named_tuple=tup), tup, "ref")
            finally:
                o.maxit = 20000
            self.ref = "failed"
            for k in ("uref", "ptref"):
                self.values.pop(k, None)
            self.values["nonconvergent_uref"] = np.array(True)
            self.values["qref"] = v["qref"]
            if self.err:
                self.values.pop("qref")     # given up at the first hemisphere
        elif op in ("flux", "flux0", "layer", "layer0"):
            i = None if op.endswith("0") or not self.forced else len(log) % 2
            name = "compute_lwa_and_barotropic_fluxes" if op[0] == "f" else "compute_layerwise_lwa_fluxes"
            kw = dict(ncforce=None if i is None else self.ncf[i])
            if op[0] == "f":
                kw.update(dep, return_named_tuple=tup)
            if self.ref != "ok":
                return self.refuses(lambda: getattr(o, name)(**kw), f"{name} without reference states")
            r = getattr(o, name)(**kw)
            self.values.update(self.canon("flux" if op[0] == "f" else "layer", i))
            if op[0] == "f":
                self.returned(r, tup, "flux")
            else:
                self.layer = True
        elif op == "badflux":
            # a forcing of the wrong shape is refused
            if self.ref != "ok":
                return
            bad = self.ncf[0][:, :-1]
            try:
                o.compute_lwa_and_barotropic_fluxes(ncforce=bad)
            except Exception:
                return
            fail("a forcing of the wrong shape was accepted")
        elif op == "lwa":
            if self.ref is None:
                return self.refuses(o.compute_lwa_only, "compute_lwa_only without reference states")
            if self.err and self.ref == "failed":
                return      # after the error Qref may be that of one hemisphere only
            o.compute_lwa_only()
            self.values.update(self.canon("lwa"))

    def returned(self, r, tup, step):
        if not tup:
            return check(r is None, f"{step} returned {type(r).__name__} without being asked to")
        for f, k in TUPLES[step].items():
            near(np.asarray(getattr(r, f)), np.array(getattr(self.o, k)), 0, f"named tuple entry {f} against the attribute {k}")
        if step == "interp":
            check(len(r) == 5, "length of Interpolated_fields")
        else:
            check(len(r) == len(TUPLES[step]), f"length of the named tuple of {step}")

    def verify(self, log):
        o = self.o
        for k, v in self.values.items():
            g = np.array(getattr(o, k))
            if v.dtype == bool:
                check(bool(g) == bool(v), f"{k} is {bool(g)} after {log}")
            else:
                near(g, v, 1e-9 * relscale(v), f"{k} after {log}")
        if not self.interp:
            for k in INTERP:
                self.refuses(lambda: getattr(o, k), f"{k} before interpolate_fields")
        if not self.layer:
            for k in ONLYLAYER:
                self.refuses(lambda: getattr(o, k), f"{k} before compute_layerwise_lwa_fluxes")
        for k, v in self.keep.items():
            near(np.asarray(self.b[k]), v, 0, f"input {k} modified after {log}")


def canonical(case, forced, step, i, maxit):
    m = Model(case, forced)
    o = m.fresh()
    o.interpolate_fields()
    if step == "interp":
        keys = list(INTERP) + ["static_stability"]
    else:
        if maxit:
            o.maxit = maxit
        try:
            o.compute_reference_states()
        except ValueError:
            if not o.nonconvergent_uref:
                raise
        if step == "ref":
            keys = list(REF) + ["nonconvergent_uref"]
        elif step == "flux":
            o.compute_lwa_and_barotropic_fluxes(ncforce=None if i is None else m.ncf[i])
            keys = list(BARO) + ["lwa"]
        elif step == "layer":
            o.compute_layerwise_lwa_fluxes(ncforce=None if i is None else m.ncf[i])
            keys = list(LAYER)
        else:
            o.compute_lwa_only()
            keys = ["lwa", "lwa_baro", "u_baro"]
    return {k: np.array(getattr(o, k)) for k in keys}


def history(case):
    pristine.start()
    models = []
    for i in range(2):
        c = {**case, "seed": case["seed"] + i, "cls": case["classes"][i], "nh": case["nhs"][i], "nlon": case["nlon"] + i,
             "nlat": case["nlat"] - 2 * (i * case["smaller"])}
        if i and case["other"]:
            c["const"] = case["other"]          # another planet on the same levels
        m = Model(c, case["forced"])
        o = m.fresh()
        o.interpolate_fields()
        s = np.asarray(o.static_stability)
        if s.min() < 1e-3:
            return None
        try:
            o.compute_reference_states()
        except ValueError:
            return None
        if o.nonconvergent_uref:
            return None
        models.append(m)
    log, n = [], 0
    for which, op in case["ops"]:
        m = models[which]
        m.step(op, log)
        log.append(f"{'AB'[which]}.{op}")
        if len(log) % 3 == 0 or len(log) == len(case["ops"]):
            for x in models:
                x.verify(log[-12:])
    done = {op for _, op in case["ops"]}
    labels = ["/".join(case["classes"])]
    if any(m.ref == "ok" and (m.layer or "lwa_baro" in m.values) for m in models):
        labels.append("reached wave activity")
    if any(m.ref == "failed" for m in models):
        labels.append("ended without convergence")
    return labels


def iterations(make):
    """Smallest maxit with which the analysis of the Northern Hemisphere converges (None: above 4000)."""
    o = make()
    o.interpolate_fields()

    def converges(n):
        o.maxit = n
        o.compute_reference_states()
        return not o.nonconvergent_uref
    if not converges(4000):
        return None
    hi = 1
    while not converges(hi):
        hi *= 2
    lo = hi // 2        # does not converge (or 0)
    while hi - lo > 1:
        m = (lo + hi) // 2
        lo, hi = (lo, m) if converges(m) else (m, hi)
    return hi


def convergence(case):
    """The global analysis converges exactly when each hemisphere, analysed on its own, does."""
    b = gen.build(case)
    # one hemisphere is calmer than the other
    w = (1 + case["calm"] * np.tanh(b["ylat"] / 8.))[None, :, None] / 2
    mean = b["t"].mean(axis=(1, 2), keepdims=True)
    b.update(u=b["u"] * w, v=b["v"] * w, t=mean + (b["t"] - mean) * w)
    m = dict(b, u=b["u"][:, ::-1].copy(), v=-b["v"][:, ::-1], t=b["t"][:, ::-1].copy())
    # the iteration ends near the limit of single precision, so that rounding changes its length by a few steps
    n = []
    r = np.random.default_rng(case["seed"] + 4)
    for x in (b, m):
        near_ = [dict(x, **{k: x[k] + 1e-5 * r.normal(size=x[k].shape) for k in "uvt"}) for s in range(2)]
        n.append([iterations(lambda: gen.make(case, y, nh_only=True)) or 10 ** 6 for y in [x] + near_])
    if min(n[0] + n[1]) == 10 ** 6 or max(max(x) - min(x) for x in n) > 4:
        return None
    # the mirrored analysis has to be the same problem (it is not where rounding moves a PV value to another bin)
    g, h = gen.make(case, b, maxit=60), gen.make(case, m, maxit=60, nh_only=True)
    for o in (g, h):
        o.interpolate_fields()
        o.compute_reference_states()
    k = h.qref.shape[1]
    if (relscale(g.qref[:, :k] + h.qref[:, ::-1]) > 1e-7 * relscale(h.qref)
            or relscale(g.uref[:, :k - 1] - h.uref[:, :0:-1]) > 3e-6 * relscale(h.uref)):
        return None
    lo, hi = min(min(x) for x in n), max(max(x) for x in n)
    limits = {max(1, lo // 2)}
    if hi <= 4000:
        limits |= {hi * 2, hi + 50}
    small, large = sorted(n)
    if min(large) - max(small) > 9:
        limits.add((min(large) + max(small)) // 2)
    labels = [case["cls"]]
    for k in sorted(limits):
        want = k < hi
        o = gen.make(case, b, maxit=k, raise_error_for_nonconvergence=case["raise"])
        o.interpolate_fields()
        what = f"maxit={k} ({n[0]} iterations needed in the north, {n[1]} in the south)"
        if case["raise"] and want:
            raises(ValueError, lambda: o.compute_reference_states(return_named_tuple=False), f"compute_reference_states, {what}")
        else:
            o.compute_reference_states(return_named_tuple=False)
        check(bool(o.nonconvergent_uref) == want, f"nonconvergent_uref is {o.nonconvergent_uref}, {what}")
        if want:
            for f in (o.compute_lwa_and_barotropic_fluxes, o.compute_layerwise_lwa_fluxes):
                raises(ValueError, f, f"{f.__name__}, {what}")
        else:
            o.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
        if lo < k < hi:
            labels.append("only the south fails" if n[0] < n[1] else "only the north fails")
    return labels


def strat():
    cls = st.sampled_from(["NH18", "NHN22"])
    ops = st.lists(st.tuples(st.integers(0, 1), st.sampled_from(OPS)).map(list), min_size=1, max_size=14)
    # histories that get through the chain are as frequent as arbitrary ones
    chain = st.builds(lambda pre, o, first, post: pre + [[w, x] for w in o for x in first] + post,
                      st.lists(st.tuples(st.integers(0, 1), st.sampled_from(OPS)).map(list), max_size=3),
                      st.sampled_from([[0], [0, 1], [1, 0]]),
                      st.sampled_from([("interp", "ref"), ("interp", "ref"), ("interp", "badref", "ref")]),
                      st.lists(st.tuples(st.integers(0, 1), st.sampled_from(OPS)).map(list), min_size=3, max_size=12))
    return st.builds(
        lambda c, cl, nhs, ops, x: {**c, "grad": 10 + c["grad"] * 0.8, "classes": cl, "nhs": nhs, "ops": ops, **x},
        st.one_of(gen.qg_case(nlats=(11, 13), nlons=(5, 9), kmaxs=(5, 7), max_amp=1.0),
                  gen.qg_case(nlats=(11, 13), nlons=(5, 9), kmaxs=(5, 7), max_amp=1.0),
                  gen.qg_case(nlats=(11,), nlons=(5, 9), kmaxs=(5, 7), even=True, max_amp=1.0)),
        st.lists(cls, min_size=2, max_size=2), st.lists(st.booleans(), min_size=2, max_size=2), st.one_of(chain, ops, chain, chain),
        st.fixed_dictionaries({"raise": st.booleans(), "smaller": st.integers(0, 1), "forced": st.booleans(),
                               "other": gen.planet()}))


LAWS = [Law("history", strat(), history, 600, 8000, 7,
            "both problems statically stable and solvable; the history is drawn"),
        Law("convergence", st.builds(lambda c, r, a: {**c, "raise": r, "calm": a, "grad": 10 + c["grad"] * .8},
                                     gen.qg_case(nlats=(9, 11, 13, 17, 19), nlons=(4, 8), kmaxs=(7, 12), cls=("NH18",), max_amp=6.0),
                                     st.booleans(), st.sampled_from([-.95, -.9, -.8, .8, .9, .95])),
            convergence, 160, 3000, 4, "statically stable and solvable in both hemispheres")]
