"""Laws, comparison helpers and the in-process (worker side) driver."""
import hashlib
import json
import os
import sys
import time
import traceback
import zlib

import numpy as np


class Violation(AssertionError):
    """The property is broken on this case."""


QUICK = 5  # the quick tier runs this many times the number of cases written at each law


class Law:
    """One executable statement.

    strategy -- Hypothesis strategy producing a JSON-able case
    body     -- body(case); raises on a violation; returns a truthy value (a label) when the
                case is non-trivial
    quick, thorough -- number of cases;  shards -- number of worker processes
    fcheck -- extra gfortran flags (comma separated) of the build the law runs against
    """

    def __init__(self, name, strategy, body, quick, thorough, shards=2, rule="", fcheck=None):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick, self.thorough, self.shards, self.rule = quick, thorough, shards, rule
        self.fcheck = fcheck

    def count(self, tier):
        return self.thorough if tier == "thorough" else self.quick * QUICK


def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def near(got, want, tol, what):
    """|got - want| <= tol elementwise (tol scalar or array); non-finite values never pass."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
    if got.size == 0:
        return
    with np.errstate(all="ignore"):
        bad = ~(np.abs(got.astype(float) - want.astype(float)) <= tol)
    if bad.any():
        d = np.abs(got.astype(float) - want.astype(float))
        d = np.where(np.isfinite(d), d, np.inf)
        excess = np.where(bad, d, -1.0)
        i = np.unravel_index(np.argmax(excess), got.shape)
        t = np.broadcast_to(np.asarray(tol, dtype=float), got.shape)[i]
        raise Violation(f"{what}: {int(bad.sum())} of {got.size} values differ, worst at {tuple(map(int, i))}: "
                        f"got {got[i]!r}, expected {want[i]!r}, tolerance {t:.3g}")


def within(got, lo, hi, what):
    got = np.asarray(got)
    lo, hi = np.broadcast_to(lo, got.shape), np.broadcast_to(hi, got.shape)
    with np.errstate(all="ignore"):
        bad = ~((got >= lo) & (got <= hi))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation(f"{what}: {int(bad.sum())} of {got.size} values outside their interval, first at {i}: "
                        f"got {got[i]!r}, allowed [{lo[i]!r}, {hi[i]!r}]")


def relscale(*arrays):
    m = 0.0
    for a in arrays:
        a = np.asarray(a, dtype=float)
        if a.size:
            m = max(m, float(np.nanmax(np.abs(a))))
    return m


def raises(exc, fn, what):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {e}; expected {exc}")
    raise Violation(f"{what}: no error raised")


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def brief(case):
    s = json.dumps(case)
    return case if len(s) < 1500 else s[:1500] + "..."


SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK_S", "25"))


def run_law(law, n, seed, inflight, seconds=None):
    """Drive one law with Hypothesis, for at most so many seconds. Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    # every case drawn afresh: no variants of the last case that repeat its values (five of six cases otherwise)
    if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None

    st = dict(evaluations=0, keys=set(), nontrivial=set(), labels={}, samples=[], fail=None,
              first_fail=None)

    start = time.monotonic()

    def body(case):
        now = time.monotonic()
        if seconds and st["fail"] is None and now - start > seconds:
            return  # a slow machine: the evidence says how many cases were reached
        if st["fail"] is not None and now - st["first_fail"] > SHRINK_SECONDS:
            # stop shrinking: only the best failing case keeps failing
            if case_key(case) != st["fail"]["key"]:
                return
            raise Violation(st["fail"]["message"])
        with open(inflight, "w") as f:
            json.dump(case, f)
        if st["fail"] is None:
            st["evaluations"] += 1
        try:
            label = law.body(case)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:
            st["fail"] = dict(case=case, key=case_key(case), message=f"{type(e).__name__}: {e}"[:1500],
                              trace=traceback.format_exc()[-3000:])
            if st["first_fail"] is None:
                st["first_fail"] = time.monotonic()
            raise Violation(st["fail"]["message"]) from None
        k = case_key(case)
        if st["fail"] is None and label:
            for part in (label if isinstance(label, (list, tuple)) else [label]):
                st["labels"][str(part)] = st["labels"].get(str(part), 0) + 1
            if k not in st["nontrivial"]:
                st["nontrivial"].add(k)
                if len(st["samples"]) < 2:
                    st["samples"].append(dict(law=law.name, label=str(label), case=brief(case)))

    test = given(law.strategy)(body)
    test = settings(max_examples=n, deadline=None, database=None, print_blob=False,
                    report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                           HealthCheck.large_base_example])(test)
    test = hypothesis.seed(seed)(test)
    error = None
    try:
        test()
    except Violation:
        pass
    except BaseException as e:
        if st["fail"] is None:
            error = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"
    return dict(evaluations=st["evaluations"], nontrivial=sorted(st["nontrivial"]), labels=st["labels"],
                samples=st["samples"], fail=st["fail"], error=error)


def law_seed(seed, name, shard):
    return (int(seed) * 1000003 + zlib.crc32(name.encode()) + 7919 * shard) % (2 ** 63)
