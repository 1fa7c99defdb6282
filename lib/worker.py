"""Worker process: runs one shard of one law (or replays one case) against a built package."""
import ctypes
import importlib
import json
import os
import sys
import warnings

M_PERTURB, FILL = -6, 0xBF


def prepare(pkg):
    sys.meta_path = [f for f in sys.meta_path if "esonpy" not in type(f).__name__]
    sys.path.insert(0, pkg)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    # Fortran prints to fd 1: send everything the code under test prints to /dev/null
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    warnings.simplefilter("ignore")
    # whatever the C library hands out holds 32.5 in double precision and 3 in single precision, not zeros
    ctypes.CDLL(None).mallopt(M_PERTURB, FILL)
    import falwa
    if not os.path.realpath(falwa.__file__).startswith(os.path.realpath(pkg)):
        raise RuntimeError("wrong falwa: " + falwa.__file__)


def main():
    spec = json.loads(sys.argv[1])
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    prepare(spec["pkg"])
    from lib import common
    mod = importlib.import_module("checks." + spec["prop"].lower())
    law = {l.name: l for l in mod.LAWS + getattr(mod, "PROBES", [])}[spec["law"]]
    if "replay" in spec:
        try:
            law.body(spec["replay"])
            res = dict(fail=None)
        except Exception as e:
            import traceback
            res = dict(fail=dict(case=spec["replay"], message=f"{type(e).__name__}: {e}"[:1500],
                                 trace=traceback.format_exc()[-3000:]))
    else:
        res = common.run_law(law, spec["n"], common.law_seed(spec["seed"], law.name, spec["shard"]),
                             spec["inflight"], spec.get("seconds"))
    with open(spec["out"] + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(spec["out"] + ".tmp", spec["out"])


if __name__ == "__main__":
    main()
