#!/opt/venv/bin/python
"""Run the check of one property:  run.py C07 [--replay FILE]

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Anything else: error of the check.
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
from lib import build as B  # noqa: E402

PY = "/opt/venv/bin/python"
JOBS = int(os.environ.get("VERIF_JOBS", "7"))


def env():
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0",
             PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MALLOC_PERTURB_="165")
    return e


def spawn(spec, log):
    return subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "lib", "worker.py"), json.dumps(spec)],
                            stdout=subprocess.DEVNULL, stderr=log, env=env(), cwd=HERE)


def describe_signal(rc):
    try:
        return signal.Signals(-rc).name
    except ValueError:
        return str(rc)


QUICK_SECONDS = 420  # no new cases after this time in the quick tier


def main():
    prop = sys.argv[1]
    replay = None
    only = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == "--replay":
            replay = json.load(open(args.pop(0)))
        elif a == "--law":
            only = args.pop(0)
        else:
            sys.exit(2)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    # importing the check module needs no falwa
    mod = importlib.import_module("checks." + prop.lower())
    work = tempfile.mkdtemp(prefix="verif-work-")
    scratches = {}
    try:
        def pkg(fcheck):
            if fcheck not in scratches:
                scratches[fcheck] = B.build(fcheck or "")
            return scratches[fcheck][1]
        laws = {l.name: l for l in mod.LAWS if only is None or l.name == only}
        if replay is not None:
            laws.update({l.name: l for l in getattr(mod, "PROBES", [])})
            law = laws[replay["law"]]
            out = os.path.join(work, "replay.json")
            with open(os.path.join(work, "log"), "wb") as log:
                p = spawn(dict(prop=prop, law=law.name, pkg=pkg(law.fcheck), replay=replay["case"], out=out), log)
                rc = p.wait()
            if rc < 0 and rc != -signal.SIGKILL or (law.fcheck and rc == 2 and not os.path.exists(out)):
                print(open(os.path.join(work, "log"), errors="replace").read()[-2000:])
                print(f"law {law.name}: process died ({describe_signal(rc)})")
                print(f"VIOLATION property={prop} replay={sys.argv[3]}")
                return 1
            res = json.load(open(out))
            if res["fail"]:
                print(res["fail"]["trace"])
                print(f"VIOLATION property={prop} replay={sys.argv[3]}")
                return 1
            print("replay: the property held on this case")
            return 0

        tasks = []
        for law in laws.values():
            n = law.count(tier)
            scale = float(os.environ.get("VERIF_SCALE", "1"))
            n = max(1, int(n * scale))
            shards = max(1, min(law.shards * (2 if tier == "thorough" else 1), n))
            per = -(-n // shards)
            for s in range(shards):
                tasks.append((law, s, per))
        tasks.sort(key=lambda t: t[1])
        for law in laws.values():
            pkg(law.fcheck)
        running, results, i = [], [], 0
        while tasks or running:
            while tasks and len(running) < JOBS:
                law, s, n = tasks.pop(0)
                base = os.path.join(work, f"t{i}")
                i += 1
                spec = dict(prop=prop, law=law.name, shard=s, n=n, seed=seed, pkg=pkg(law.fcheck), tier=tier,
                            seconds=(max(60, QUICK_SECONDS - (time.time() - t0)) if tier == "quick" else None),
                            out=base + ".json", inflight=base + ".case")
                log = open(base + ".log", "wb")
                running.append((spawn(spec, log), law, s, base, log))
            time.sleep(0.05)
            for r in list(running):
                rc = r[0].poll()
                if rc is not None:
                    running.remove(r)
                    r[4].close()
                    results.append((rc, *r[1:4]))
        violations, errors = [], []
        ev = 0
        keys, labels, samples, per_law = set(), {}, [], {}
        for rc, law, s, base in sorted(results, key=lambda r: (r[1].name, r[2])):
            res = None
            if os.path.exists(base + ".json"):
                res = json.load(open(base + ".json"))
            if res is None:
                logtext = open(base + ".log", errors="replace").read()[-3000:]
                fortran_stop = law.fcheck and rc == 2 and "Fortran runtime error" in logtext
                died = rc < 0 and rc not in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT)
                if (fortran_stop or died) and os.path.exists(base + ".case"):
                    try:
                        case = json.load(open(base + ".case"))
                    except ValueError:
                        case = None
                    why = "Fortran runtime error" if fortran_stop else describe_signal(rc)
                    violations.append((law.name, dict(case=case, message=f"the process died: {why}", trace=logtext)))
                else:
                    errors.append(f"{law.name}/{s}: worker exit {rc}\n{logtext}")
                continue
            ev += res["evaluations"]
            pl = per_law.setdefault(law.name, dict(evaluations=0, nontrivial=set(), labels={}))
            pl["evaluations"] += res["evaluations"]
            pl["nontrivial"].update(res["nontrivial"])
            for k, v in res["labels"].items():
                pl["labels"][k] = pl["labels"].get(k, 0) + v
            keys.update(law.name + ":" + k for k in res["nontrivial"])
            if s == 0:
                samples += res["samples"]
            if res["fail"]:
                violations.append((law.name, res["fail"]))
            elif res["error"]:
                errors.append(f"{law.name}/{s}: {res['error']}")
        rdir = os.path.join(HERE, "replays")
        seen = set()
        lines = []
        for name, f in violations:
            if name in seen:
                continue
            seen.add(name)
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{prop}-{name}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=prop, law=name, case=f["case"], message=f["message"]), fh, indent=1)
            print(f"[{name}] {f['message']}")
            print(f.get("trace", "")[-1500:])
            lines.append(f"VIOLATION property={prop} replay={path}")
        known = []
        if hasattr(mod, "known_findings") and not violations:
            known = mod.known_findings(lambda law, case: run_one(prop, law, case, pkg, work))
        listed = open(os.path.join(HERE, "known_findings.txt")).read().splitlines()
        for key, law, case, msg in known:
            if any(x.startswith(f"known: property={prop} {key}:") for x in listed):
                print(f"KNOWN-FINDING: property={prop} {key}: {msg}")
            else:
                violations.append((law, dict(case=case, message=msg)))
                path = os.path.join(rdir, f"{prop}-{law}.json")
                os.makedirs(rdir, exist_ok=True)
                with open(path, "w") as fh:
                    json.dump(dict(property=prop, law=law, case=case, message=msg), fh, indent=1)
                seen.add(law)
                print(f"[{law}] {msg}")
                lines.append(f"VIOLATION property={prop} replay={path}")
        rule = "; ".join(f"{l.name}: {l.rule}" for l in laws.values())
        evid = dict(property=prop, tier=tier, seed=seed, level="exploration",
                    coverage=dict(evaluations=ev, distinct_nontrivial=len(keys), rule=rule, samples=samples[:12],
                                  per_law={k: dict(evaluations=v["evaluations"], distinct_nontrivial=len(v["nontrivial"]),
                                                   classes=v["labels"]) for k, v in per_law.items()}),
                    assumptions=getattr(mod, "ASSUMPTIONS", []), violations=len(seen),
                    wall_s=round(time.time() - t0, 2))
        if only is None:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
                json.dump(evid, fh, indent=1)
        for e in errors:
            print("ERROR", e)
        for l in lines:
            print(l)
        print(f"{prop}: {ev} cases, {len(keys)} distinct non-trivial, {len(seen)} violations, "
              f"{time.time() - t0:.1f} s")
        if os.environ.get("VERIF_VERBOSE"):
            print(json.dumps(evid["coverage"]["per_law"], indent=1))
        if lines:
            return 1
        if errors:
            return 3
        return 0
    except B.BuildError as e:
        print("ERROR build failed:", e)
        return 4
    finally:
        for d, _ in scratches.values():
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)


def run_one(prop, law, case, pkg, work):
    """Replay one case of one law in a fresh process; returns the failure message or None."""
    out = os.path.join(work, "one.json")
    if os.path.exists(out):
        os.unlink(out)
    with open(os.path.join(work, "one.log"), "wb") as log:
        rc = spawn(dict(prop=prop, law=law, pkg=pkg(False), replay=case, out=out), log).wait()
    if not os.path.exists(out):
        return f"process died ({rc})"
    f = json.load(open(out))["fail"]
    return f["message"] if f else None


if __name__ == "__main__":
    sys.exit(main())
