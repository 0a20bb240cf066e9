#!/usr/bin/env python3
"""Run the check of one property.

run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--seed N]

exit 0: held on everything explored (KNOWN-FINDING lines possible)
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the machinery itself failed (no verdict)
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from harness.plan import PLAN, RULE  # noqa: E402

PY = {
    "f": "/opt/venv/bin/python",
    "n": "/opt/veriftools/pyvenv/bin/python",
    "s": "/opt/venv-stdlib/bin/python",
}
NAMES = {"f": "numpy+astropy", "n": "numpy only", "s": "standard library only"}


def env():
    e = dict(os.environ)
    e.pop("PYTHONPATH", None)
    e.update(
        PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TZ="UTC",
        HYPOTHESIS_STORAGE_DIRECTORY=e.get("TMPDIR", "/tmp") + "/verif-hyp",
    )
    for k, v in (("XDG_CONFIG_HOME", "/opt/vp/xdg/config"), ("XDG_CACHE_HOME", "/opt/vp/xdg/cache")):
        if os.path.isdir(v):
            e[k] = v
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--margins", action="store_true", help="print the largest error/tolerance ratios")
    ap.add_argument("--workers", help="interpreters to use, one letter per worker (default: the property's plan)")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply the number of cases")
    ap.add_argument("--selfcheck", action="store_true", help="are the three interpreters usable?")
    a = ap.parse_args()
    if a.selfcheck:
        sys.exit(selfcheck())
    prop = a.property
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        rc = run(a, prop, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def selfcheck():
    rc = 0
    for c, p in PY.items():
        r = subprocess.run([p, "-B", "-c", "import sys; sys.path.insert(0, %r); from harness import boot; boot.install(); "
                            "import hypothesis, mpmath, pymap3d; print(pymap3d.__file__)" % HERE],
                           env=env(), cwd="/", capture_output=True, text=True)
        print(NAMES[c], (r.stdout or r.stderr[-300:]).strip())
        rc |= r.returncode
    return 2 if rc else 0


def run(a, prop, tmp, t0):
    plan = PLAN[prop]
    if a.replay:
        a.replay = os.path.abspath(a.replay)
        cfgs = [json.load(open(a.replay)).get("config", "n")]
        scale, budget = 1, 600
    elif a.tier == "quick":
        cfgs = list(plan["workers"])
        scale, budget = plan.get("quick", 1.0), 150
    else:
        cfgs = list(plan["workers"])
        scale, budget = plan.get("quick", 1.0) * plan.get("thorough", 25), 600
    if a.workers and not a.replay:
        cfgs = list(a.workers)
    scale *= a.scale
    procs = []
    for i, c in enumerate(cfgs):
        out = os.path.join(tmp, f"{i}.json")
        cmd = [PY[c], "-B", os.path.join(HERE, "harness", "worker.py"), prop, c, str(i), str(a.seed),
               str(scale), str(budget), out]
        if a.replay:
            cmd += ["--replay", a.replay]
        log = open(os.path.join(tmp, f"{i}.log"), "w")
        procs.append((c, out, subprocess.Popen(cmd, env=env(), cwd=tmp, stdout=log, stderr=log), log))
    results, errors = [], []
    hard = time.monotonic() + (850 if a.tier == "thorough" else 600)
    for i, (c, out, p, log) in enumerate(procs):
        try:
            p.wait(timeout=max(1, hard - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append(f"worker {i} ({NAMES[c]}) did not finish")
        log.close()
        if os.path.exists(out):
            r = json.load(open(out))
            results.append(r)
            if r["error"]:
                errors.append(r["error"])
        else:
            errors.append(f"worker {i} died: " + open(os.path.join(tmp, f"{i}.log")).read()[-3000:])

    if a.margins:
        mg = {}
        for r in results:
            for k, v in r["margins"].items():
                k = f"{k} [{r['config']}]"
                mg[k] = max(v, mg.get(k, 0))
        for k in sorted(mg):
            print(f"  margin {k}: {mg[k]:.3g}")
    viol = next((r["violation"] for r in results if r["violation"]), None)
    wall = time.monotonic() - t0
    if not a.replay and not a.no_evidence:
        evidence(a, prop, results, wall, viol, errors)
    listed = known_lines(prop)
    for k in sorted({k for r in results for k in r["known"]}):
        print(f"KNOWN-FINDING: property={prop} {listed[k]}")
    n = sum(r["evaluations"] for r in results)
    if viol:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = a.replay or os.path.join(d, f"{prop}-{viol['sub']}-{viol['config']}-{a.seed}.json")
        if not a.replay:
            with open(path, "w") as f:
                json.dump({"property": prop, "check": viol["sub"], "config": viol["config"],
                           "case": viol["case"], "message": viol["msg"]}, f, indent=1)
        print(f"check {viol['sub']} [{NAMES[viol['config']]}] case {json.dumps(viol['case'])}")
        print(viol["msg"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        print(f"ERROR property={prop}: the check could not give an answer")
        return 2
    print(f"OK property={prop} tier={a.tier} seed={a.seed} cases={n} wall={wall:.1f}s")
    return 0


def known_lines(prop):
    keys = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}":
                    keys[parts[2].removeprefix("key=")] = parts[3].strip()
    return keys


def evidence(a, prop, results, wall, viol, errors):
    hashes = {h for r in results for h in r["hashes"]}
    tags, subs = {}, {}
    for r in results:
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        for k, (x, y) in r["subs"].items():
            s = subs.setdefault(k, {"cases": 0, "nontrivial": 0, "configurations": {}})
            s["cases"] += x
            s["nontrivial"] += y
            c = NAMES[r["config"]]
            s["configurations"][c] = s["configurations"].get(c, 0) + x
    samples = []
    for i in range(12):
        for r in results:
            if i < len(r["samples"]) and len(samples) < 24:
                samples.append(r["samples"][i])
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(hashes),
            "rule": RULE.get(prop, RULE["default"]),
            "samples": samples,
            "checks": subs,
            "classes": dict(sorted(tags.items())),
            "skipped_for_time": sum(r["skipped"] for r in results),
            "workers": [f"{NAMES[r['config']]} shard {r['shard']}: {r['evaluations']} cases, {r['wall']:.1f} s" for r in results],
        },
        "wall_s": round(wall, 2),
        "violations": 1 if viol else 0,
        "verdict": "violation" if viol else ("error" if errors else "held"),
        "known_findings_seen": sorted({k for r in results for k in r["known"]}),
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
