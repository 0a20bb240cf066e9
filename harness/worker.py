"""One worker: run every check of one property in one interpreter configuration.

usage: worker.py PROPERTY CONFIG SHARD SEED SCALE BUDGET_S OUT.json [--replay FILE]
"""
import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import boot  # noqa: E402

boot.install()

from harness import core  # noqa: E402
from harness.core import Hang, Rec, Violation  # noqa: E402

from harness.worker_modules import MODULES  # noqa: E402

CASE_LIMIT_S = 60  # a case takes milliseconds
SHRINK_S = 45


def load_known(prop):
    keys = {}
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}":
                    keys[parts[2].removeprefix("key=")] = parts[3].strip()
    return keys


def main():
    prop, config, shard, seed, scale, budget, out = sys.argv[1:8]
    replay = sys.argv[9] if len(sys.argv) > 9 else None
    shard, seed, scale, budget = int(shard), int(seed), float(scale), float(budget)
    core.CONFIG = config
    res = {
        "prop": prop, "config": config, "shard": shard, "evaluations": 0, "nontrivial": 0,
        "hashes": [], "tags": {}, "samples": [], "violation": None, "error": None,
        "known": [], "subs": {}, "skipped": 0,
    }
    known = load_known(prop)
    tags = collections.Counter()
    hashes = set()
    t0 = time.monotonic()
    try:
        mod = next(m for m, ps in MODULES.items() if prop in ps.split())
        try:
            import pymap3d  # noqa: F401
        except Exception as e:  # noqa: BLE001
            res["violation"] = {
                "sub": "import", "case": {}, "config": config,
                "msg": f"import pymap3d in configuration {config} raised {type(e).__name__}: {e}",
            }
            return finish(res, tags, hashes, out, t0)
        __import__(f"props.{mod}")
        subs = [s for s in core.REGISTRY.get(prop, []) if config in s.cfgs]

        def run_case(s, case):
            rec = Rec(known)
            running["case"] = case
            res["evaluations"] += 1
            try:
                signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
                s.check(case, rec)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                for k in rec.known_seen:
                    if k not in res["known"]:
                        res["known"].append(k)
            d = res["subs"].setdefault(s.name, [0, 0])
            d[0] += 1
            if not rec.trivial:
                d[1] += 1
                h = hashlib.sha1((s.name + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:16]
                if h not in hashes:
                    hashes.add(h)
                    if len(hashes) % 97 == 1 and len(res["samples"]) < 12:
                        res["samples"].append({"check": s.name, "config": config, "case": case})
            tags.update(rec.tags)

        running = {}

        def alarm(*_):
            raise Hang(f"the case did not finish within {CASE_LIMIT_S} s")

        signal.signal(signal.SIGALRM, alarm)

        def record(s, case, e):
            res["violation"] = {"sub": s.name, "case": case, "config": config, "msg": str(e)[:3000]}

        if replay:
            r = json.load(open(replay))
            if r["check"] == "import":
                return finish(res, tags, hashes, out, t0)
            s = next((s for s in core.REGISTRY[prop] if s.name == r["check"]), None)
            if s is None:
                raise KeyError(f"no check {r['check']}")
            try:
                run_case(s, r["case"])
            except (Violation, Hang) as e:
                record(s, r["case"], e)
            return finish(res, tags, hashes, out, t0)

        # corner cases listed by hand come first
        for s in subs:
            for case in s.fixed:
                try:
                    run_case(s, case)
                except (Violation, Hang) as e:
                    record(s, case, e)
                    return finish(res, tags, hashes, out, t0)

        import hypothesis as hy

        for si, s in enumerate(subs):
            left = max(0.0, budget - (time.monotonic() - t0))
            deadline = time.monotonic() + left / (len(subs) - si) * 1.5 + 1.0
            n = max(1, int(s.n * scale))
            last = {}

            strat = s.strategy() if callable(s.strategy) and not hasattr(s.strategy, "example") else s.strategy

            def body(case):
                if "fail" not in last and time.monotonic() > deadline:
                    res["skipped"] += 1
                    return
                if "fail" in last and time.monotonic() > last["since"] + SHRINK_S and case != last["fail"][0]:
                    return  # long enough spent on a smaller failure
                try:
                    run_case(s, case)
                except Violation as e:
                    last["fail"] = (case, e)
                    last.setdefault("since", time.monotonic())
                    raise

            test = hy.given(strat)(body)
            test = hy.settings(
                max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                suppress_health_check=list(hy.HealthCheck), print_blob=False,
                phases=[hy.Phase.generate, hy.Phase.shrink], derandomize=False,
            )(test)
            h = hashlib.sha1(f"{seed}/{prop}/{s.name}/{config}/{shard}".encode()).hexdigest()
            test = hy.seed(int(h[:12], 16))(test)
            try:
                test()
            except Violation as e:
                record(s, last["fail"][0], last["fail"][1])
                break
            except Hang as e:
                record(s, running["case"], e)
                break
            except BaseException as e:  # noqa: BLE001
                if "fail" in last and type(e).__name__ in ("Flaky", "FlakyFailure", "ExceptionGroup", "BaseExceptionGroup"):
                    record(s, last["fail"][0], f"(not the same on a second execution) {last['fail'][1]}")
                    break
                raise
    except Exception:  # noqa: BLE001
        res["error"] = traceback.format_exc()
    finish(res, tags, hashes, out, t0)


def finish(res, tags, hashes, out, t0):
    res["tags"] = dict(tags)
    res["margins"] = core.MARGINS
    res["hashes"] = sorted(hashes)
    res["wall"] = time.monotonic() - t0
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
