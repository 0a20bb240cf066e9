"""Evaluates registry functions in another interpreter: one JSON request per line."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import boot  # noqa: E402

boot.install()
from harness import core, gens as g, registry as R  # noqa: E402
from harness.core import fl, flat  # noqa: E402


def answer(q):
    f = R.TIMED[q["fn"]] if q.get("t") else R.ALL[q["fn"]]
    args = list(q["vals"]) + ([g.dt(q["t"])] if q.get("t") else [])
    kw = f.kw(g.mk_ell(q["ell"]) if f.ell and q["ell"] else None, q["deg"])
    try:
        out = flat(f.fn(*args, **kw))
    except Exception as e:  # noqa: BLE001
        return {"err": type(e).__name__, "msg": str(e)[:200]}
    try:
        return {"ok": [fl(x, f.name) for x in out]}
    except core.Violation as e:
        return {"bad": str(e)}


def serve():
    for line in sys.stdin:
        try:
            r = answer(json.loads(line))
        except Exception as e:  # noqa: BLE001
            r = {"broken": f"{type(e).__name__}: {e}"}
        sys.stdout.write(json.dumps(r) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    serve()
