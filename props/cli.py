"""C42: the command line prints what the library call returns"""
import contextlib
import functools
import inspect
import io
import json
import math
import os
import subprocess
import sys
from datetime import datetime

from hypothesis import strategies as st

import pymap3d as pm
import pymap3d.__main__ as cli

from harness import core
from harness import gens as g
from harness.core import Violation, require, sub

np = core.np

COMMANDS = {}
for _n in sorted(pm.__all__):
    _o = getattr(pm, _n, None)
    if callable(_o) and not inspect.isclass(_o):
        COMMANDS[_n] = inspect.signature(_o)
TIME = {"t", "time"}
NUMBER = [
    st.floats(-100, 100), st.integers(-80, 80).map(float), g.signed(g.logmag(-12, 8)), st.just(0.0),
]


def number_for(p):
    """values that make sense for a parameter, by its name"""
    if p in TIME:
        return g.iso((1975, 1, 1), (2026, 1, 1))
    if p == "Jdate":
        return st.floats(2415020.5, 2488070.5)
    if p in ("n1s", "n2s", "n3s"):
        return st.lists(st.floats(-1, 1), min_size=3, max_size=3)
    if "lat" in p.lower():
        return g.lat()
    if "lon" in p:
        return g.lon()
    if p in ("el", "elev", "el_deg", "dec_deg"):
        return g.el()
    if p in ("az", "az_deg", "heading", "ra_deg", "yaw", "pitch", "roll"):
        return g.az_wide()
    if p in ("x", "y", "z"):
        return st.one_of(st.floats(-1e7, 1e7), st.sampled_from([0.0, 6378137.0, -42164000.0]))
    if p in ("radius", "geocentric_distance"):
        return st.floats(6.3e6, 7e6)
    if p == "fraction":
        return st.floats(0, 1)
    if p in ("srange", "slantRange"):
        return st.one_of(g.logmag(-3, 7), st.just(0.0))
    if p in ("xp", "yp"):
        return st.floats(-1e-5, 1e-5)
    if p == "delta_ut1":
        return st.floats(-0.9, 0.9)
    if p[:1] == "n" and p[1:2] in "12345p" and len(p) > 1:
        return st.floats(-1, 1)
    return st.one_of(NUMBER)


def spelled(x, how):
    """a number as a user may type it"""
    if how == "int" and x == int(x) and str(x)[0:2] != "-0" and abs(x) < 1e15:
        return str(int(x))
    if how == "fixed" and 1e-4 < abs(x) < 1e15:
        return f"{x:.25f}"
    if how == "e":
        return f"{x:.17e}"
    if how == "plus" and str(x)[0] != "-":
        return "+" + repr(abs(x))
    return repr(x)


def options(name):
    d = {}
    for p in COMMANDS[name].parameters.values():
        if p.name == "ell" or p.default is inspect.Parameter.empty:
            continue
        if isinstance(p.default, bool):
            d[p.name] = st.sampled_from([None, None, True, False])
        elif p.name == "frame":
            d[p.name] = st.sampled_from([None, "ned", "enu", "sez", "nwu", "xyz"])
        elif p.name == "sequence":
            d[p.name] = st.sampled_from([None, None, None, "zyx", "xyz"])
        else:
            d[p.name] = st.one_of(st.none(), st.none(), number_for(p.name))
    return st.fixed_dictionaries(d)


def strategy(names=None):
    @functools.lru_cache(None)
    def mk(name):
        need = [p.name for p in COMMANDS[name].parameters.values() if p.default is inspect.Parameter.empty]
        return st.fixed_dictionaries(dict(
            cmd=st.just(name), vals=st.fixed_dictionaries({p: number_for(p) for p in need}), opts=options(name),
            ell=st.sampled_from([None, None] + g.names()), output=st.sampled_from([None, "text", "json"]), precision=st.sampled_from([None, None, 0, 1, 3, 9, 15]),
            spell=st.sampled_from(["repr", "repr", "int", "fixed", "e", "plus"]), many=st.sampled_from([0, 0, 0, 0, 2, 3]), order=st.booleans(), equals=st.booleans()))

    return st.sampled_from(sorted(names or COMMANDS)).flatmap(mk)


def command_line(c):
    """(argv, keyword arguments of the library call)"""
    sig = COMMANDS[c["cmd"]]
    head, opts, pos, kw = [], [], [], {}
    if c["ell"]:
        head += ["--ellipsoid", c["ell"]]
    if c["output"]:
        head += ["--output", c["output"]]
    if c["precision"] is not None:
        head += ["--precision", str(c["precision"])]
    numeric = [p for p in c["vals"] if p not in TIME and not isinstance(c["vals"][p], list)]
    several = np is not None and c["many"] and c["cmd"] not in ("greenwichsrt", "datetime2sidereal")
    for p in [q for q in sig.parameters if q in c["vals"]]:
        v = c["vals"][p]
        if p in TIME:
            pos.append(v)
            kw[p] = g.dt(v)
        elif isinstance(v, list):
            pos.append(",".join(spelled(x, c["spell"]) for x in v))
            kw[p] = list(v)
        elif several and p in numeric:
            vs = [v * (1 - 0.25 * i) for i in range(c["many"])]
            pos.append(",".join(spelled(x, c["spell"]) for x in vs))
            kw[p] = vs
        else:
            pos.append(spelled(v, c["spell"]))
            kw[p] = v
    for p, v in c["opts"].items():
        if v is None:
            continue
        flag = "--" + p.replace("_", "-")
        if isinstance(v, bool):
            opts.append(flag if v else "--no-" + p.replace("_", "-"))
        elif isinstance(v, str):
            opts += [flag, v]
        elif c["equals"]:
            opts.append(f"{flag}={spelled(v, c['spell'])}")
        else:
            opts.append(f"{flag}={v!r}")
        kw[p] = v
    if "ell" in sig.parameters:
        kw["ell"] = pm.Ellipsoid.from_name(c["ell"] or "wgs84")
    pos = ["--"] + pos if any(x.startswith("-") for x in pos) or c["order"] else pos
    argv = head + [c["cmd"]] + opts + pos
    return argv, kw


def run_main(argv):
    """(exception type or None, standard output)"""
    out = io.StringIO()
    old = sys.argv
    sys.argv = ["pymap3d"] + list(argv)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()) as err:
            cli.main()
    except SystemExit as e:
        return ("exit", e.code, err.getvalue()[-300:]), out.getvalue()
    except Exception as e:  # noqa: BLE001
        return type(e), out.getvalue()
    finally:
        sys.argv = old
    return None, out.getvalue()


def plain(r):
    """nested lists of floats (or strings)"""
    if np is not None and isinstance(r, np.ndarray):
        return plain(r.tolist())
    if isinstance(r, (tuple, list)):
        return [plain(x) for x in r]
    if isinstance(r, datetime):
        return r
    return float(r)


def leaves(r):
    if isinstance(r, list):
        for x in r:
            yield from leaves(x)
    else:
        yield r


def same(x, y):
    return x == y or (math.isnan(x) and math.isnan(y))


def judge(argv, kw, c, status, text):
    fn = getattr(pm, c["cmd"])
    what = "pymap3d " + " ".join(argv)
    try:
        want = plain(fn(**kw))
        failed = None
    except Exception as e:  # noqa: BLE001
        failed = type(e)
    if failed is not None:
        require(status is failed, f"{what}: {status} and {text!r}, the library call raises {failed.__name__}")
        require(text == "", f"{what}: printed {text!r} although the call fails")
        return "raises " + failed.__name__
    require(status is None, f"{what}: ended with {status}, the library call returns {want!r}")
    if c["output"] == "json":
        try:
            got = json.loads(text)
        except ValueError as e:
            raise Violation(f"{what}: {text!r} is not JSON: {e}") from None
        if isinstance(want, datetime):
            require(got == want.isoformat(), f"{what}: {got!r}, want {want.isoformat()!r}")
            return "json"

        def eq(p, q):
            if isinstance(q, list):
                return isinstance(p, list) and len(p) == len(q) and all(eq(x, y) for x, y in zip(p, q))
            return isinstance(p, (int, float)) and not isinstance(p, bool) and same(float(p), q)

        require(eq(got, want), f"{what}: JSON {got!r}, the library call returns {want!r}")
        return "json"
    require(text.endswith("\n") and text.count("\n") == 1, f"{what}: printed {text!r}, not one line")
    if isinstance(want, datetime):
        require(text.strip() == str(want), f"{what}: {text!r}, want {want}")
        return "text"
    shape = "".join(ch for ch in text if ch in "()[]")
    while "()" in shape or "[]" in shape:
        shape = shape.replace("()", "").replace("[]", "")
    require(shape == "", f"{what}: the brackets of {text!r} do not match")
    words = text.translate(str.maketrans("()[],", "     ")).split()
    nums = list(leaves(want))
    require(len(words) == len(nums), f"{what}: printed {text!r}, the library call returns {want!r}")
    for w, x in zip(words, nums):
        try:
            v = float(w)
        except ValueError:
            raise Violation(f"{what}: {w!r} in {text!r} is not a number") from None
        if c["precision"] is None or not math.isfinite(x):
            require(same(v, x), f"{what}: printed {w}, the library call returns {x!r}")
            continue
        p = c["precision"]
        digits = len(w.split(".")[1]) if "." in w else 0
        require(digits == p and "e" not in w.lower(), f"{what}: {w} does not have {p} decimals")
        require(abs(v - x) <= 0.5 * 10.0**-p + 4e-16 * abs(x), f"{what}: {w} for {x!r} with {p} decimals")
    return "text" if c["precision"] is None else "precision"


@sub("C42", strategy, n=110)
def prints_the_result(c, rec):
    argv, kw = command_line(c)
    status, text = run_main(argv)
    how = judge(argv, kw, c, status, text)
    rec.tag(c["cmd"], how, "several values" if any(isinstance(v, list) for v in kw.values()) else "one value")
    if how.startswith("raises"):
        rec.trivial = True


WORDS = ["wgs85", "WGS 84", "", "earth2", "--", "0"]


@sub("C42", st.fixed_dictionaries(dict(word=st.sampled_from(WORDS), cmd=st.sampled_from(sorted(COMMANDS)), drop=st.integers(0, 3))), n=25)
def usage_errors(c, rec):
    """unknown ellipsoids, formats and commands, and missing arguments, print nothing and exit with 2"""
    need = [p.name for p in COMMANDS[c["cmd"]].parameters.values() if p.default is inspect.Parameter.empty]
    vals = ["2020-01-01" if p in TIME else "1" for p in need]
    for argv in (["--ellipsoid", c["word"], c["cmd"]] + vals, ["--output", c["word"], c["cmd"]] + vals, ["--precision", "x", c["cmd"]] + vals,
                 [c["cmd"] + "x"] + vals, [c["cmd"]] + vals[:-1], [c["cmd"]] + vals + ["1"], []):
        status, text = run_main(argv)
        require(isinstance(status, tuple) and status[1] == 2 and text == "", f"pymap3d {' '.join(argv)}: {status}, printed {text!r}")
    status, text = run_main(["--help"])
    require(isinstance(status, tuple) and status[1] in (0, None), f"--help: {status}")
    require(all(n in text for n in COMMANDS), f"--help does not list {[n for n in COMMANDS if n not in text]}")


@sub("C42", strategy, n=2)
def as_a_process(c, rec):
    """python -m pymap3d in a process of its own"""
    argv, kw = command_line(c)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    boot = f"import sys; sys.path.insert(0, {here!r}); from harness import boot; boot.install(); import runpy; runpy.run_module('pymap3d', run_name='__main__', alter_sys=True)"
    r = subprocess.run([sys.executable, "-B", "-c", boot, *argv], capture_output=True, text=True, timeout=50)
    status = None
    if r.returncode:
        last = (r.stderr.strip().splitlines() or [""])[-1]
        name = last.split(":")[0].split(".")[-1]
        status = getattr(__builtins__, name, None) if not isinstance(__builtins__, dict) else __builtins__.get(name)
        status = status or (r.returncode, last)
    how = judge(argv, kw, c, status, r.stdout)
    rec.tag(c["cmd"], "process", how)
