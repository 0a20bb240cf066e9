"""C44: ellipsoid objects and their caches"""
import copy
import math
import pickle

import mpmath
from hypothesis import strategies as st

import pymap3d as pm
from pymap3d import ellipsoid as em
from pymap3d import karney

from harness import core
from harness import gens as g
from harness.core import Violation, bounded, call, require, sub

np = core.np
NAMES = g.names()
EPS = 2.220446049250313e-16

# published defining constants: a and b, or a and 1/f (metres)
PUBLISHED = {
    "maupertuis": (6397300.0, None, 191.0), "plessis": (6376523.0, None, 308.64), "everest1830": (6377299.365, 6356098.359, None),
    "everest1830m": (6377304.063, None, 300.8017), "everest1967": (6377298.556, None, 300.8017), "airy": (6377563.396, 6356256.909, None),
    "bessel": (6377397.155, None, 299.1528128), "clarke1866": (6378206.4, 6356583.8, None), "clarke1878": (6378190.0, 6356456.0, None),
    "clarke1860": (6378249.145, None, 293.465), "helmert": (6378200.0, None, 298.3), "hayford": (6378388.0, None, 297.0),
    "international1924": (6378388.0, None, 297.0), "krassovsky1940": (6378245.0, None, 298.3), "wgs66": (6378145.0, None, 298.25),
    "australian": (6378160.0, None, 298.25), "international1967": (6378157.5, 6356772.2, None), "grs67": (6378160.0, None, 298.247167427),
    "sa1969": (6378160.0, None, 298.25), "wgs72": (6378135.0, None, 298.26), "grs80": (6378137.0, None, 298.257222101),
    "wgs84": (6378137.0, None, 298.257223563), "wgs84_mean": (6371008.7714, 6371008.7714, None), "iers1989": (6378136.0, None, 298.257),
    "pz90.11": (6378136.0, None, 298.25784), "iers2003": (6378136.6, None, 298.25642), "gsk2011": (6378136.5, None, 298.2564151),
}
# other worlds: published equatorial and polar radii (kilometres), any of the determinations in use
WORLDS = {
    "mercury": [(2440.53, 2438.26), (2439.7, 2439.7)], "venus": [(6051.8, 6051.8)], "moon": [(1738.1, 1736.0), (1737.4, 1737.4)],
    "mars": [(3396.19, 3376.20), (3396.9, 3396.9 * math.sqrt(1 - 0.1105**2))],
    "jupiter": [(71492.0, 66854.0), (71492.0, 71492.0 * math.sqrt(1 - 0.3574**2))], "jupyter": [(71492.0, 66854.0), (71492.0, 71492.0 * math.sqrt(1 - 0.3574**2))],
    "saturn": [(60268.0, 54364.0)], "uranus": [(25559.0, 24973.0)], "neptune": [(24764.0, 24341.0)], "pluto": [(1188.3, 1188.3), (1195.0, 1195.0)],
    "io": [(1829.4, 1815.7), (1821.49, 1821.49)],
}
MODERN = {"wgs84": 1e-5, "grs80": 1e-4, "wgs72": 1e-3}
COARSE = {"iers2003": 30.0}  # the listed polar axis is rounded to 0.1 m of another flattening


def consistent(what, e, a, b):
    require(float(e.semimajor_axis) == a and float(e.semiminor_axis) == b, f"{what}: axes {e.semimajor_axis!r} {e.semiminor_axis!r}, want {a!r} {b!r}")
    require(a >= b > 0, f"{what}: axes {a!r} {b!r}")
    A, B = mpmath.mpf(a), mpmath.mpf(b)
    f = (A - B) / A
    n = (A - B) / (A + B)
    ecc = mpmath.sqrt(2 * f - f * f)
    bounded(abs(e.flattening - f), 4 * EPS * float(f), f"{what}: flattening {e.flattening!r}, want {float(f)!r}", "C44 f")
    bounded(abs(e.thirdflattening - n), 4 * EPS * float(n), f"{what}: third flattening {e.thirdflattening!r}, want {float(n)!r}", "C44 n")
    bounded(abs(e.eccentricity - ecc), 4 * EPS * float(ecc), f"{what}: eccentricity {e.eccentricity!r}, want {float(ecc)!r}", "C44 e")
    require(0 <= e.flattening < 1 and 0 <= e.eccentricity <= 1, f"{what}: f {e.flattening!r}, e {e.eccentricity!r}")


@sub("C44", st.fixed_dictionaries(dict(name=st.sampled_from(NAMES))), n=45, fixed=[{"name": n} for n in NAMES])
def built_in(c, rec):
    n = c["name"]
    e = call(pm.Ellipsoid.from_name, n)
    m = pm.Ellipsoid.models[n]
    consistent(f"from_name({n!r})", e, float(m["a"]), float(m["b"]))
    require(e.model == n and e.name == m["name"] and isinstance(e.name, str) and e.name != "", f"from_name({n!r}): model {e.model!r}, name {e.name!r}")
    require(isinstance(e, pm.Ellipsoid), f"from_name({n!r}) is a {type(e).__name__}")
    f = call(pm.Ellipsoid, float(m["a"]), float(m["b"]), name=m["name"], model=n)
    require(e == f, f"from_name({n!r}) {e} is not {f}")
    if n == "jupyter":
        j = call(pm.Ellipsoid.from_name, "jupiter")
        require((e.semimajor_axis, e.semiminor_axis) == (j.semimajor_axis, j.semiminor_axis), "jupyter is not jupiter")
    if n in PUBLISHED:
        a, b, rf = PUBLISHED[n]
        b = b if b is not None else a * (1 - 1 / rf)
        tol = MODERN.get(n, COARSE.get(n, 0.15))
        require(e.semimajor_axis == a and abs(e.semiminor_axis - b) <= tol, f"{n}: axes {e.semimajor_axis!r} {e.semiminor_axis!r}, published {a!r} {b!r}")
    elif not e.semimajor_axis > 5e5:
        # every listed body is larger than that; lengths are metres throughout the package
        if n == "io" and (e.semimajor_axis, e.semiminor_axis) == (1829.7, 1815.8):
            rec.known("io-axes-in-kilometres", f"{n}: axes {e.semimajor_axis!r} {e.semiminor_axis!r} are not in metres")
        else:
            raise Violation(f"{n}: axes {e.semimajor_axis!r} {e.semiminor_axis!r} are not in metres")
    elif n in WORLDS:
        d = min(max(abs(e.semimajor_axis - 1e3 * a), abs(e.semiminor_axis - 1e3 * b)) for a, b in WORLDS[n])
        require(d <= 1e3, f"{n}: axes {e.semimajor_axis!r} {e.semiminor_axis!r}, published (km) {WORLDS[n]}")
    require(call(em.resolve_ellipsoid, e) is e and call(em.resolve_ellipsoid, None) == call(pm.Ellipsoid.from_name, "wgs84"), "resolve_ellipsoid")
    rec.tag(n)


AXIS = st.one_of(st.floats(1e-3, 1e12), st.integers(1, 10**8), g.logmag(-3, 11), st.just(6378137.0))


@sub("C44", st.fixed_dictionaries(dict(a=AXIS, r=st.one_of(st.floats(1e-6, 1), st.sampled_from([1.0, 0.5, 1 - 1 / 298.257223563, 1 - 2**-53, 1 - 1e-9, 1e-3])), ulps=st.integers(1, 3), more=st.floats(1e-12, 3), kind=st.sampled_from(["float", "int", "np"]))), n=150)
def custom(c, rec):
    a = float(c["a"])
    b = a * c["r"]
    if c["kind"] == "int" and b >= 2:
        a, b = int(a), int(b)
    elif c["kind"] == "np" and np is not None:
        a, b = np.float64(a), np.float64(b)
    e = call(pm.Ellipsoid, a, b)
    consistent(f"Ellipsoid({a!r}, {b!r})", e, float(a), float(b))
    e2 = call(pm.Ellipsoid, semimajor_axis=a, semiminor_axis=b, name="mine", model="own")
    consistent(f"Ellipsoid({a!r}, {b!r}, name, model)", e2, float(a), float(b))
    require(e2.name == "mine" and e2.model == "own", f"name {e2.name!r} model {e2.model!r}")
    require(call(pm.Ellipsoid, a, b) == e, "equal axes give unequal ellipsoids")
    # derived constants given by the caller are kept, those not given still follow from the axes
    derived = ("flattening", "thirdflattening", "eccentricity")
    for k in range(1, 8):
        given = {w: getattr(e, w) for i, w in enumerate(derived) if k >> i & 1}
        e3 = call(pm.Ellipsoid, a, b, **given)
        consistent(f"Ellipsoid({a!r}, {b!r}, {given})", e3, float(a), float(b))
        require(all(getattr(e3, w) == v for w, v in given.items()), f"Ellipsoid({a!r}, {b!r}, {given}): {e3}")
    # longer than wide: rejected
    p = float(a)
    for _ in range(c["ulps"]):
        p = math.nextafter(p, math.inf)
    for polar in (p, float(a) * (1 + c["more"])):
        if polar <= float(a):
            continue
        try:
            q = pm.Ellipsoid(float(a), polar)
        except (AssertionError, ValueError):
            continue
        except Exception as x:  # noqa: BLE001
            raise Violation(f"Ellipsoid({a!r}, {polar!r}) raised {x!r}") from None
        raise Violation(f"Ellipsoid({a!r}, {polar!r}) is prolate and was accepted: {q}")
    rec.tag(c["kind"], "sphere" if e.flattening == 0 else "oblate")


@sub("C44", st.fixed_dictionaries(dict(word=st.one_of(st.text(max_size=8), st.sampled_from(NAMES).flatmap(lambda n: st.sampled_from([n.upper(), n + " ", " " + n, n[:-1], n + "0", n.title()]))), before=st.sampled_from(["", "wgs84", "clear"]))), n=80)
def unknown(c, rec):
    w = c["word"]
    if w in pm.Ellipsoid.models:
        rec.trivial = True
        return
    if c["before"] == "clear":
        em.clear_ellipsoid_caches()
    elif c["before"]:
        pm.Ellipsoid.from_name(c["before"])
    for _ in range(2):
        core.must_raise(KeyError, pm.Ellipsoid.from_name, w)
    require(w not in pm.Ellipsoid.models, f"{w!r} became a model")


class Own(pm.Ellipsoid):
    """a caller's own kind of ellipsoid"""


@sub("C44", st.fixed_dictionaries(dict(spec=g.ellspec(0.12, amin=5, amax=8), p=st.lists(st.floats(-70, 70), min_size=4, max_size=4), fn=st.sampled_from(["inverse", "direct", "ecef", "geodetic"]), how=st.sampled_from(["copy", "deepcopy", "pickle", "init", "own"]))), n=60)
def copies(c, rec):
    """a copy is the same ellipsoid, and a different object"""
    e = build(c["spec"])
    before = dict(vars(e))
    how = c["how"]
    if how == "own":
        d = call(Own.from_name, e.model) if isinstance(c["spec"], str) else call(Own, *c["spec"])
        require(isinstance(d, Own) and vars(d) == before, f"own ellipsoid {c['spec']}: {d!r}")
    elif how == "init":
        d = call(pm.Ellipsoid, e.semimajor_axis, e.semiminor_axis, e.name, e.model)
    else:
        d = call({"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[how], e)
    if how != "own":
        require(type(d) is pm.Ellipsoid and d is not e and d == e and vars(d) == before, f"{how} of {e!r}: {d!r}")
    require(answers(d, c) == answers(e, c), f"{how} of {e!r} answers otherwise: {c}")
    if e.semiminor_axis < e.semimajor_axis:
        r = call(pm.Ellipsoid, e.semimajor_axis, e.semimajor_axis, e.name, e.model)
        require(r != e and r.flattening == 0, f"{r!r} == {e!r}")
    # what is done to the copy stays there
    d.__init__(2.0, 1.0)
    consistent(f"{how} of {e!r}, made anew", d, 2.0, 1.0)
    require(vars(e) == before and (not isinstance(c["spec"], str) or vars(call(pm.Ellipsoid.from_name, c["spec"])) == before), f"{e!r}, before {before}")
    rec.tag(how, c["fn"])


# --- histories


def answers(e, q):
    """what geodesic calls give on an ellipsoid"""
    f = q["fn"]
    p = q["p"]
    kw = {} if e is None else {"ell": e}
    if f == "inverse":
        r = karney.geodesic_inverse(*p, **kw)
    elif f == "direct":
        r = karney.geodesic_direct(p[0], p[1], p[2] * 2, 1e4 * abs(p[3]), **kw)
    elif f == "area":
        r = karney.geodesic_area([p[0], p[2], 0.5 * (p[0] + p[2]) + 1], [p[1], p[3], p[1] + 20], **kw)
    elif f == "line":
        x, y = karney.geodesic_line(*p, npts=3, **kw)
        r = (*x, *y)
    elif f == "ecef":
        r = pm.geodetic2ecef(p[0], p[1], 100 * p[2], **kw)
    else:
        r = pm.ecef2geodetic(1e5 * p[0] + 6e6, 1e5 * p[1], 1e5 * p[2], **kw)
    return tuple(float(v).hex() for v in r)


def build(spec):
    if spec is None:
        return None
    return pm.Ellipsoid.from_name(spec) if isinstance(spec, str) else pm.Ellipsoid(*spec)


def perform(q):
    return answers(build(q["spec"]), q)


_zygote = None


def fresh(q):
    global _zygote
    if _zygote is None:
        from harness.fresh import Zygote

        _zygote = Zygote(perform)
    kind, r = _zygote(q)
    if kind != "ok":
        raise Violation(f"{q} in a fresh process: {r}")
    return r


def specs():
    base = g.ellspec(0.12, amin=5, amax=8)
    related = st.builds(
        lambda s, how: how(*g.ab(s)), base,
        st.sampled_from([lambda a, b: [a, a - (a - b) / 2], lambda a, b: [2 * a, 2 * b], lambda a, b: [a, b], lambda a, b: [a, a], lambda a, b: [a + (a - b), a]]))
    return st.lists(st.one_of(base, related, st.just(None)), min_size=1, max_size=4)


def strategy():
    P = st.tuples(st.floats(-80, 80), st.floats(-170, 170), st.floats(-80, 80), st.floats(-170, 170)).map(list)
    geo = st.fixed_dictionaries(dict(op=st.sampled_from(["call", "call", "temp", "again"]), on=st.integers(0, 3), fn=st.sampled_from(["inverse", "direct", "area", "line", "ecef", "geodetic"]), p=P))
    other = st.one_of(
        st.fixed_dictionaries(dict(op=st.just("clear"))), st.fixed_dictionaries(dict(op=st.just("from_name"), name=st.sampled_from(NAMES))),
        st.fixed_dictionaries(dict(op=st.just("remake"), on=st.integers(0, 3), to=st.integers(0, 3))), st.fixed_dictionaries(dict(op=st.just("default"), fn=st.sampled_from(["inverse", "ecef"]), p=P)),
        st.fixed_dictionaries(dict(op=st.just("junk"), n=st.integers(1, 30))))
    return st.fixed_dictionaries(dict(specs=specs(), ops=st.lists(st.one_of(geo, geo, other), min_size=2, max_size=10)))


@sub("C44", strategy, n=130)
def history(c, rec):
    """any interleaving answers like a process that has done nothing else"""
    spec = [s for s in c["specs"]]
    objs = [build(s) for s in spec]
    names = {}
    for k, op in enumerate(c["ops"]):
        what = f"step {k} {op} with ellipsoids {spec}"
        o = op["op"]
        if o == "clear":
            call(em.clear_ellipsoid_caches)
        elif o == "junk":
            for i in range(op["n"]):
                karney.geodesic_inverse(1.0, 2.0, 3.0 + i, 4.0, ell=pm.Ellipsoid(6e6 + i, 5.9e6))
        elif o == "from_name":
            e = call(pm.Ellipsoid.from_name, op["name"])
            m = pm.Ellipsoid.models[op["name"]]
            require((e.model, e.name, e.semimajor_axis, e.semiminor_axis) == (op["name"], m["name"], m["a"], m["b"]), f"{what}: {e}")
            if op["name"] in names:
                require(names[op["name"]] == vars(e), f"{what}: {vars(e)}, before {names[op['name']]}")
            names[op["name"]] = dict(vars(e))
        elif o == "remake":
            # an object of the caller's own takes other axes
            i, j = op["on"] % len(spec), op["to"] % len(spec)
            if isinstance(spec[i], list) and spec[j] is not None:
                a, b = g.ab(spec[j])
                objs[i].__init__(a, b)
                spec[i] = [a, b]
        elif o == "default":
            q = dict(op, spec=None)
            require(answers(None, q) == fresh(q), f"{what}: {answers(None, q)}, a fresh process gives {fresh(q)}")
        else:
            i = op["on"] % len(spec)
            q = dict(op, spec=spec[i])
            e = build(spec[i]) if o == "temp" else objs[i]
            before = dict(vars(e)) if e is not None else None
            try:
                r = answers(e, q)
                if o == "again":
                    require(answers(e, q) == r, f"{what}: two answers")
            except Violation:
                raise
            except Exception as x:  # noqa: BLE001
                raise Violation(f"{what} raised {x!r}") from None
            want = fresh(q)
            require(r == want, f"{what}: {[float.fromhex(x) for x in r]}, a fresh process gives {[float.fromhex(x) for x in want]}")
            require(before == (dict(vars(e)) if e is not None else None), f"{what} changed the ellipsoid")
            del e
    rec.tag(*[op["op"] for op in c["ops"]])
    if not any(op["op"] in ("call", "temp", "again", "default") for op in c["ops"]):
        rec.trivial = True
