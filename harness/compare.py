"""Comparison of two evaluations of the same function that may differ by rounding.

Results are compared to a strict tolerance per kind of result.  Where that fails the function is
evaluated at arguments moved by a few units of rounding error: what the function's own conditioning
allows is accepted, anything more is a violation.
"""
import math

from . import core
from . import registry as R
from .core import Violation, fl, flat

EPS = 2.220446049250313e-16


def scalars(f, vals, kw):
    out = flat(f.fn(*vals, **kw))
    if len(out) != len(f.outs):
        raise Violation(f"{f.name}{tuple(vals)} {kw}: {len(out)} results, {len(f.outs)} documented")
    return [fl(x, f.name) for x in out]


def turn(kind, deg):
    if kind in ("rot1", "el1"):
        return 2 * math.pi
    if kind in ("azd", "lond"):
        return 360.0
    if kind in R.WRAP:
        return 360.0 if deg else 2 * math.pi
    return None


def diff(kind, x, y, deg):
    if math.isnan(x) or math.isnan(y):
        return 0.0 if math.isnan(x) and math.isnan(y) else math.inf
    if x == y:
        return 0.0
    if math.isinf(x) or math.isinf(y):
        return math.inf
    t = turn(kind, deg)
    if t:
        return abs(math.remainder(x - y, t))
    return abs(x - y)


def sizes(f, vals, a):
    return max([a if f.ell else 0.0] + [abs(v) for k, v in zip(f.ins, vals) if k in R.LEN])


def angles(f, vals, deg):
    return max([1.0] + [abs(v) if not (deg and f.deg) else abs(math.radians(v)) for k, v in zip(f.ins, vals) if k in R.ANG]
               + [abs(math.radians(v)) for k, v in zip(f.ins, vals) if k in R.DEGREES])


ITERATED = 4e-12  # Vincenty's iterations stop at 1e-12 rad


def iterated(f):
    return f.name.startswith("vincenty.") or f.name == "rsphere.euler"


def strict(f, kind, want, vals, a, deg, ulps=16):
    if iterated(f):
        ulps = max(ulps, ITERATED / EPS)
    L = angles(f, vals, deg)
    if kind in R.ANG or kind in ("rot1", "el1"):
        full = math.degrees(1) if deg and f.deg and kind in R.ANG else 1.0
        s = abs(want) if kind == "psi" else 0.0
        return ulps * EPS * (full * 3 * L + s)
    if kind in R.DEGREES:
        return ulps * EPS * 60 * 3 * L
    if kind == "jd":
        return 1e-9
    if kind in ("n1", "n2", "n3"):
        return ulps * EPS * L
    if kind == "area":
        return ulps * EPS * a * a
    return ulps * EPS * L * max(sizes(f, vals, a), abs(want) if math.isfinite(want) else 0.0, 1e-300)


def nudged(f, vals, a, deg, k=2.0):
    """argument lists moved by a few rounding errors"""
    if iterated(f):
        k = max(k, ITERATED / EPS)
    unit = 57.0 if deg and f.deg else 1.0
    big = sizes(f, vals, a)
    for i, kind in enumerate(f.ins):
        for s in (k, -k):
            v = list(vals)
            if kind in R.ANG:
                d = EPS * max(abs(v[i]), unit)
                v[i] += s * d
                if kind in ("lat", "el"):
                    top = 90.0 if deg and f.deg else math.pi / 2
                    v[i] = max(-top, min(top, v[i]))
                if kind == "tilt":
                    v[i] = max(0.0, v[i])
            elif kind in R.DEGREES:
                v[i] += s * EPS * max(abs(v[i]), 57.0)
                if kind in ("latd", "eld"):
                    v[i] = max(-90.0, min(90.0, v[i]))
            elif kind in R.LEN:
                v[i] += s * EPS * max(abs(v[i]), big)
                if kind in ("rng", "rad"):
                    v[i] = max(0.0, v[i])
            else:
                v[i] += s * EPS
            yield v


def latitude_of(f, out, i, deg):
    """the latitude result that goes with longitude result i, in radians"""
    lats = [j for j, k in enumerate(f.outs) if k == "lat"]
    lons = [j for j, k in enumerate(f.outs) if k == "lon"]
    if len(lats) != len(lons):
        return None
    x = out[lats[lons.index(i)]]
    return math.radians(x) if deg and f.deg else x


def noise(f, kind, vals, want, a, deg):
    """what rounding does beyond what moving the arguments shows: a course near due east or west
    multiplies the rounding of a small difference of latitudes by its tangent"""
    rad = math.radians if deg and f.deg else float
    if f.name == "lox.loxodrome_direct" and kind == "lon":
        c, k = abs(math.cos(rad(vals[3]))), abs(math.cos(rad(want[0])))
        return (57.3 if deg and f.deg else 1.0) * 1e-15 / max(c, 1e-9) / max(k, 1e-9)
    if f.name == "lox.loxodrome_inverse" and kind == "rng":
        return 1e-15 * a / max(abs(math.cos(rad(want[1]))), 1e-9)
    return 0.0


def agree(f, got, want, vals, a, deg, ev, what, label=None, ulps=16, slack=8.0, k=2.0):
    """ev: evaluate the reference at other arguments; want = ev(vals)"""
    bad = []
    for i, kind in enumerate(f.outs):
        d = diff(kind, got[i], want[i], deg and f.deg)
        tol = strict(f, kind, want[i], vals, a, deg, ulps)
        if kind == "lon" and d > tol and d == d:
            # the same distance on the ground is a larger angle near a pole
            la = latitude_of(f, want, i, deg)
            if la is not None and abs(la) > 1.4:
                tol /= max(abs(math.cos(la)), 1e-17)
        if label:
            core.MARGINS[label] = max(core.MARGINS.get(label, 0), d / tol if tol else 0)
        if not d <= tol:
            bad.append((i, kind, d, tol))
    if not bad:
        return "strict"
    spread = [0.0] * len(f.outs)
    nans = [False] * len(f.outs)
    for v in nudged(f, vals, a, deg, k):
        try:
            q = ev(v)
        except Violation:
            raise
        except Exception:  # noqa: BLE001 - an error next to the case: no answer to compare with
            return "edge"
        for i, kind in enumerate(f.outs):
            if math.isnan(q[i]) or math.isnan(want[i]):
                nans[i] |= math.isnan(q[i]) != math.isnan(want[i])
            else:
                spread[i] = max(spread[i], diff(kind, q[i], want[i], deg and f.deg))
    if f.name == "los.lookAtSpheroid" and any(d == math.inf for _, _, d, _ in bad):
        # a line of sight that grazes the surface
        for v in nudged(f, vals, a, deg, 1e-8 / EPS):
            q = ev(v)
            nans = [n or math.isnan(x) != math.isnan(w) for n, x, w in zip(nans, q, want)]
    for i, kind, d, tol in bad:
        if nans[i]:
            continue
        if not d <= tol + slack * spread[i] + noise(f, kind, vals, want, a, deg):
            raise Violation(
                f"{what}: result {i} ({kind}) is {got[i]!r}, want {want[i]!r} "
                f"(difference {d!r}, rounding allows {tol + slack * spread[i] + noise(f, kind, vals, want, a, deg)!r}); arguments {list(vals)!r}"
            )
    return "conditioned"
