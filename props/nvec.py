"""C25, C26: n-vectors"""
import math

from hypothesis import strategies as st
from mpmath import mp, mpf

import pymap3d as pm
from pymap3d import nvector as nv

from harness import core, ref
from harness import gens as g
from harness.core import bounded, call, fl, in_range, lift, require, sub

np = core.np
PI = math.pi
EPS = ref.EPS


def U(x, deg):
    return x if deg else math.radians(x)


def normal(lat, lon, deg):
    phi, lam = ref.rad(lat, deg), ref.rad(lon, deg)
    return mp.cos(phi) * mp.cos(lam), mp.cos(phi) * mp.sin(lam), mp.sin(phi)


def dist3(u, v):
    return float(ref.norm(ref.sub3(u, v)))


@sub("C25", g.case(lat=g.lat(), lon=g.lon(), deg=g.deg(), form=g.form(), noise=st.tuples(*[st.floats(-4, 4)] * 3).map(list)), n=500, fixed=[
    dict(lat=la, lon=lo, deg=d, form=f, noise=[0.0, 0.0, 0.0]) for la in (90.0, -90.0, 0.0, 89.9999999999, 45.0)
    for lo in (0.0, 180.0, -90.0, 77.0) for d in (True, False) for f in core.forms()])
def normals(c, rec):
    deg = c["deg"]
    lat, lon = U(c["lat"], deg), U(c["lon"], deg)
    n = lift(c["form"], nv.geodetic2nvector, [lat, lon], dict(deg=deg))
    what = f"geodetic2nvector({lat!r},{lon!r},deg={deg}) -> {n}"
    L = 1 + abs(math.radians(c["lon"]))
    bounded(dist3(n, normal(lat, lon, deg)), 4 * EPS * L, what, "normal")
    bounded(abs(float(ref.norm(n)) - 1), 4 * EPS, what + ": norm", "norm")
    # and back, also when the vector has rounding-level errors (size and direction)
    for v in (n, [x * (1 + z * 1e-16) for x, z in zip(n, c["noise"])], [x * 3.7 for x in n]):
        la, lo = lift(c["form"], nv.nvector2geodetic, list(v), dict(deg=deg))
        w = f"nvector2geodetic{tuple(v)} deg={deg} -> ({la!r},{lo!r})"
        in_range(la, -90 if deg else -PI / 2, 90 if deg else PI / 2, w)
        in_range(lo, -180 if deg else -PI, 180 if deg else PI, w)
        bounded(dist3(normal(la, lo, deg), normal(lat, lon, deg)), 9 * EPS * L, w + f" for latitude {lat!r}, longitude {lon!r}", "lossless")
        bounded(abs(float(ref.rad(la, deg) - ref.rad(lat, deg))), 9 * EPS * L, w + f" for latitude {lat!r}", "lossless lat")
        co = math.cos(math.radians(c["lat"]))
        if abs(c["lat"]) < 90:
            d = abs(math.remainder(float(ref.rad(lo, deg) - ref.rad(lon, deg)), 2 * PI)) * co
            bounded(d, 9 * EPS * L, w + f" for longitude {lon!r}", "lossless lon")
    rec.tag("form:" + c["form"], "pole" if abs(c["lat"]) == 90 else "else")


@sub("C25", g.case(lat=g.lat(), lon=g.lon(), alt=g.rel_alt(-0.08, 20), ell=g.ellspec(), deg=g.deg(), form=g.form()), n=400)
def through_ecef(c, rec):
    a, b = g.ab(c["ell"])
    deg, e = c["deg"], g.mk_ell(c["ell"])
    lat, lon, alt = U(c["lat"], deg), U(c["lon"], deg), c["alt"] * a
    n = [float(x) for x in normal(lat, lon, deg)]
    P = ref.geod2ecef(lat, lon, alt, a, b, deg)
    got = lift(c["form"], nv.nvector2ecef, [*n, alt], dict(ell=e, deg=deg))
    L = 2 + abs(math.radians(c["lon"]))
    bounded(dist3(got, P), (a + abs(alt)) * 8 * EPS * L, f"nvector2ecef{tuple(n)}, {alt!r}, {c['ell']} deg={deg} -> {got}, point {[float(x) for x in P]}", "nvector2ecef")
    if c["alt"] == 0:
        got0 = lift(c["form"], nv.nvector2ecef, n, dict(ell=e, deg=deg))
        bounded(dist3(got0, P), a * 8 * EPS * L, f"nvector2ecef{tuple(n)} without altitude -> {got0}")
    # from ECEF: whatever latitude and longitude ecef2geodetic gives for the point
    x, y, z = (float(v) for v in P)
    got = lift(c["form"], nv.ecef2nvector, [x, y, z], dict(ell=e, deg=deg))
    la, lo, _ = lift("s", pm.ecef2geodetic, [x, y, z], dict(ell=e, deg=deg))
    bounded(dist3(got, normal(la, lo, deg)), 8 * EPS * 5, f"ecef2nvector({x!r},{y!r},{z!r}) {c['ell']} deg={deg} -> {got}, ecef2geodetic {la!r},{lo!r}", "ecef2nvector")
    bounded(abs(float(ref.norm(got)) - 1), 4 * EPS, "norm")
    # (closer than 1e-8 m to the axis counts as the pole)
    if abs(c["alt"]) < 1e-6 and b > 0.9 * a and math.hypot(x, y) > 2e-8:
        bounded(dist3(got, normal(lat, lon, deg)), 1e-12, f"ecef2nvector({x!r},{y!r},{z!r}) {c['ell']} -> {got}, normal at {lat!r},{lon!r}", "ecef2nvector normal")
    rec.tag("form:" + c["form"])


# ---------------------------------------------------------------- C26

def unit(lat, lon):
    p, l = math.radians(lat), math.radians(lon)
    return [math.cos(p) * math.cos(l), math.cos(p) * math.sin(l), math.sin(p)]


vec = st.one_of(
    st.builds(unit, g.lat(), g.lon(wide=False)),
    st.builds(unit, st.floats(-90, 90), st.floats(-180, 180)),
    st.sampled_from([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [-1.0, 0.0, 0.0]]),
)


def nudge(v, s, d):
    w = [s * x + y for x, y in zip(v, d)]
    n = math.sqrt(sum(x * x for x in w))
    return [x / n for x in w] if n > 1e-3 else v


small = st.tuples(*[st.one_of(st.just(0.0), g.signed(g.logmag(-17, -1)))] * 3)
two = st.one_of(
    st.tuples(vec, vec),
    st.tuples(vec, vec),
    # nearly (or exactly) the same, nearly (or exactly) opposite
    st.builds(lambda v, s, d: (v, nudge(v, s, d)), vec, st.sampled_from([1, -1]), small),
).map(lambda t: [list(t[0]), list(t[1])])
radius = st.one_of(st.none(), st.just(6371e3), st.just(1.0), g.logmag(0, 8))


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def dot(u, v):
    return sum(x * y for x, y in zip(u, v))


def M(v):
    return tuple(map(mpf, v))


def norm1(v):
    n = ref.norm(v)
    return tuple(x / n for x in v)


def default_radius():
    a, b = mpf(6378137), mpf(6378137) * (1 - 1 / mpf("298.257223563"))
    return float((a * a * b) ** (mpf(1) / 3))


@sub("C26", g.case(v=two, r=radius, form=g.form()), n=500)
def distance(c, rec):
    u, v = map(M, c["v"])
    kw = {} if c["r"] is None else dict(radius=c["r"])
    R = default_radius() if c["r"] is None else c["r"]
    d = lift(c["form"], nv.nvector_distance, [*c["v"][0], *c["v"][1]], kw)[0]
    want = mp.atan2(ref.norm(cross(u, v)), dot(u, v)) * R
    what = f"nvector_distance{c['v']} radius={c['r']} -> {d!r}"
    # the length of the vectors is 1 up to rounding; an antipode is as well conditioned as any other point
    tol = R * 4 * EPS + float(want) * 6 * EPS + (1e-8 * float(want) if c["r"] is None else 0)
    bounded(abs(d - float(want)), tol, what + f", angle times radius {float(want)!r}", "nv distance")
    e = lift(c["form"], nv.nvector_distance, [*c["v"][1], *c["v"][0]], kw)[0]
    bounded(abs(d - e), R * 2 * EPS, what + f", the other way {e!r}")
    same = lift(c["form"], nv.nvector_distance, [*c["v"][0], *c["v"][0]], kw)[0]
    bounded(abs(same), R * 2 * EPS, "nvector_distance of a vector and itself")
    w = float(want) / R
    rec.tag("near" if w < 1e-6 else "opposite" if w > PI - 1e-6 else "between")


@sub("C26", g.case(v=two, t=st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5, 0.25])), form=g.form()), n=500)
def interpolate(c, rec):
    u, v = map(M, c["v"])
    t = c["t"]
    s, w = ref.norm(cross(u, v)), mp.atan2(ref.norm(cross(u, v)), dot(u, v))
    if w > PI / 2 and s < 1e-15:
        rec.tag("antipode")  # no great circle is singled out
        rec.trivial = True
        return
    q = lift(c["form"] if c["form"] == "np" else "s", nv.nvector_interpolate, [*c["v"][0], *c["v"][1], t])
    what = f"nvector_interpolate{c['v']} at {t} -> {q}"
    require(all(map(math.isfinite, q)), what)
    bounded(abs(float(ref.norm(q)) - 1), 4 * EPS, what + ": norm")
    if w > PI / 2 and s < 1e-13:
        rec.tag("opposite")
        if t in (0.0, 1.0) and s > 1e-14:
            bounded(dist3(q, (u, v)[int(t)]), 1e-1, what + ": does not hit the end")
        return
    if s == 0:
        want = u
    else:
        want = norm1(tuple(mp.sin((1 - mpf(t)) * w) * x / mp.sin(w) + mp.sin(mpf(t) * w) * y / mp.sin(w) for x, y in zip(u, v)))
    tol = 6 * EPS * (1 + (4 / float(s) if w > PI / 2 else 3))
    bounded(dist3(q, want), tol, what + f", great circle {[float(x) for x in want]}", "interpolate")
    if t == 0 or t == 1:
        bounded(dist3(q, (u, v)[int(t)]), tol, what + ": does not hit the end")
    rec.tag("near" if w < 1e-6 else "between")
    rec.trivial = s == 0


def cloud(n, v, k, ph):
    """many directions round one"""
    out = []
    for i in range(n):
        w = [v[0] + k * math.sin(1.1 * i + ph), v[1] + k * math.sin(2.3 * i * i), v[2] + k * math.cos(3.7 * i + ph)]
        r = math.sqrt(sum(x * x for x in w)) or 1.0
        out.append([x / r for x in w])
    return out


clouds = st.builds(cloud, st.one_of(st.integers(8, 60), st.sampled_from([16, 64, 100, 128, 200, 257])), vec, st.sampled_from([0.01, 0.3, 1.0, 3.0]), st.floats(0, 6))


@sub("C26", g.case(vs=st.one_of(*[st.lists(vec, min_size=1, max_size=7)] * 4, clouds), kind=st.sampled_from(["list", "tuple", "array"]), r=st.randoms(use_true_random=False).map(lambda r: r.random())), n=300)
def mean(c, rec):
    vs = [M(v) for v in c["vs"]]
    S = tuple(sum(v[k] for v in vs) for k in range(3))
    size = float(ref.norm(S))
    if size < 1e-6:
        rec.trivial = True
        return
    want = norm1(S)

    def run(vs):
        cols = [[v[k] for v in vs] for k in range(3)]
        if c["kind"] == "array" and np is not None:
            cols = [np.array(x) for x in cols]
        elif c["kind"] == "tuple":
            cols = [tuple(x) for x in cols]
        return [fl(x) for x in call(nv.nvector_mean, *cols)]

    tol = 4 * EPS * (1 + len(vs) / size)
    k = int(c["r"] * len(vs))
    for ws in (c["vs"], c["vs"][::-1], c["vs"][k:] + c["vs"][:k], c["vs"] * 2):
        q = run(ws)
        bounded(dist3(q, want), tol * (len(ws) / len(vs)), f"nvector_mean of {ws if len(ws) < 20 else (len(ws), ws[:5])} -> {q}, normalised sum {[float(x) for x in want]}", "nv mean")
    rec.tag("kind:" + c["kind"])


@sub("C26", g.case(v=two, p=vec, r=radius, form=g.form(), on=st.one_of(st.none(), st.floats(-3, 3))), n=500)
def cross_track(c, rec):
    u, v = map(M, c["v"])
    n = cross(u, v)
    s = float(ref.norm(n))
    if s < 1e-9:
        rec.trivial = True
        return
    n = norm1(n)
    p = c["p"]
    if c["on"] is not None:  # on, or close to, the great circle or its pole
        x = float(c["on"])
        p = [float(z) for z in norm1(tuple(a + mpf(x) * b for a, b in zip(u, v)))]
    kw = {} if c["r"] is None else dict(radius=c["r"])
    R = default_radius() if c["r"] is None else c["r"]
    d = lift(c["form"], nv.nvector_cross_track_distance, [*c["v"][0], *c["v"][1], *p], kw)[0]
    P = M(p)
    want = float(mp.atan2(dot(n, P), ref.norm(cross(n, P)))) * R
    what = f"nvector_cross_track_distance {c['v']} point {p} radius={c['r']} -> {d!r}"
    bounded(abs(d - want), R * 6 * EPS * (1 + 1 / s) + (abs(want) * 1e-8 if c["r"] is None else 0), what + f", want {want!r}", "cross track")
    in_range(d, -R * PI / 2 * (1 + 1e-8), R * PI / 2 * (1 + 1e-8), what)
    rec.tag("on" if c["on"] is not None else "off", "left" if want > 0 else "right")


@sub("C26", g.case(a=two, b=two, form=g.form()), n=500)
def intersection(c, rec):
    a, b, x, y = map(M, c["a"] + c["b"])
    n1, n2 = cross(a, b), cross(x, y)
    s1, s2 = float(ref.norm(n1)), float(ref.norm(n2))
    i = cross(n1, n2)
    s = float(ref.norm(i))
    if min(s1, s2) < 1e-5 or s < 1e-5 * s1 * s2:
        rec.trivial = True
        return
    q = lift(c["form"] if c["form"] == "np" else "s", nv.nvector_intersection, [*c["a"][0], *c["a"][1], *c["b"][0], *c["b"][1]])
    what = f"nvector_intersection {c['a']} {c['b']} -> {q}"
    bounded(abs(float(ref.norm(q)) - 1), 4 * EPS, what + ": norm")
    tol = 8 * EPS * (s1 + s2) / s + 4 * EPS
    want = norm1(i)
    m = tuple(sum(t) for t in zip(a, b, x, y))
    side = float(dot(want, m))
    if abs(side) < 10 * tol + 1e-14:
        side = float(dot(want, q))
        rec.tag("either side")
    else:
        rec.tag("nearest side")
    if side < 0:
        want = tuple(-t for t in want)
    bounded(dist3(q, want), tol, what + f", the circles meet at {[float(t) for t in want]}", "intersection")


@sub("C26", g.case(v=two, p=vec, t=st.floats(0, 1), rot=st.tuples(st.floats(-180, 180), st.floats(-90, 90), st.floats(-180, 180)).map(list)), n=150)
def rotations(c, rec):
    """the same relations after turning every vector"""
    x, y, z = (math.radians(t) for t in c["rot"])
    Rz = lambda t, v: [math.cos(t) * v[0] - math.sin(t) * v[1], math.sin(t) * v[0] + math.cos(t) * v[1], v[2]]  # noqa: E731
    Ry = lambda t, v: [math.cos(t) * v[0] + math.sin(t) * v[2], v[1], -math.sin(t) * v[0] + math.cos(t) * v[2]]  # noqa: E731
    rot = lambda v: Rz(z, Ry(y, Rz(x, v)))  # noqa: E731
    u, v, p = c["v"][0], c["v"][1], c["p"]
    s = float(ref.norm(cross(M(u), M(v))))
    if s < 1e-4:
        rec.trivial = True
        return
    d1, d2 = (fl(call(nv.nvector_distance, *q[0], *q[1], 1.0)) for q in ((u, v), (rot(u), rot(v))))
    bounded(abs(d1 - d2), 2e-15, f"nvector_distance{(u, v)} turned", "rot distance")
    d1, d2 = (fl(call(nv.nvector_cross_track_distance, *q[0], *q[1], *q[2], 1.0)) for q in ((u, v, p), (rot(u), rot(v), rot(p))))
    bounded(abs(d1 - d2), 4e-15 / s, f"nvector_cross_track_distance{(u, v, p)} turned", "rot xt")
    i1, i2 = ([fl(t) for t in call(nv.nvector_interpolate, *q[0], *q[1], c["t"])] for q in ((u, v), (rot(u), rot(v))))
    bounded(dist3(rot(i1), i2), 6e-15 / s, f"nvector_interpolate{(u, v)} turned", "rot interpolate")
