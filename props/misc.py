"""C27, C28: angular separation, Cartesian/polar/spherical utilities"""
import math

from hypothesis import strategies as st
from mpmath import mp, mpf

from pymap3d import haversine as hv
from pymap3d import utils as u

from harness import core, ref
from harness import gens as g
from harness.core import bounded, in_range, lift, require, sub

PI = math.pi
EPS = ref.EPS


def U(x, deg):
    return x if deg else math.radians(x)


dlt = st.one_of(st.just(0.0), g.signed(g.logmag(-15, 0)), g.signed(g.logmag(-4, 1)))
clamp = lambda x: max(-90.0, min(90.0, x))  # noqa: E731
pairs = st.one_of(
    st.tuples(g.lon(), g.lat(), g.lon(), g.lat()),
    st.tuples(st.floats(-180, 180), st.floats(-90, 90), st.floats(-180, 180), st.floats(-90, 90)),
    st.builds(lambda l, p, d, e: (l, p, l + d, clamp(p + e)), g.lon(), g.lat(), dlt, dlt),
    st.builds(lambda l, p, d, e, k: (l, p, l + 180 * k + d, clamp(-p + e)), g.lon(), g.lat(), dlt, dlt, st.sampled_from([1, -1])),
)


@sub("C27", g.case(p=pairs.map(list), deg=g.deg(), form=g.form()), n=600, fixed=[
    dict(p=p, deg=d, form="s") for p in ([0, 0, 180, 0], [10, 20, 10, 20], [0, 90, 77, 90], [0, 90, 5, -90], [35, 30, 215, -30]) for d in (True, False)])
def separation(c, rec):
    deg = c["deg"]
    p = [U(x, deg) for x in c["p"]]
    v = []
    for l, b in ((p[0], p[1]), (p[2], p[3])):
        l, b = ref.rad(l, deg), ref.rad(b, deg)
        v.append((mp.cos(b) * mp.cos(l), mp.cos(b) * mp.sin(l), mp.sin(b)))
    x, y = v
    cr = (x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0])
    w = mp.atan2(ref.norm(cr), sum(s * t for s, t in zip(x, y)))
    full = 180.0 if deg else PI
    L = 2 + abs(math.radians(c["p"][0])) + abs(math.radians(c["p"][2]))
    sharp = 4 * EPS * L
    co = float(mp.cos(w / 2))
    blunt = sharp + min(6 * EPS / co if co > 0 else 1.0, 7e-8)
    res = {}
    for name, fn, kw in (
        ("anglesep", hv.anglesep, {}),
        ("anglesep force_non_astropy", hv.anglesep, dict(force_non_astropy=True)),
        ("anglesep_meeus", hv.anglesep_meeus, {}),
    ):
        for order, q in (("", p), (" reversed", p[2:] + p[:2])):
            r = lift(c["form"], fn, q, dict(deg=deg, **kw))[0]
            what = f"{name}{tuple(q)} deg={deg} -> {r!r}"
            in_range(r, 0, full * (1 + 2 * EPS), what)
            tol = sharp if (name == "anglesep" and core.CONFIG == "f") else blunt
            bounded(abs(float(ref.rad(r, deg) - w)), tol, what + f", angle between the directions {float(ref.outdeg(w, deg))!r}", name)
            res[name + order] = r
        if p[:2] == p[2:]:
            bounded(res[name], 0.0, name + " of one direction")
        # full turns
        turn = 360.0 if deg else 2 * PI
        r = lift(c["form"], fn, [p[0] + turn, p[1], p[2] - turn, p[3]], dict(deg=deg, **kw))[0]
        bounded(abs(float(ref.rad(r, deg) - w)), blunt + 8 * EPS * 7, f"{name}{tuple(p)} with full turns -> {r!r}", name + " turns")
    rec.tag("opposite" if w > PI - 1e-6 else "near" if w < 1e-6 else "between", "form:" + c["form"])
    rec.trivial = w == 0


@sub("C27", g.case(t=st.one_of(st.floats(-50, 50), g.signed(g.logmag(-150, 0)), st.sampled_from([0.0, PI, -PI, 2 * PI])), form=g.form()), n=200)
def haversine(c, rec):
    t = c["t"]
    h = lift(c["form"], hv.haversine, [t])[0]
    w = float(mp.sin(mpf(t) / 2) ** 2)
    bounded(abs(h - w), 6 * EPS * w + 1e-300, f"haversine({t!r}) -> {h!r}, want {w!r}", "haversine")
    rec.trivial = t == 0


coord = st.one_of(st.just(0.0), st.floats(-1e3, 1e3), g.signed(g.logmag(-12, 12)), st.sampled_from([1.0, -1.0]))


@sub("C28", g.case(v=st.tuples(coord, coord, coord).map(list), form=g.form()), n=500, fixed=[
    dict(v=[x, y, z], form="s") for x in (0.0, 1.0, -1.0) for y in (0.0, 1.0, -1.0) for z in (0.0, 1.0, -1.0)])
def from_cartesian(c, rec):
    x, y, z = (0.0 if abs(t) < 1e-200 else t for t in c["v"])
    f = c["form"]
    th, rho = lift(f, u.cart2pol, [x, y])
    what = f"cart2pol({x!r},{y!r}) -> {(th, rho)}"
    r2 = float(mp.hypot(x, y))
    bounded(abs(rho - r2), 3 * EPS * r2, what, "rho")
    bounded(abs(th - float(mp.atan2(y, x))) if r2 else 0.0, 2 * EPS * PI, what, "theta")
    require(-PI <= th <= PI and rho >= 0, what)
    back = lift(f, u.pol2cart, [th, rho])
    bounded(math.dist(back, (x, y)), 6 * EPS * r2, what + f" and back {back}", "pol round trip")
    az, el, r = lift(f, u.cart2sph, [x, y, z])
    what = f"cart2sph({x!r},{y!r},{z!r}) -> {(az, el, r)}"
    r3 = float(ref.norm((x, y, z)))
    bounded(abs(r - r3), 4 * EPS * r3, what, "r")
    if r2:
        bounded(abs(az - float(mp.atan2(y, x))), 2 * EPS * PI, what, "az")
    if r3:
        bounded(abs(el - float(mp.atan2(z, mp.hypot(x, y)))), 3 * EPS * PI, what, "el")
    require(-PI / 2 <= el <= PI / 2 and -PI <= az <= PI and r >= 0, what)
    back = lift(f, u.sph2cart, [az, el, r])
    bounded(math.dist(back, (x, y, z)), 8 * EPS * r3, what + f" and back {back}", "sph round trip")
    rec.trivial = r3 == 0
    rec.tag("form:" + f, "axis" if r2 == 0 else "off axis")


angle = st.one_of(st.floats(-PI, PI), st.sampled_from([0.0, PI / 2, -PI / 2, PI, -PI]), st.floats(-20, 20))


@sub("C28", g.case(az=angle, el=st.one_of(g.angle(-PI / 2, PI / 2, [0, PI / 2, -PI / 2, 1, -1]), g.angle(-PI / 2, PI / 2, [0, PI / 2, -PI / 2, 1, -1]), angle), r=st.one_of(st.just(0.0), g.logmag(-12, 12), g.logmag(-12, 12), g.signed(g.logmag(-12, 12))), form=g.form()), n=400)
def to_cartesian(c, rec):
    az, el, r, f = c["az"], c["el"], c["r"], c["form"]
    xyz = lift(f, u.sph2cart, [az, el, r])
    A, B = mpf(az), mpf(el)
    want = tuple(float(r * t) for t in (mp.cos(B) * mp.cos(A), mp.cos(B) * mp.sin(A), mp.sin(B)))
    bounded(math.dist(xyz, want), 4 * EPS * abs(r), f"sph2cart({az!r},{el!r},{r!r}) -> {xyz}, want {want}", "sph2cart")
    xy = lift(f, u.pol2cart, [az, r])
    want = float(r * mp.cos(A)), float(r * mp.sin(A))
    bounded(math.dist(xy, want), 3 * EPS * abs(r), f"pol2cart({az!r},{r!r}) -> {xy}, want {want}", "pol2cart")
    if r > 0 and abs(el) > PI / 2:
        # beyond the zenith: the same point has another azimuth and elevation
        a2, e2, r2 = lift(f, u.cart2sph, list(xyz))
        bounded(abs(e2 - float(mp.asin(mp.sin(B)))), 1e-7, f"cart2sph(sph2cart({az!r},{el!r},{r!r})) elevation {e2!r}", "el back, beyond")
        bounded(abs(r2 - r), 6 * EPS * r, f"cart2sph(sph2cart({az!r},{el!r},{r!r})) radius {r2!r}", "r back, beyond")
        rec.tag("beyond the zenith")
    elif r > 0:
        a2, e2, r2 = lift(f, u.cart2sph, list(xyz))
        co = math.cos(el)
        bounded(abs(math.remainder(a2 - az, 2 * PI)) * co, 4 * EPS * (3 + abs(az)), f"cart2sph(sph2cart({az!r},{el!r},{r!r})) azimuth {a2!r}", "az back")
        bounded(abs(e2 - el), 6 * EPS, f"cart2sph(sph2cart({az!r},{el!r},{r!r})) elevation {e2!r}", "el back")
        bounded(abs(r2 - r), 6 * EPS * r, f"cart2sph(sph2cart({az!r},{el!r},{r!r})) radius {r2!r}", "r back")
        t2, q2 = lift(f, u.cart2pol, list(xy))
        bounded(abs(math.remainder(t2 - az, 2 * PI)), 4 * EPS * (3 + abs(az)), f"cart2pol(pol2cart({az!r},{r!r})) -> {t2!r}", "theta back")
        bounded(abs(q2 - r), 6 * EPS * r, f"cart2pol(pol2cart({az!r},{r!r})) -> {q2!r}", "rho back")
    rec.trivial = r == 0
