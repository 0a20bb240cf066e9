"""C01, C02, C10, C13: geodetic <-> ECEF / spherical / geocentric"""
import math

from hypothesis import strategies as st
from mpmath import mp, mpf

import pymap3d as pm
from pymap3d import latitude

from harness import gens as g
from harness import ref
from harness.core import Violation, call, flat, fl, in_range, lift, must_raise, near, near_angle, require, sub, whole  # noqa: F401

EPS = ref.EPS


def lon_tol(lon, deg):
    return EPS * (4 + abs(math.radians(lon) if deg else lon))


def to_unit(lat, lon, deg):
    return (lat, lon) if deg else (math.radians(lat), math.radians(lon))


geo_case = g.case(
    lat=g.lat(), lon=g.lon(), h=st.one_of(g.rel_alt(-0.9, 100), g.rel_alt(-0.9, 100), g.rel_alt(-0.9, 100), st.floats(-5.0, -0.5)), ell=g.ellspec(),
    deg=g.deg(), form=g.form(),
)


def tag_geo(rec, c):
    lat = abs(c["lat"])
    rec.tag("pole" if lat == 90 else "near pole" if lat > 89.99 else "equator" if lat == 0 else "mid latitude")
    if abs(c["lon"]) > 180:
        rec.tag("longitude beyond 180")
    if c["h"] < 0:
        rec.tag("below surface")
    if c["h"] > 1:
        rec.tag("far out")
    rec.tag("form " + c["form"], "deg" if c["deg"] else "rad")


@sub("C01", geo_case, n=300, fixed=[
    {"lat": la, "lon": lo, "h": h, "ell": e, "deg": d, "form": "s"}
    for la in (0.0, 90.0, -90.0, 45.0) for lo in (0.0, 180.0, -90.0, 359.0) for h in (0.0, 0.01, -0.01)
    for e in ("wgs84", "mars", [7e6, 7e6], [1.0, 0.7]) for d in (True, False)
])
def exact(c, rec):
    """against the ellipsoid-normal construction at 34 digits"""
    a, b = g.ab(c["ell"])
    lat, lon, h = whole(c["form"], *to_unit(c["lat"], c["lon"], c["deg"]), c["h"] * a)
    tag_geo(rec, c)
    got = lift(c["form"], pm.geodetic2ecef, (lat, lon, h, g.mk_ell(c["ell"])), {"deg": c["deg"]})
    want = ref.geod2ecef(lat, lon, h, a, b, c["deg"])
    tol = 8 * (a + abs(h)) * lon_tol(lon, c["deg"])
    for k in range(3):
        near(got[k], want[k], tol, f"geodetic2ecef({lat},{lon},{h},{c['ell']},deg={c['deg']})[{k}]")
    # full relative accuracy of z near the equator and of the axis distance near the pole
    if abs(lat) < (1 if c["deg"] else 0.02):
        near(got[2], want[2], 20 * EPS * (a + abs(h)) * abs(math.sin(math.radians(lat) if c["deg"] else lat)) + 1e-300, "z near the equator")
    if len(got) != 3:
        raise Violation("three outputs expected")


@sub("C01", g.case(lat=g.lat(), lon=g.lon(), h=g.rel_alt(0, 3)), n=60)
def default_is_wgs84_degrees(c, rec):
    want = ref.geod2ecef(c["lat"], c["lon"], c["h"] * 6378137.0, 6378137.0, 6378137.0 * (1 - 1 / 298.257223563))
    got = flat(call(pm.geodetic2ecef, c["lat"], c["lon"], c["h"] * 6378137.0))
    for k in range(3):
        near(got[k], want[k], 6378137 * (1 + c["h"]) * 20 * lon_tol(c["lon"], True) + 1e-8, "default ellipsoid")


@sub("C01", geo_case, n=60)
def below_normal_is_straight(c, rec):
    """points along one normal are collinear and spaced by their height difference"""
    a, b = g.ab(c["ell"])
    e = g.mk_ell(c["ell"])
    h = c["h"] * a
    if h == 0:
        rec.trivial = True
    p0 = flat(call(pm.geodetic2ecef, c["lat"], c["lon"], 0.0, e))
    p1 = flat(call(pm.geodetic2ecef, c["lat"], c["lon"], h, e))
    d = math.dist([fl(v) for v in p0], [fl(v) for v in p1])
    near(d, abs(h), 40 * (a + abs(h)) * EPS, "distance along the normal")


# --- C02


def ecef_case(emin_a):
    ell = g.ellspec(fmax=0.35, amin=3, amax=9)
    geo = g.case(kind=st.just("geo"), lat=g.lat(), lon=g.lon(False),
                 h=st.one_of(g.rel_alt(-0.9, 100), g.rel_alt(-0.01, 0.01), st.floats(-1e-3, 1e-3)),
                 ell=ell, deg=g.deg(), form=g.form())
    s = st.one_of(st.just(0.0), g.signed(g.logmag(-6, 2)), st.floats(-3, 3))
    xyz = g.case(kind=st.just("xyz"), x=s, y=s, z=s, ell=ell, deg=g.deg(), form=g.form())
    return st.one_of(geo, geo, xyz)


def check_ecef2geodetic(c, rec):
    a, b = g.ab(c["ell"])
    e = g.mk_ell(c["ell"])
    if c["kind"] == "geo":
        x, y, z = (float(v) for v in ref.geod2ecef(c["lat"], c["lon"], c["h"] * a, a, b))
        if abs(c["lat"]) == 90:
            x = y = 0.0
    else:
        x, y, z = c["x"] * a, c["y"] * a, c["z"] * a
    x, y, z = whole(c["form"], x, y, z)
    p = math.hypot(x, y)
    scale = math.hypot(p, z)
    if not ref.outside_evolute(p, z, a, b) or scale * scale < 1.5 * (a * a - b * b):
        rec.trivial = True
        rec.tag("near the centre (excluded)")
        return
    rec.tag("axis" if p == 0 else "equator" if z == 0 else "general", "form " + c["form"])
    what = f"ecef2geodetic({x!r},{y!r},{z!r},{c['ell']},deg={c['deg']},form={c['form']})"
    lat, lon, alt = lift(c["form"], pm.ecef2geodetic, (x, y, z, e), {"deg": c["deg"]})
    half = 90.0 if c["deg"] else math.pi / 2
    in_range(lat, -half, half, what + " latitude")
    in_range(lon, -2 * half, 2 * half, what + " longitude")
    if p > 0:
        near_angle(lon, math.degrees(math.atan2(y, x)) if c["deg"] else math.atan2(y, x), 8 * EPS * 2 * half,
                   what + " longitude", 4 * half)
    inside = mpf(x) ** 2 / mpf(a) ** 2 + mpf(y) ** 2 / mpf(a) ** 2 + mpf(z) ** 2 / mpf(b) ** 2 - 1
    if abs(inside) > 1e-13:
        require((alt < 0) == (inside < 0), f"{what}: altitude {alt!r} has the wrong sign")
        rec.tag("inside" if inside < 0 else "outside")
    if p == 0:
        near(lat, math.copysign(half, z), 0, what + " latitude at the axis")
        near(alt, abs(z) - b, 4 * EPS * max(scale, a), what + " altitude at the axis")
    if z == 0:
        near(lat, 0.0, 0, what + " latitude on the equator")
        near(alt, p - a, 4 * EPS * max(scale, a), what + " altitude on the equator")
    back = ref.geod2ecef(lat, lon, alt, a, b, c["deg"])
    err = float(ref.norm(ref.sub3(back, (x, y, z))))
    # sub-millimetre at Earth size; the axis is defined with 1e-8 m slack
    tol = 1.5e-10 * a + 40 * EPS * scale + 3e-8
    if err <= tol:
        # ordinary points: the correction is exact to rounding near the surface
        if abs(alt) < 2e-3 * a and a / b < 1.01 and p > 1e-6 * a:
            require(err <= 1e-12 * a + 3e-8, f"{what}: closure error {err!r} m close to the surface")
        return
    phi, lam, h = ref.you2000(x, y, z, a, b)
    got = (float(mpf(lat) * ref.PI / 180) if c["deg"] else lat, alt)
    same = abs(got[0] - float(phi)) < 1e-13 and abs(got[1] - float(h)) < 1e-13 * max(scale, a) + 3e-8
    msg = f"{what} = {(lat, lon, alt)}: geodetic2ecef misses the point by {err!r} m (allowed {tol!r})"
    if not same:
        raise Violation(msg)
    rec.tag("known: single You correction")
    rec.known("you2000-single-correction", msg)


KNOWN_CASE = {"kind": "xyz", "x": 4.0, "y": 2.0, "z": 3.0, "ell": "wgs84", "deg": True, "form": "s"}
sub("C02", ecef_case(3), n=300, name="closure", fixed=[KNOWN_CASE] + [
    {"kind": "xyz", "x": x, "y": y, "z": z, "ell": e, "deg": d, "form": f}
    for x, y, z in [(1.0, 0.0, 0.0), (-1.0, 0.0, 0.0), (-1.0, -0.0, 0.0), (0.0, 1.0, 0.0), (0.0, -1.0, 0.0),
                    (0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (0.0, 0.0, 0.9), (0.0, 0.0, -0.9), (0.9, 0.0, 0.0),
                    (0.7, 0.1, 0.7), (1e-9, 0.0, 1.0), (0.0, -1e-9, -1.1), (60.0, 0.0, 0.0), (0.0, 0.0, -60.0)]
    for e in ("wgs84", "mars", [6.4e6, 6.4e6]) for d in (True, False)
    for f in (("s", "a0", "a1") if "a0" in __import__("harness.core").core.forms() else ("s",))
])(check_ecef2geodetic)


@sub("C02", g.case(lat=g.lat(), lon=g.lon(False), h=g.rel_alt(-0.002, 0.005), ell=g.ellspec(fmax=0.0101, amin=5, amax=8),
                   form=g.form()), n=150)
def geodetic_round_trip(c, rec):
    """near the surface of Earth-like bodies latitude, longitude and altitude are restored"""
    a, b = g.ab(c["ell"])
    e = g.mk_ell(c["ell"])
    h = c["h"] * a
    x, y, z = lift(c["form"], pm.geodetic2ecef, (c["lat"], c["lon"], h, e))
    lat, lon, alt = lift(c["form"], pm.ecef2geodetic, (x, y, z, e))
    cosl = math.cos(math.radians(c["lat"]))
    near(lat, c["lat"], 1e-12 + (1e-5 / a * 57.3), "latitude round trip")
    near(alt, h, 2e-8 + 40 * EPS * a, "altitude round trip")
    if cosl > 1e-6:
        near_angle(lon, c["lon"], 1e-13 / cosl + 1e-13, "longitude round trip")


# --- C10

sph_case = g.case(lat=g.lat(), lon=g.lon(), h=g.rel_alt(-0.9, 100), ell=g.ellspec(), deg=g.deg(), form=g.form())


@sub("C10", sph_case, n=250, fixed=[
    {"lat": la, "lon": 10.0, "h": h, "ell": e, "deg": d, "form": "s"}
    for la in (0.0, 90.0, -90.0, 45.0, 89.99999999) for h in (0.0, 0.01, -0.01)
    for e in ("wgs84", "jupiter", [7e6, 7e6]) for d in (True, False)
])
def geodetic2spherical_exact(c, rec):
    a, b = g.ab(c["ell"])
    lat, lon, h = whole(c["form"], *to_unit(c["lat"], c["lon"], c["deg"]), c["h"] * a)
    x, y, z = ref.geod2ecef(lat, lon, h, a, b, c["deg"])
    p = ref.norm((x, y))
    if c["h"] < -0.5 and not ref.outside_evolute(float(p), float(z), a, b):
        rec.trivial = True
        return
    tag_geo(rec, c)
    s, lo, r = lift(c["form"], pm.geodetic2spherical, (lat, lon, h, g.mk_ell(c["ell"])), {"deg": c["deg"]})
    want = mp.atan2(z, p)
    what = f"geodetic2spherical({lat},{lon},{h},{c['ell']},deg={c['deg']})"
    full = 180 if c["deg"] else math.pi
    amp = float((a + abs(h)) / ref.norm((x, y, z)))
    near(s, ref.outdeg(want, c["deg"]), 6 * EPS * full * amp, what + " latitude")
    near(lo, lon, 4 * EPS * abs(lon) + 1e-300, what + " longitude")
    near(r, ref.norm((x, y, z)), 12 * EPS * (a + abs(h)), what + " radius")
    # complement near the pole: absolute accuracy of the axis distance
    near(r * math.cos(float(rad(s, c["deg"]))), p, 30 * EPS * (a + abs(h)), what + " axis distance")


def rad(x, d):
    return math.radians(x) if d else x


@sub("C10", g.case(lat=g.lat(), lon=g.lon(), r=st.one_of(st.floats(0.5, 2), g.logmag(0, 3), st.just(1.0)),
                   ell=g.ellspec(), deg=g.deg(), form=g.form()), n=250)
def spherical2geodetic_exact(c, rec):
    """the geodetic answer is the very point at that geocentric direction and distance"""
    a, b = g.ab(c["ell"])
    lat, lon, r = whole(c["form"], *to_unit(c["lat"], c["lon"], c["deg"]), c["r"] * a)
    psi, lam = ref.rad(lat, c["deg"]), ref.rad(lon, c["deg"])
    p, z = r * mp.cos(psi), r * mp.sin(psi)
    if not ref.outside_evolute(float(p), float(z), a, b):
        rec.trivial = True
        return
    gl, lo, alt = lift(c["form"], pm.spherical2geodetic, (lat, lon, r, g.mk_ell(c["ell"])), {"deg": c["deg"]})
    phi, _, h = ref.ecef2geod_exact(p, 0, z, a, b)
    what = f"spherical2geodetic({lat},{lon},{r},{c['ell']},deg={c['deg']})"
    ratio = float((normal := ref.normal_radius(phi, a, b)) and (normal + h) / normal)
    amp = 40 * (1 + 1 / max(1e-3, ratio)) * (1 + (1 - b / a) * 60)
    full = 180 if c["deg"] else math.pi
    near(gl, ref.outdeg(phi, c["deg"]), EPS * full * amp, what + " latitude")
    near(lo, lon, 4 * EPS * abs(lon) + 1e-300, what + " longitude")
    near(alt, h, EPS * (a + r) * amp, what + " altitude")


@sub("C10", sph_case, n=100)
def agrees_with_ecef(c, rec):
    """same point as geodetic2ecef"""
    e = g.mk_ell(c["ell"])
    a, b = g.ab(c["ell"])
    h = c["h"] * a
    if h <= -0.3 * a:
        rec.trivial = True
        return
    x, y, z = (fl(v) for v in flat(call(pm.geodetic2ecef, c["lat"], c["lon"], h, e)))
    s, lo, r = (fl(v) for v in flat(call(pm.geodetic2spherical, c["lat"], c["lon"], h, e)))
    q = (r * math.cos(math.radians(s)) * math.cos(math.radians(lo)),
         r * math.cos(math.radians(s)) * math.sin(math.radians(lo)), r * math.sin(math.radians(s)))
    near(math.dist(q, (x, y, z)), 0, 60 * (a + abs(h)) * lon_tol(c["lon"], True), "spherical vs ECEF point")


# --- C13


@sub("C13", sph_case, n=250)
def geodetic2geocentric_exact(c, rec):
    a, b = g.ab(c["ell"])
    lat, h = whole(c["form"], to_unit(c["lat"], 0, c["deg"])[0], max(c["h"], -0.5) * a)
    x, _, z = ref.geod2ecef(lat, 0, h, a, b, c["deg"])
    if not ref.outside_evolute(float(x), float(z), a, b):
        rec.trivial = True
        return
    tag_geo(rec, {**c, "lon": 0})
    fn = pm.geodetic2geocentric if c["lon"] >= 0 else pm.geod2geoc
    (s,) = lift(c["form"], fn, (lat, h, g.mk_ell(c["ell"])), {"deg": c["deg"]})
    what = f"geodetic2geocentric({lat},{h},{c['ell']},deg={c['deg']})"
    amp = float((a + abs(h)) / ref.norm((x, z)))
    near(s, ref.outdeg(mp.atan2(z, x), c["deg"]), 8 * EPS * (180 if c["deg"] else math.pi) * amp, what)


@sub("C13", g.case(lat=g.lat(), h=g.rel_alt(-0.3, 100), ell=g.ellspec(fmax=0.11), deg=g.deg(), form=g.form()), n=250)
def geocentric2geodetic_inverts(c, rec):
    a, b = g.ab(c["ell"])
    h = c["h"] * a
    x, _, z = ref.geod2ecef(c["lat"], 0, h, a, b, True)
    if not ref.outside_evolute(float(x), float(z), a, b):
        rec.trivial = True
        return
    psi = float(ref.outdeg(mp.atan2(z, x), c["deg"]))
    (la,) = lift(c["form"], pm.geocentric2geodetic, (psi, h, g.mk_ell(c["ell"])), {"deg": c["deg"]})
    want = c["lat"] if c["deg"] else math.radians(c["lat"])
    full = 180 if c["deg"] else math.pi
    e2 = 1 - (b / a) ** 2
    # the fixed-point iteration contracts by about e^4/8 * |h|/a per step
    trunc = full * min(1.0, (e2 * e2 * min(1.0, abs(c["h"]))) ) ** 4
    near(la, want, 40 * EPS * full + trunc, f"geocentric2geodetic({psi},{h},{c['ell']},deg={c['deg']})")


@sub("C13", g.case(lat=g.lat(), h=g.rel_alt(-0.1, 60), ell=g.ellspec(fmax=0.11), deg=g.deg(), form=g.form()), n=250)
def geoc2geod_inverts(c, rec):
    """Long's second-order expansion: error of third order in flattening"""
    a, b = g.ab(c["ell"])
    f = 1 - b / a
    h = c["h"] * a
    x, _, z = ref.geod2ecef(c["lat"], 0, h, a, b, True)
    r = float(ref.norm((x, z)))
    psi = float(ref.outdeg(mp.atan2(z, x), c["deg"]))
    (la,) = lift(c["form"], pm.geoc2geod, (psi, r, g.mk_ell(c["ell"])), {"deg": c["deg"]})
    want = c["lat"] if c["deg"] else math.radians(c["lat"])
    full = 180 if c["deg"] else math.pi
    what = f"geoc2geod({psi},{r},{c['ell']},deg={c['deg']})"
    near(la, want, (40 * EPS + 1.0 * f**3) * full, what)
    # Long (1975) as published, or ten times closer to the point than that
    F, R, P = (mpf(a) - mpf(b)) / mpf(a), mpf(r) / mpf(a), ref.rad(psi, c["deg"])
    long = ref.outdeg(P + mp.sin(2 * P) / R * F + (1 / R**2 - 1 / (4 * R)) * mp.sin(4 * P) * F**2, c["deg"])
    if abs(la - long) > 10 * EPS * full:
        require(abs(mpf(la) - mpf(want)) <= (40 * EPS + 0.1 * f**3 / float(R) ** 2) * full, f"{what}: {la!r} is neither the published expansion {float(long)!r} nor better")
