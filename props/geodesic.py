"""C16-C21: geodesics (Vincenty, Karney, lines, polygons)"""
import math

from hypothesis import strategies as st
from mpmath import mp, mpf

from pymap3d import karney, vincenty

from harness import core, geo, ref
from harness import gens as g
from harness.core import Violation, bounded, call, fl, flat, in_range, lift, must_raise, require, sub

np = core.np
try:
    from pyproj import Geod
except ImportError:
    Geod = None

PI = math.pi
WGS = [6378137.0, 6356752.314245179]


def U(x, deg):
    if abs(x) < 1e-290:
        x = 0.0  # whether a subnormal angle survives a quotient is nobody's guarantee
    return x if deg else math.radians(x)


def D(x, deg):
    """angle argument, in degrees"""
    return x if deg else math.degrees(x)


def clamp(x):
    return max(-90.0, min(90.0, x))


# --- pairs of points (degrees)

dlt = st.one_of(st.just(0.0), g.signed(g.logmag(-13, 0)), g.signed(g.logmag(-4, 1)))
pair = st.one_of(
    st.tuples(g.lat(), g.lon(), g.lat(), g.lon()),
    st.tuples(st.floats(-90, 90), st.floats(-180, 180), st.floats(-90, 90), st.floats(-180, 180)),
    # close to one another
    st.builds(lambda p, l, d, e: (p, l, clamp(p + d), l + e), g.lat(), g.lon(), dlt, dlt),
    # meridians, also over a pole
    st.builds(lambda p, l, q, k: (p, l, q, l + k), g.lat(), g.lon(), g.lat(), st.sampled_from([0.0, 180.0, -180.0, 360.0])),
    # along and near the equator
    st.builds(lambda p, l, q, d: (p, l, q, l + d), dlt, g.lon(), dlt, g.angle(-180.0, 180.0, g.LONS)),
    # same parallel
    st.builds(lambda p, l, d, s: (p, l, p * s, l + d), g.lat(), g.lon(), g.angle(-180.0, 180.0, g.LONS), st.sampled_from([1, -1])),
    # one end at or near a pole
    st.builds(lambda s, e, l, q, m: (clamp(s * (90 - e)), l, q, m), st.sampled_from([1, -1]),
              st.one_of(st.just(0.0), g.logmag(-13, 0)), g.lon(), g.lat(), g.lon()),
)
anti = st.builds(
    lambda p, l, d, e, k: (p, l, clamp(-p + d), l + 180 * k + e),
    st.one_of(g.lat(), dlt), g.lon(), dlt, dlt, st.sampled_from([1, -1]),
)


def ell_small(fmax=0.02):
    import pymap3d

    ns = [n for n in g.names() if (lambda e: e.semimajor_axis > 0 and 1 - e.semiminor_axis / e.semimajor_axis <= fmax)(
        pymap3d.Ellipsoid.from_name(n))]
    cust = st.builds(
        lambda a, f: [a, a * (1 - f)],
        st.sampled_from([6378137.0, 1.0, 1e3, 6.9911e7, 2.5e5]),
        st.one_of(st.sampled_from([0.0, 1e-9, 1 / 300, 1 / 298.257223563, 1 / 150, 0.01, 0.02]), st.floats(0, fmax)),
    )
    return st.one_of(st.just("wgs84"), st.just("wgs84"), st.sampled_from(ns), cust)


def angular(p, f):
    """angle between the points on the auxiliary sphere (reduced latitudes, plain longitude difference)"""
    b1, b2 = (math.atan2((1 - f) * math.sin(math.radians(x)), math.cos(math.radians(x))) for x in (p[0], p[2]))
    d = math.radians(math.remainder(p[3] - p[1], 360))
    x = math.cos(b2) * math.sin(d)
    y = math.cos(b1) * math.sin(b2) - math.sin(b1) * math.cos(b2) * math.cos(d)
    z = math.sin(b1) * math.sin(b2) + math.cos(b1) * math.cos(b2) * math.cos(d)
    return math.atan2(math.hypot(x, y), z)


def back(lat2, lon2, azi2, s, lat1, lon1, a, b, deg):
    """miss of the geodesic run backwards from the far end with the far azimuth"""
    return geo.miss(lat2, lon2, azi2, -s, lat1, lon1, a, b, deg)[0]


def near_pole(x):
    return abs(x) > 90 - 7e-9


# ---------------------------------------------------------------- Vincenty

# truncation of Vincenty's series as a fraction of the distance
def vin_trunc(f):
    return 0.2 * f**4


def vin_tol(s, a, f, *lats):
    return a * 2e-14 + min(4e-12 * a, 2 * f * s) + s * vin_trunc(f) + a * 1.6e-10 * sum(near_pole(x) for x in lats)


def label(x, c):
    lats = [c["lat1"]] if "lat1" in c else [c["p"][0], c["p"][2]]
    return x + (" pole" if any(map(near_pole, lats)) else "")


vcase = g.case(p=pair.map(list), ell=ell_small(), deg=g.deg(), form=g.form())


def vin_domain(c):
    a, b = g.ab(c["ell"])
    f = (a - b) / a
    return angular(c["p"], f) < PI * (1 - 1.5 * f) - 1e-3 / (1 + 1e3 * f)


@sub("C16", vcase, n=400, fixed=[
    dict(p=[0, 0, 0, 90], ell="wgs84", deg=True, form="s"),
    dict(p=[90, 0, -89, 10], ell="wgs84", deg=True, form="s"),
    dict(p=[10, 20, 10, 20], ell="wgs84", deg=True, form="s"),
    dict(p=[50, 0, 60, -1], ell="wgs84", deg=True, form="s"),
])
def vdist_reaches_the_second_point(c, rec):
    """running the returned distance and azimuth on an independent geodesic lands on point 2, the short way"""
    if not vin_domain(c):
        rec.trivial = True
        return
    a, b = g.ab(c["ell"])
    f, deg, e = (a - b) / a, c["deg"], g.mk_ell(c["ell"])
    p = [U(x, deg) for x in c["p"]]
    p[0], p[2] = (max(-PI / 2, min(PI / 2, x)) if not deg else x for x in (p[0], p[2]))
    s, az = lift(c["form"], vincenty.vdist, p, dict(ell=e, deg=deg))
    what = f"vdist{tuple(p)} {c['ell']} deg={deg} -> ({s!r}, {az!r})"
    require(math.isfinite(s) and math.isfinite(az) and s >= 0, what)
    in_range(az, 0, 360 if deg else 2 * PI, what + " azimuth")
    tol = vin_tol(s, a, f, D(p[0], deg), D(p[2], deg))
    m, lam, al, arc = geo.miss(p[0], p[1], az, s, p[2], p[3], a, b, deg)
    bounded(m, tol, what + " does not land on the second point", label("vdist landing", c))
    require(arc <= PI * (1 + 1e-9), what + " is not the shortest geodesic")
    if D(p[0], deg) == D(p[2], deg) and p[1] == p[3]:
        bounded(s, a * 1e-15, what + " for coincident points")
    # the other way, and full turns
    s2, az2 = lift(c["form"], vincenty.vdist, [p[2], p[3], p[0], p[1]], dict(ell=e, deg=deg))
    bounded(abs(s - s2), 2 * tol, what + f" against the reverse {s2!r}", "vdist symmetric")
    m2 = geo.miss(p[2], p[3], az2, s2, p[0], p[1], a, b, deg)[0]
    bounded(m2, tol, what + " reversed does not land on the first point")
    rec.tag("form:" + c["form"], "far" if s > a else "near")


@sub("C16", vcase, n=150)
def vdist_full_turns(c, rec):
    if not vin_domain(c):
        rec.trivial = True
        return
    a, b = g.ab(c["ell"])
    e = g.mk_ell(c["ell"])
    p = c["p"]
    s, az = call(vincenty.vdist, *p, ell=e)
    for q in ([p[0], p[1] + 360, p[2], p[3]], [p[0], p[1], p[2], p[3] - 360], [p[0], p[1] - 720, p[2], p[3] + 360]):
        t, at = call(vincenty.vdist, *q, ell=e)
        tol = a * 1e-13 + s * 4e-12
        bounded(abs(t - s), tol, f"vdist{tuple(q)} {c['ell']} -> {t!r}, {s!r} without the turns", "vdist turns")


@sub("C16", g.case(p=pair.map(list), ell=st.one_of(st.just("wgs84"), st.sampled_from(["grs80", "airy", "clarke1866"]))), n=250, cfgs="f")
def vdist_against_proj(c, rec):
    if Geod is None or not vin_domain(c):
        rec.trivial = True
        return
    a, b = g.ab(c["ell"])
    f = (a - b) / a
    p = c["p"]
    s, az = call(vincenty.vdist, *p, ell=g.mk_ell(c["ell"]))
    azp, _, sp = Geod(a=a, b=b).inv(p[1], p[0], p[3], p[2])
    tol = vin_tol(s, a, f, p[0], p[2])
    bounded(abs(fl(s) - sp), tol, f"vdist{tuple(p)} {c['ell']} -> {s!r}, PROJ {sp!r}", "vdist proj")
    m12 = a * math.sin(min(PI, sp / b))
    if m12 > 1 and abs(p[0]) < 89.9:
        d = abs(math.remainder(math.radians(fl(az) - azp), 2 * PI)) * m12
        bounded(d, 3 * tol, f"vdist{tuple(p)} azimuth {az!r}, PROJ {azp!r}", "vdist proj az")


dist_frac = st.one_of(st.just(0.0), g.logmag(-10, 0), st.floats(0, 3.2), st.floats(0, 12))
start = dict(lat1=st.one_of(g.lat(), g.lat(), dlt), lon1=g.lon(), az=g.az_wide(), ell=ell_small(), deg=g.deg())


@sub("C17", g.case(**start, s=dist_frac, form=g.form()), n=500)
def vreckon_lands(c, rec):
    a, b = g.ab(c["ell"])
    f, deg, e = (a - b) / a, c["deg"], g.mk_ell(c["ell"])
    lat1, lon1, az = U(c["lat1"], deg), U(c["lon1"], deg), U(c["az"], deg)
    s = c["s"] * a
    lat2, lon2 = lift(c["form"], vincenty.vreckon, [lat1, lon1, s, az], dict(ell=e, deg=deg))
    what = f"vreckon{(lat1, lon1, s, az)} {c['ell']} deg={deg} -> ({lat2!r}, {lon2!r})"
    in_range(lat2, -90 if deg else -PI / 2, 90 if deg else PI / 2, what)
    in_range(lon2, 0, 360 if deg else 2 * PI, what)
    m = geo.miss(lat1, lon1, az, s, lat2, lon2, a, b, deg)[0]
    bounded(m, vin_tol(s, a, f, c["lat1"]) + a * 3e-15, what + " is not the end of the geodesic",
            label("vreckon", c))
    rec.tag("form:" + c["form"])
    rec.trivial = s == 0


@sub("C17", g.case(lat1=g.lat(), lon1=g.lon(), az=g.az_wide(), ell=ell_small(), s=g.logmag(0, 8), flat=st.one_of(st.none(), st.floats(0.2, 0.99)), n=st.integers(1, 3)), n=100, fixed=[
    dict(lat1=28.609068705282283, lon1=0.0, az=197.91818400001597, ell="wgs84", s=66082305744.247925 / 6378137, flat=None, n=1),
    dict(lat1=-16.160900900702046, lon1=0.0, az=5.528060928680705, ell="wgs84", s=12894149.576252794 / 6378137, flat=0.5, n=1),
])
def vreckon_returns(c, rec):
    """lines of any number of turns; bodies so flat that nothing converges have at least to give an answer"""
    a, b = g.ab(c["ell"])
    flat = c["flat"] is not None
    if flat:
        b = a * (1 - c["flat"])
    f, e = (a - b) / a, g.mk_ell([a, b] if flat else c["ell"])
    s = c["s"] * a
    if c["n"] > 1 and np is not None:
        lat2, lon2 = call(vincenty.vreckon, c["lat1"], c["lon1"], np.array([s] * c["n"]), c["az"], ell=e)
        require(lat2.shape == lon2.shape == (c["n"],), f"shapes {lat2.shape} {lon2.shape}")
        lat2, lon2 = lat2[-1], lon2[-1]
    else:
        lat2, lon2 = call(vincenty.vreckon, c["lat1"], c["lon1"], s, c["az"], ell=e)
    if flat or c["s"] > 1e5:
        rec.tag("only returned")
        return
    m = geo.miss(c["lat1"], c["lon1"], c["az"], s, lat2, lon2, a, b, True)[0]
    bounded(m, vin_tol(s, a, f, c["lat1"]) + a * 3e-15 + 3e-15 * s, f"vreckon{(c['lat1'], c['lon1'], s, c['az'])} {c['ell']} -> ({lat2!r}, {lon2!r})", label("long vreckon", c))


@sub("C17", vcase, n=200)
def vreckon_undoes_vdist(c, rec):
    if not vin_domain(c):
        rec.trivial = True
        return
    a, b = g.ab(c["ell"])
    f, deg, e = (a - b) / a, c["deg"], g.mk_ell(c["ell"])
    p = [U(x, deg) for x in c["p"]]
    s, az = call(vincenty.vdist, *p, ell=e, deg=deg)
    q = call(vincenty.vreckon, p[0], p[1], s, az, ell=e, deg=deg)
    r, t = (geo.xyz(ref.rad(y, deg), ref.rad(x, deg), a, b) for y, x in ((fl(q[0]), fl(q[1])), (p[2], p[3])))
    bounded(ref.norm(ref.sub3(r, t)), 2 * vin_tol(fl(s), a, f, c["p"][0], c["p"][2]), f"vreckon(vdist{tuple(p)}) -> {q}", label("vreckon of vdist", c))


def points(r):
    lats, lons = r
    return [fl(x) for x in lats], [fl(x) for x in lons]


def check_line(what, lats, lons, n, p, az, s, a, b, deg, tol, label):
    require(len(lats) == len(lons) == n, f"{what}: {len(lats)}, {len(lons)} points for npts={n}")
    ln = geo.Line(p[0], az, a, b, deg)
    lam1 = ref.rad(p[1], deg)
    # of many points, some
    for i in range(n) if n <= 12 else sorted({0, 1, n - 2, n - 1, *range(n % 7, n, n // 8)}):
        phi, lam, _, _ = ln.end(s * i / (n - 1) if n > 1 else 0.0)
        want = geo.xyz(phi, lam + lam1, a, b)
        got = geo.xyz(ref.rad(lats[i], deg), ref.rad(lons[i], deg), a, b)
        bounded(ref.norm(ref.sub3(got, want)), tol, f"{what}: point {i} of {n} at ({lats[i]!r}, {lons[i]!r})", label)
    end = geo.xyz(ref.rad(p[2], deg), ref.rad(p[3], deg), a, b)
    if n > 1:
        got = geo.xyz(ref.rad(lats[-1], deg), ref.rad(lons[-1], deg), a, b)
        bounded(ref.norm(ref.sub3(got, end)), 2 * tol, f"{what}: last point ({lats[-1]!r}, {lons[-1]!r})", label)


MANY = st.one_of(st.integers(300, 3000), st.sampled_from([64, 100, 128, 256, 512, 999, 1000, 1001, 1024, 2048]), st.sampled_from([5000, 10001]))


@sub("C17", g.case(p=pair.map(list), ell=ell_small(), deg=g.deg(), n=st.one_of(st.integers(2, 9), st.integers(2, 9), st.integers(2, 12), st.integers(10, 300), MANY)), n=150)
def track2_is_the_geodesic(c, rec):
    if not vin_domain(c):
        rec.trivial = True
        return
    a, b = g.ab(c["ell"])
    f, deg, e, n = (a - b) / a, c["deg"], g.mk_ell(c["ell"]), c["n"]
    p = [U(x, deg) for x in c["p"]]
    lats, lons = points(call(vincenty.track2, *p, ell=e, npts=n, deg=deg))
    s, az = call(vincenty.vdist, *p, ell=e, deg=deg)
    tol = 2 * vin_tol(fl(s), a, f, c["p"][0], c["p"][2])
    check_line(f"track2{tuple(p)} {c['ell']} deg={deg}", lats, lons, n, p, fl(az), fl(s), a, b, deg, tol, label("track2", c))
    rec.tag(f"npts:{min(n, 3)}")


@sub("C17", g.case(**start, s=dist_frac, bad=g.logmag(-12, 2), npts=st.integers(-3, 1), n=st.integers(3, 6)), n=150)
def vincenty_guards(c, rec):
    e, deg = g.mk_ell(c["ell"]), c["deg"]
    a = e.semimajor_axis
    lat1, lon1, az = U(c["lat1"], deg), U(c["lon1"], deg), U(c["az"], deg)
    lim = 90.0 if deg else PI / 2
    over = lim + max(c["bad"], 1e-13)
    s = c["s"] * a
    kw = dict(ell=e, deg=deg)
    must_raise(ValueError, vincenty.vreckon, lat1, lon1, -c["bad"], az, **kw)
    for sg in (1, -1):
        must_raise(ValueError, vincenty.vreckon, sg * over, lon1, s, az, **kw)
        must_raise(ValueError, vincenty.vdist, sg * over, lon1, 0.0, 0.0, **kw)
        must_raise(ValueError, vincenty.vdist, 0.0, 0.0, sg * over, lon1, **kw)
        call(vincenty.vdist, sg * lim, lon1, 0.3, 0.1, **kw)
        call(vincenty.vreckon, sg * lim, lon1, s, az, **kw)
    call(vincenty.vreckon, lat1, lon1, 0.0, az, **kw)
    must_raise(ValueError, vincenty.track2, lat1, lon1, 0.1, 0.2, npts=c["npts"], **kw)
    half = 180.0 if deg else PI
    # exactly antipodal, as far as the arguments can say
    if deg and abs(lon1) <= 180 and (lon1 + half) - half == lon1:
        must_raise(ValueError, vincenty.track2, lat1, lon1, -lat1, lon1 + half, npts=c["n"], **kw)
    # all but antipodal is not antipodal
    if abs(c["lat1"]) < 60:
        off = min(max(c["bad"], 1e-4), 20.0)
        la, lo = points(call(vincenty.track2, lat1, lon1, -lat1 + U(off, deg), lon1 + half, npts=c["n"], **kw))
        require(len(la) == len(lo) == c["n"] and abs(la[0] - lat1) < 1e-9 * lim and abs(math.remainder(lo[0] - lon1, 2 * half)) < 1e-9 * lim, f"track2 from {(lat1, lon1)} to {off} degrees from the antipode: {la} {lo}")
    if np is not None:
        must_raise(ValueError, vincenty.vreckon, lat1, lon1, np.array([s, -c["bad"]]), az, **kw)
        must_raise(ValueError, vincenty.vreckon, np.array([lat1, -over]), lon1, np.array([s, s]), az, **kw)
        must_raise(ValueError, vincenty.vdist, np.array([lat1, over]), lon1, np.zeros(2), np.zeros(2), **kw)


flat_ell = st.builds(lambda a, f: [a, a * (1 - f)], st.sampled_from([6378137.0, 1.0, 6.9911e7]), st.one_of(st.sampled_from([1 / 298.257223563, 0.02, 0.05, 0.1, 0.2]), st.floats(0, 0.2)))


@sub("C16", g.case(p=pair.map(list), ell=flat_ell), n=250)
def vdist_as_published(c, rec):
    """on much flatter bodies: the result of Vincenty's own expansions, or closer to the truth"""
    a, b = g.ab(c["ell"])
    f = (a - b) / a
    p = c["p"]
    want = geo.vincenty_inverse(*map(math.radians, p), a, b) if angular(p, f) < 2.3 else None
    if want is None or near_pole(p[0]) or near_pole(p[2]):
        rec.trivial = True
        return
    s, az = (fl(x) for x in call(vincenty.vdist, *p, ell=g.mk_ell(c["ell"])))
    S, Z = want
    d = abs(s - S)
    m12 = math.sin(min(PI, S / b))
    if m12 > 1e-3 and max(abs(p[0]), abs(p[2])) < 89.9:
        d = max(d, a * m12 * abs(math.remainder(math.radians(az) - Z, 2 * PI)))
    if d > a * 1e-11:
        m = geo.miss(p[0], p[1], az, s, p[2], p[3], a, b, True)[0]
        bounded(m, 0.2 * d, f"vdist{tuple(p)} {c['ell']} -> {(s, az)}, as published {(S, math.degrees(Z) % 360)}", "")


@sub("C17", g.case(lat1=st.one_of(g.lat(), dlt), lon1=g.lon(), az=g.az_wide(), ell=flat_ell, s=st.one_of(g.logmag(-8, 0), st.floats(0, 6))), n=250)
def vreckon_as_published(c, rec):
    a, b = g.ab(c["ell"])
    if near_pole(c["lat1"]):
        rec.trivial = True
        return
    p = (c["lat1"], c["lon1"], c["s"] * a, c["az"])
    la, lo = (fl(x) for x in call(vincenty.vreckon, *p, ell=g.mk_ell(c["ell"])))
    B, dl = geo.vincenty_direct(math.radians(p[0]), 0.0, math.radians(p[3]), p[2], a, b)
    r = geo.xyz(ref.rad(la, True), ref.rad(lo, True), a, b)
    t = geo.xyz(B, ref.rad(p[1], True) + dl, a, b)
    d = float(ref.norm(ref.sub3(r, t)))
    if d > a * 2e-11:
        m = geo.miss(p[0], p[1], p[3], p[2], la, lo, a, b, True)[0]
        bounded(m, 0.2 * d, f"vreckon{p} {c['ell']} -> {(la, lo)}, as published {(math.degrees(B), p[1] + math.degrees(dl))}", "")


# ---------------------------------------------------------------- Karney


def kar_tol(s, a, f):
    return a * (2e-15 + 0.02 * f**6) + abs(s) * 7e-16


kcase = g.case(p=st.one_of(pair, anti).map(list), ell=ell_small(), deg=g.deg())


@sub("C18", kcase, n=600, fixed=[
    dict(p=[0, 0, 0, 180], ell="wgs84", deg=True),
    dict(p=[0, 0, 0, 179.5], ell="wgs84", deg=True),
    dict(p=[0, 0, 0.5, 179.7], ell="wgs84", deg=True),
    dict(p=[30, 0, -30, 180], ell="wgs84", deg=True),
    dict(p=[90, 5, -90, 40], ell="wgs84", deg=True),
    dict(p=[12, 34, 12, 34], ell="wgs84", deg=True),
    dict(p=[30, 0, -29.9, 179.8], ell="wgs84", deg=True),
])
def inverse_is_the_shortest_geodesic(c, rec):
    a, b = g.ab(c["ell"])
    f, deg, e = (a - b) / a, c["deg"], g.mk_ell(c["ell"])
    p = [U(x, deg) for x in c["p"]]
    s, az1, az2 = (fl(x) for x in call(karney.geodesic_inverse, *p, ell=e, deg=deg))
    what = f"geodesic_inverse{tuple(p)} {c['ell']} deg={deg} -> {(s, az1, az2)}"
    require(all(map(math.isfinite, (s, az1, az2))) and s >= 0, what)
    tol = kar_tol(s, a, f)
    # radians are turned into degrees first: half an ulp of each angle
    tol += 0 if deg else a * 3e-16 * (4 + abs(p[1]) + abs(p[3]))
    m, lam, al, arc = geo.miss(p[0], p[1], az1, s, p[2], p[3], a, b, deg)
    bounded(m, 2 * tol, what + " does not land on the second point", "inverse landing")
    require(arc <= PI * (1 + 1e-12) + 3 * tol / b, what + f" is not the shortest geodesic (arc {float(arc)!r})")
    m2 = back(p[2], p[3], az2, s, p[0], p[1], a, b, deg)
    bounded(m2, 2 * tol, what + ": the azimuth at the second point does not lead back", "inverse azi2")
    t = fl(call(karney.geodesic_inverse, p[2], p[3], p[0], p[1], ell=e, deg=deg)[0])
    bounded(abs(t - s), tol, what + f": reversed length {t!r}", "inverse symmetric")
    ang = angular(c["p"], f)
    rec.tag("antipodal" if ang > PI * (1 - 1.5 * f) else "far" if s > 0.1 * a else "near")
    if c["p"][0] == c["p"][2] and math.remainder(c["p"][1] - c["p"][3], 360) == 0 and c["p"][1] == c["p"][3]:
        bounded(s, 0.0, what + " for coincident points")


@sub("C18", g.case(u=st.one_of(st.floats(0, 1.3), st.floats(0.9, 1.02)), p1=st.one_of(st.just(0.0), dlt), p2=st.one_of(st.just(0.0), st.just(0.0), st.floats(-1, 1), g.signed(g.logmag(-9, 0))), l=g.lon(), side=st.sampled_from([1.0, -1.0]), ell=ell_small(), deg=g.deg()), n=150)
def inverse_around_the_lobe(c, rec):
    """where the shortest way leaves the equator or changes sides: within half a turn less f, in units of f"""
    a, b = g.ab(c["ell"])
    f = (a - b) / a
    if f == 0:
        rec.trivial = True
        return
    p1 = c["p1"]
    p = [p1, c["l"], clamp(-p1 + 180.0 * f * c["p2"]), c["l"] + c["side"] * 180.0 * (1 - f * c["u"])]
    inverse_is_the_shortest_geodesic(dict(p=p, ell=c["ell"], deg=c["deg"]), rec)
    if Geod is not None and c["deg"]:
        inverse_against_proj(dict(p=p, ell=c["ell"]), rec)
    rec.tag("both on the equator" if p[0] == p[2] == 0 else "near it")


@sub("C18", kcase, n=200)
def inverse_turns_and_triangles(c, rec):
    a, b = g.ab(c["ell"])
    f, e = (a - b) / a, g.mk_ell(c["ell"])
    p = c["p"]
    inv = lambda *q: fl(call(karney.geodesic_inverse, *q, ell=e)[0])  # noqa: E731
    s = inv(*p)
    tol = kar_tol(s, a, f)
    for q in ([p[0], p[1] + 360, p[2], p[3]], [p[0], p[1], p[2], p[3] - 720]):
        t = inv(*q)
        bounded(abs(t - s), 2 * tol + a * 4e-15 * 20, f"geodesic_inverse{tuple(q)} -> {t!r}, {s!r} without the turns", "inverse turns")
    # no longer than by way of a third point; mirrors have the same length
    for mid in ((0.0, p[1]), (p[2], p[1] + 90), (clamp(0.5 * (p[0] + p[2])), 0.5 * (p[1] + p[3]))):
        u = inv(p[0], p[1], *mid) + inv(*mid, p[2], p[3])
        require(s <= u + 4 * tol, f"geodesic_inverse{tuple(p)} {c['ell']} = {s!r}, longer than by way of {mid}: {u!r}")
    for q in ([-p[0], p[1], -p[2], p[3]], [p[0], -p[1], p[2], -p[3]]):
        t = inv(*q)
        bounded(abs(t - s), 2 * tol, f"geodesic_inverse{tuple(q)} -> {t!r}, mirrored {s!r}", "inverse mirror")


@sub("C18", g.case(p=st.one_of(pair, anti).map(list), ell=ell_small()), n=500, cfgs="f")
def inverse_against_proj(c, rec):
    if Geod is None:
        rec.trivial = True
        return
    a, b = g.ab(c["ell"])
    f = (a - b) / a
    p = c["p"]
    s = fl(call(karney.geodesic_inverse, *p, ell=g.mk_ell(c["ell"]))[0])
    sp = Geod(a=a, b=b).inv(p[1], p[0], p[3], p[2])[2]
    bounded(abs(s - sp), 2 * kar_tol(s, a, f), f"geodesic_inverse{tuple(p)} {c['ell']} -> {s!r}, PROJ {sp!r}", "inverse proj")



@sub("C18", g.case(p=st.one_of(pair, anti).map(list), ell=flat_ell), n=400, cfgs="f")
def inverse_as_proj(c, rec):
    """on much flatter bodies: the result of the same sixth-order expansions, or closer to the truth"""
    if Geod is None:
        rec.trivial = True
        return
    a, b = g.ab(c["ell"])
    p = c["p"]
    s, az1, az2 = (fl(x) for x in call(karney.geodesic_inverse, *p, ell=g.mk_ell(c["ell"])))
    ap, bp, sp = Geod(a=a, b=b).inv(p[1], p[0], p[3], p[2])
    what = f"geodesic_inverse{tuple(p)} {c['ell']} -> {(s, az1, az2)}, PROJ {(sp, ap, bp)}"
    if abs(s - sp) > a * 8e-15:
        m = geo.miss(p[0], p[1], az1, s, p[2], p[3], a, b, True)[0]
        bounded(m, 0.2 * abs(s - sp), what + " (distance)", "")
    m12 = math.sin(sp / b) if sp < b * (PI - 0.05) else 0.0
    if m12 > 1e-3 and max(abs(p[0]), abs(p[2])) < 89.9:
        d = max(abs(math.remainder(az1 - ap, 360)), abs(math.remainder(az2 - bp, 360))) * math.radians(m12)
        k = min(math.cos(math.radians(p[0])), math.cos(math.radians(p[2])))
        if d * k > 1e-14:
            m = geo.miss(p[0], p[1], az1, s, p[2], p[3], a, b, True)[0]
            bounded(m / a, 0.2 * d * k, what + " (azimuths)", "")
    rec.trivial = sp == 0


@sub("C19", g.case(lat1=st.one_of(g.lat(), dlt), lon1=g.lon(), az=g.az_wide(), ell=flat_ell, s=st.one_of(g.signed(dist_frac), st.floats(0, 3.2))), n=400, cfgs="f")
def direct_as_proj(c, rec):
    if Geod is None:
        rec.trivial = True
        return
    a, b = g.ab(c["ell"])
    p = (c["lat1"], c["lon1"], c["az"], c["s"] * a)
    la, lo, az = (fl(x) for x in call(karney.geodesic_direct, *p, ell=g.mk_ell(c["ell"])))
    L, B, Z = Geod(a=a, b=b).fwd(p[1], p[0], p[2], p[3])
    Z += 180
    what = f"geodesic_direct{p} {c['ell']} -> {(la, lo, az)}, PROJ {(B, L, Z)}"
    r, t = (geo.xyz(ref.rad(y, True), ref.rad(x, True), a, b) for y, x in ((la, lo), (B, L)))
    d = float(ref.norm(ref.sub3(r, t)))
    k = math.cos(math.radians(B))
    if k > 1e-3:
        d = max(d, a * k * abs(math.radians(math.remainder(az - Z, 360))))
    if d > a * 1e-15 * (6 + abs(math.radians(c["lon1"])) + 2 * abs(c["s"])):
        m = geo.miss(*p, la, lo, a, b, True)[0]
        bounded(m, 0.2 * d, what, "")
    rec.trivial = p[3] == 0


sdist = st.one_of(g.signed(dist_frac), g.signed(g.logmag(-10, 1)), st.floats(-14, 14))


@sub("C19", g.case(**start, s=sdist), n=600)
def direct_lands(c, rec):
    a, b = g.ab(c["ell"])
    f, deg, e = (a - b) / a, c["deg"], g.mk_ell(c["ell"])
    lat1, lon1, az = U(c["lat1"], deg), U(c["lon1"], deg), U(c["az"], deg)
    s = c["s"] * a
    lat2, lon2, az2 = (fl(x) for x in call(karney.geodesic_direct, lat1, lon1, az, s, ell=e, deg=deg))
    what = f"geodesic_direct{(lat1, lon1, az, s)} {c['ell']} deg={deg} -> {(lat2, lon2, az2)}"
    in_range(lat2, -90 if deg else -PI / 2, 90 if deg else PI / 2, what)
    in_range(lon2, -180 if deg else -PI, 180 if deg else PI, what + " (longitude)")
    in_range(az2, -180 if deg else -PI, 180 if deg else PI, what + " (azimuth)")
    tol = kar_tol(s, a, f) + a * 3e-16 * ((0 if deg else 4 + abs(lon1)) + abs(math.radians(c["lon1"])))
    m, lam, al, arc = geo.miss(lat1, lon1, az, s, lat2, lon2, a, b, deg)
    bounded(m, 2 * tol, what + " is not the end of the geodesic", "direct landing")
    bounded(back(lat2, lon2, az2, s, lat1, lon1, a, b, deg), 3 * tol, what + ": the final azimuth does not lead back", "direct back")
    if abs(D(lat2, deg)) < 89:
        d = abs(math.remainder(float(ref.rad(az2, deg) - al), 2 * PI)) * math.cos(math.radians(D(lat2, deg)))
        bounded(d, 3 * tol / a + 1e-15, what + ": azimuth at the end", "direct azimuth")
    # back with the negative distance
    q = [fl(x) for x in call(karney.geodesic_direct, lat2, lon2, az2, -s, ell=e, deg=deg)]
    r, t = (geo.xyz(ref.rad(y, deg), ref.rad(x, deg), a, b) for y, x in ((q[0], q[1]), (lat1, lon1)))
    bounded(ref.norm(ref.sub3(r, t)), 5 * tol, what + f" and back: {q}", "direct and back")
    rec.trivial = s == 0
    rec.tag("several turns" if abs(c["s"]) > 2 * PI else "within a turn", "backwards" if s < 0 else "forwards")


@sub("C19", g.case(**start, s=sdist, fr=st.one_of(st.floats(0, 1), st.floats(-2, 3))), n=300)
def direct_splits(c, rec):
    a, b = g.ab(c["ell"])
    f, deg, e = (a - b) / a, c["deg"], g.mk_ell(c["ell"])
    lat1, lon1, az = U(c["lat1"], deg), U(c["lon1"], deg), U(c["az"], deg)
    s = c["s"] * a
    u = s * c["fr"]
    one = [fl(x) for x in call(karney.geodesic_direct, lat1, lon1, az, s, ell=e, deg=deg)]
    mid = [fl(x) for x in call(karney.geodesic_direct, lat1, lon1, az, u, ell=e, deg=deg)]
    two = [fl(x) for x in call(karney.geodesic_direct, *mid, s - u, ell=e, deg=deg)]
    r, t = (geo.xyz(ref.rad(q[0], deg), ref.rad(q[1], deg), a, b) for q in (one, two))
    tol = kar_tol(abs(s) + abs(u) + abs(s - u), a, f) + a * 3e-16 * (abs(math.radians(c["lon1"])) + 4)
    bounded(ref.norm(ref.sub3(r, t)), 5 * tol, f"geodesic_direct{(lat1, lon1, az, s)} {c['ell']} deg={deg}: {one}, split at {u!r}: {two}", "direct split")


@sub("C19", g.case(**start, s=st.one_of(g.logmag(-8, 0), st.floats(0, 3.1))), n=300)
def inverse_recovers_direct(c, rec):
    a, b = g.ab(c["ell"])
    f, deg, e = (a - b) / a, c["deg"], g.mk_ell(c["ell"])
    lat1, lon1, az = U(c["lat1"], deg), U(c["lon1"], deg), U(c["az"], deg)
    s = c["s"] * a
    arc = float(geo.Line(lat1, az, a, b, deg).end(s)[3])
    if arc > PI * (1 - 1e-3) - 3 * f * 0:
        rec.trivial = True
        return
    q = [fl(x) for x in call(karney.geodesic_direct, lat1, lon1, az, s, ell=e, deg=deg)]
    t, az1, az2 = (fl(x) for x in call(karney.geodesic_inverse, lat1, lon1, q[0], q[1], ell=e, deg=deg))
    tol = kar_tol(s, a, f) + a * 3e-16 * (abs(math.radians(c["lon1"])) + 4)
    what = f"geodesic_inverse of geodesic_direct{(lat1, lon1, az, s)} {c['ell']} deg={deg} = {q} -> {(t, az1, az2)}"
    bounded(abs(t - s), 3 * tol, what, "inverse of direct")
    m12 = a * math.sin(arc) * 0.9
    if abs(c["lat1"]) < 89.99 and m12 > 0:
        d = abs(math.remainder(float(ref.rad(az1, deg) - ref.rad(az, deg)), 2 * PI))
        bounded(d * m12, 6 * tol, what + " azimuth", "inverse of direct azimuth")


@sub("C20", g.case(p=st.one_of(pair, pair, anti).map(list), ell=ell_small(), deg=g.deg(), n=st.one_of(st.integers(1, 12), st.just(2), st.just(None), st.integers(13, 300), MANY)), n=200,
     fixed=[dict(p=[0, 0, 0, 180], ell="wgs84", deg=True, n=5), dict(p=[10, 170, -20, -170], ell="wgs84", deg=False, n=7)])
def geodesic_line_points(c, rec):
    a, b = g.ab(c["ell"])
    f, deg, e, n = (a - b) / a, c["deg"], g.mk_ell(c["ell"]), c["n"]
    p = [U(x, deg) for x in c["p"]]
    kw = {} if n is None else dict(npts=n)
    lats, lons = points(call(karney.geodesic_line, *p, ell=e, deg=deg, **kw))
    n = 100 if n is None else n
    require(len(lats) == n, f"geodesic_line gave {len(lats)} points, npts={n}")
    s, az, _ = (fl(x) for x in call(karney.geodesic_inverse, *p, ell=e, deg=deg))
    tol = 3 * (kar_tol(s, a, f) + a * 3e-16 * (abs(math.radians(c["p"][1])) + abs(math.radians(c["p"][3])) + 4))
    check_line(f"geodesic_line{tuple(p)} {c['ell']} deg={deg}", lats, lons, n, p, az, s, a, b, deg, tol, "geodesic_line")
    rec.tag(f"npts:{min(n, 3)}")


# ---------------------------------------------------------------- polygons

vertex = st.tuples(g.lat(), g.lon()).map(list)


def around(p, l, r, fr):
    """polygon around a point: radii r*fr_i degrees, evenly spaced bearings (latitude/longitude plane)"""
    n = len(fr)
    c = max(0.05, math.cos(math.radians(p)))
    return [[clamp(p + r * x * math.cos(2 * PI * i / n)), l + r * x * math.sin(2 * PI * i / n) / c] for i, x in enumerate(fr)]


def cap(s, fr, l, dirn):
    """polygon around a pole"""
    n = len(fr)
    return [[s * (90 - 80 * x), l + dirn * 360.0 * i / n] for i, x in enumerate(fr)]


frs = st.lists(st.floats(0.1, 1.0), min_size=3, max_size=7)
many = st.one_of(st.lists(st.floats(0.3, 1.0), min_size=8, max_size=40), st.integers(8, 40).map(lambda n: [1.0] * n))
poly = st.one_of(
    st.lists(vertex, min_size=3, max_size=6),
    st.lists(st.tuples(st.floats(-90, 90), st.floats(-180, 180)).map(list), min_size=3, max_size=6),
    st.builds(around, g.lat(), g.lon(), st.one_of(g.logmag(-6, 1), g.logmag(0, 1).map(lambda x: 5 * x)), frs),
    st.builds(around, g.lat(), g.lon(), g.logmag(-1, 1).map(lambda x: 3 * x), many),
    st.builds(cap, st.sampled_from([1, -1]), many, g.lon(), st.sampled_from([1, -1])),
    st.builds(cap, st.sampled_from([1, -1]), st.lists(st.floats(0.001, 1.0), min_size=4, max_size=7), g.lon(), st.sampled_from([1, -1])),
    st.builds(lambda p, q, l, d: [[p, l], [q, l], [q, l + d], [p, l + d]], g.lat(), g.lat(), g.lon(), st.floats(-170, 170)),
    st.builds(lambda k, v: [v[i] for i in k if i < len(v)] + v[:3], st.lists(st.integers(0, 3), max_size=3), st.lists(vertex, min_size=3, max_size=4)),
)


def area_parts(ps, e, a, b, deg):
    """(area modulo the whole, perimeter) from the edges, or None where an edge has no clear shortest way"""
    n = len(ps)
    tot, per, wind, tol = 0.0, 0.0, 0.0, 0.0
    f = (a - b) / a
    A0 = None
    for i in range(n):
        p, q = ps[i], ps[(i + 1) % n]
        dl = math.remainder(D(q[1], deg) - D(p[1], deg), 360)
        if 180 - abs(dl) < 1e-6:
            return None
        s, az, _ = (fl(x) for x in call(karney.geodesic_inverse, p[0], p[1], q[0], q[1], ell=e, deg=deg))
        m, lam, al, arc = geo.miss(p[0], p[1], az, s, q[0], q[1], a, b, deg)
        if arc > 0.98 * PI:
            return None
        ln = geo.Line(p[0], az, a, b, deg)
        bounded(m, 4 * kar_tol(s, a, f) + a * 3e-15, f"edge {p} to {q}: geodesic_inverse")
        tot += ln.area(arc)
        # the sliver between the end of the line and the longitude given for the vertex
        # (at a pole, that longitude says how far the path turns on the spot)
        tot += ln.strip(q[0], deg) * (math.radians(dl) - float(lam))
        per += s
        wind += dl
        tol += a * a * (2e-14 + 2e-15 / max(1e-3, math.sin(float(arc))) * (float(arc) > 0.5))
    return tot, per, round(wind / 360), tol


def whole(a, b):
    e = math.sqrt(a * a - b * b) / a
    return 2 * PI * a * a * (1 + (1 - e * e) * (math.atanh(e) / e if e > 1e-9 else 1))


@sub("C21", g.case(ps=poly, ell=ell_small(), deg=g.deg(), kind=st.sampled_from(["list", "tuple", "array"])), n=200, fixed=[
    dict(ps=[[0, 0], [0, 90], [90, 0]], ell="wgs84", deg=True, kind="list"),
    dict(ps=[[60, 0], [60, 120], [60, -120]], ell="wgs84", deg=True, kind="list"),
    dict(ps=[[-60, 0], [-60, 120], [-60, -120]], ell="wgs84", deg=True, kind="list"),
    dict(ps=[[10, 179], [10, -179], [-10, -179], [-10, 179]], ell="wgs84", deg=True, kind="list"),
])
def polygon_area(c, rec):
    a, b = g.ab(c["ell"])
    f, deg, e = (a - b) / a, c["deg"], g.mk_ell(c["ell"])
    ps = [[U(p, deg), U(l, deg)] for p, l in c["ps"]]

    def area(ps):
        la, lo = [p[0] for p in ps], [p[1] for p in ps]
        if c["kind"] == "array" and np is not None:
            la, lo = np.array(la), np.array(lo)
        elif c["kind"] == "tuple":
            la, lo = tuple(la), tuple(lo)
        A, P = call(karney.geodesic_area, la, lo, ell=e, deg=deg)
        return fl(A), fl(P)

    A, P = area(ps)
    what = f"geodesic_area{tuple(map(tuple, ps))} {c['ell']} deg={deg} -> ({A!r}, {P!r})"
    parts = area_parts(ps, e, a, b, deg)
    if parts is None:
        rec.trivial = True
        require(math.isfinite(A) and math.isfinite(P), what)
        return
    tot, per, wind, tol = parts
    tol += a * a * (0.02 * f**6 + (0 if deg else 4e-15 * len(ps)))
    A0 = whole(a, b)
    bounded(abs(P - per), 1e-15 * (per + a) * len(ps), what + f": edges add to {per!r}", "perimeter")
    require(abs(A) <= A0 / 2 * (1 + 1e-14), what + " exceeds half the body")
    want = tot + (A0 / 2 if wind % 2 else 0)
    bounded(abs(math.remainder(A - want, A0)), tol, what + f": area along the edges {want!r} (modulo {A0!r})", "area")
    # start elsewhere, turn the globe, go round the other way
    k = 1 + len(ps) // 2
    for name, qs, sg in (
        ("started elsewhere", ps[k:] + ps[:k], 1),
        ("turned", [[p, l + U(37.0, deg)] for p, l in ps], 1),
        ("reversed", ps[::-1], -1),
    ):
        B, Q = area(qs)
        bounded(abs(math.remainder(A - sg * B, A0)), 2 * tol + (6e-14 * len(ps) * a * a if name == "turned" else 0), what + f", {name}: {B!r}", "area " + name)
        bounded(abs(P - Q), 3e-14 * (per + a) * (1 + len(ps)), what + f", {name}: perimeter {Q!r}", "perimeter " + name)
    rec.tag("round a pole" if wind % 2 else "plain", "kind:" + c["kind"])
    # cut along a diagonal
    if len(ps) >= 4:
        j = 2 + (len(ps) - 4) // 2
        one, two = ps[: j + 1], ps[j:] + ps[:1]
        x = area_parts(one, e, a, b, deg), area_parts(two, e, a, b, deg)
        if None not in x and abs(x[0][2]) + abs(x[1][2]) <= 1:
            (A1, P1), (A2, P2) = area(one), area(two)
            bounded(abs(math.remainder(A - A1 - A2, A0)), 3 * tol + x[0][3] + x[1][3], what + f": pieces {A1!r} and {A2!r}", "area cut")
            d = fl(call(karney.geodesic_inverse, *ps[0], *ps[j], ell=e, deg=deg)[0])
            bounded(abs(P - (P1 + P2 - 2 * d)), 1e-14 * (per + 2 * d + a), what + f": perimeters {P1!r} and {P2!r}", "perimeter cut")
            rec.tag("cut")


def ring(n, kind, p, l, r, amp, ph):
    """many vertices, of varying radius"""
    fr = [1 - amp * (0.5 + 0.5 * math.sin(ph + 2.3 * i * i)) for i in range(n)]
    return around(p, l, r, fr) if kind == 0 else cap(kind, fr, l, 1 if r < 1 else -1)


@sub("C21", g.case(n=st.one_of(st.integers(30, 400), st.sampled_from([31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 360, 361, 500, 512, 720, 1000, 1024])),
                   kind=st.sampled_from([0, 0, 1, -1]), p=g.lat(), l=g.lon(), r=st.one_of(g.logmag(-3, 0), st.floats(0.1, 30)), amp=st.floats(0, 0.9), ph=st.floats(0, 6.3),
                   ell=ell_small(), deg=g.deg(), arr=st.booleans()), n=24)
def polygon_of_many_vertices(c, rec):
    a, b = g.ab(c["ell"])
    f, deg, e, n = (a - b) / a, c["deg"], g.mk_ell(c["ell"]), c["n"]
    ps = [[U(p, deg), U(l, deg)] for p, l in ring(n, c["kind"], c["p"], c["l"], c["r"], c["amp"], c["ph"])]

    def area(ps):
        la, lo = [p[0] for p in ps], [p[1] for p in ps]
        if c["arr"] and np is not None:
            la, lo = np.array(la), np.array(lo)
        A, P = call(karney.geodesic_area, la, lo, ell=e, deg=deg)
        return fl(A), fl(P)

    A, P = area(ps)
    what = f"geodesic_area of {n} vertices (case {c}) -> ({A!r}, {P!r})"
    parts = area_parts(ps, e, a, b, deg)
    if parts is None:
        rec.trivial = True
        return
    tot, per, wind, tol = parts
    tol += a * a * (0.02 * f**6 + (0 if deg else 4e-15 * n))
    A0 = whole(a, b)
    want = tot + (A0 / 2 if wind % 2 else 0)
    bounded(abs(math.remainder(A - want, A0)), tol, what + f": area along the edges {want!r} (modulo {A0!r})", "area, many")
    bounded(abs(P - per), 1e-15 * (per + a) * n, what + f": edges add to {per!r}", "perimeter, many")
    k = 1 + n // 3
    for name, qs, sg in (("started elsewhere", ps[k:] + ps[:k], 1), ("reversed", ps[::-1], -1)):
        B, Q = area(qs)
        bounded(abs(math.remainder(A - sg * B, A0)), 2 * tol, what + f", {name}: {B!r}", "area, many, " + name)
        bounded(abs(P - Q), 3e-15 * (per + a) * (1 + n), what + f", {name}: {Q!r}", "perimeter, many, " + name)
    rec.tag("round a pole" if wind % 2 else "plain", f"vertices:{10 ** len(str(n))}")


def by_the_pole(ps):
    """the same polygon (degrees) with the pole itself among the vertices of every edge over it, or None where an edge has two ways"""
    out = []
    for (p, l), (q, m) in zip(ps, ps[1:] + ps[:1]):
        out.append([p, l])
        if abs(math.remainder(m - l, 360)) == 180:
            if abs(p + q) < 20:
                return None
            s = math.copysign(90.0, p + q)
            out += [[s, l], [s, l + 90.0], [s, l + 180.0]]
    return out


whole_lon = st.integers(-360, 360).map(float)


@sub("C21", g.case(p=g.lat(), q=g.lat(), l=whole_lon, rest=st.lists(st.one_of(vertex, st.tuples(g.lat(), whole_lon).map(list)), min_size=1, max_size=4), turn=st.sampled_from([180.0, -180.0, 540.0]), k=st.integers(0, 5), ell=ell_small(), deg=g.deg()), n=60,
     fixed=[dict(p=50.0, q=60.0, l=10.0, rest=[[40.0, 100.0]], turn=180.0, k=0, ell="wgs84", deg=True), dict(p=-50.0, q=-60.0, l=10.0, rest=[[-40.0, 100.0]], turn=180.0, k=0, ell="wgs84", deg=True),
            dict(p=-50.0, q=-60.0, l=10.0, rest=[[-40.0, -100.0]], turn=-180.0, k=1, ell="wgs84", deg=True), dict(p=50.0, q=60.0, l=10.0, rest=[[40.0, -100.0]], turn=180.0, k=2, ell="saturn", deg=True)])
def polygon_edge_over_a_pole(c, rec):
    a, b = g.ab(c["ell"])
    f, deg, e = (a - b) / a, c["deg"], g.mk_ell(c["ell"])
    ps = [[c["p"], c["l"]], [c["q"], c["l"] + c["turn"]], *c["rest"]]
    k = c["k"] % len(ps)
    ps = ps[k:] + ps[:k]
    more = by_the_pole(ps)
    parts = None if more is None else area_parts([[U(p, deg), U(l, deg)] for p, l in more], e, a, b, deg)
    if parts is None:
        rec.trivial = True
        return
    tot, per, wind, tol = parts
    tol += a * a * (0.02 * f**6 + (0 if deg else 4e-15 * len(more)))
    A0 = whole(a, b)
    for qs, sg in ((ps, 1), (ps[::-1], -1)):
        A, P = (fl(x) for x in call(karney.geodesic_area, [U(p, deg) for p, _ in qs], [U(l, deg) for _, l in qs], ell=e, deg=deg))
        what = f"geodesic_area of {qs} {c['ell']} deg={deg} -> ({A!r}, {P!r})"
        want = sg * (tot + (A0 / 2 if wind % 2 else 0))
        bounded(abs(P - per), 1e-15 * (per + a) * len(more), what + f": edges add to {per!r}", "perimeter, over a pole")
        bounded(abs(math.remainder(A - want, A0)), tol, what + f": area along the edges {want!r} (modulo {A0!r})", "area, over a pole")
    rec.tag("north" if c["p"] + c["q"] > 0 else "south", "round a pole" if wind % 2 else "plain")


@sub("C21", g.case(ps=st.lists(vertex, min_size=0, max_size=2), ell=ell_small(), deg=g.deg()), n=30)
def polygon_guard(c, rec):
    must_raise(ValueError, karney.geodesic_area, [p[0] for p in c["ps"]], [p[1] for p in c["ps"]], ell=g.mk_ell(c["ell"]), deg=c["deg"])


@sub("C21", g.case(p=st.floats(-80, 80), l=g.lon(), r=st.floats(0.01, 8), n=st.integers(3, 8), ell=ell_small()), n=80)
def clockwise_is_positive(c, rec):
    """a small convex polygon run clockwise (north up) has positive area, close to the flat one"""
    a, b = g.ab(c["ell"])
    e = g.mk_ell(c["ell"])
    n = c["n"]
    ps = [karney.geodesic_direct(c["p"], c["l"], 360.0 * i / n, math.radians(c["r"]) * a, ell=e)[:2] for i in range(n)]
    A, P = call(karney.geodesic_area, [p[0] for p in ps], [p[1] for p in ps], ell=e)
    R2 = (math.radians(c["r"]) * a) ** 2
    flatA = 0.5 * n * math.sin(2 * PI / n) * R2
    bounded(abs(fl(A) - flatA), R2 * (1.5 * math.radians(c["r"]) ** 2 + 1e-6), f"geodesic_area of clockwise {ps} {c['ell']} -> {A!r}, flat {flatA!r}", "clockwise")


@sub("C21", g.case(ps=poly, ell=ell_small()), n=200, cfgs="f")
def area_against_proj(c, rec):
    if Geod is None:
        rec.trivial = True
        return
    a, b = g.ab(c["ell"])
    f, e = (a - b) / a, g.mk_ell(c["ell"])
    parts = area_parts(c["ps"], e, a, b, True)
    if parts is None:
        rec.trivial = True
        return
    lons, lats = [p[1] for p in c["ps"]], [p[0] for p in c["ps"]]
    A, P = (fl(x) for x in call(karney.geodesic_area, lats, lons, ell=e))
    Ap, Pp = Geod(a=a, b=b).polygon_area_perimeter(lons, lats)
    A0 = whole(a, b)
    what = f"geodesic_area({lats}, {lons}) {c['ell']} -> ({A!r}, {P!r}), PROJ ({-Ap!r}, {Pp!r})"
    bounded(abs(P - Pp), kar_tol(P, a, f) * len(lats), what, "perimeter proj")
    bounded(abs(math.remainder(A + Ap, A0)), parts[3] + a * a * 0.02 * f**6, what, "area proj")


@sub("C21", g.case(ps=poly, ell=flat_ell), n=250, cfgs="f")
def area_as_proj(c, rec):
    if Geod is None:
        rec.trivial = True
        return
    a, b = g.ab(c["ell"])
    e = g.mk_ell(c["ell"])
    parts = area_parts(c["ps"], e, a, b, True)
    if parts is None:
        rec.trivial = True
        return
    lons, lats = [p[1] for p in c["ps"]], [p[0] for p in c["ps"]]
    A, P = (fl(x) for x in call(karney.geodesic_area, lats, lons, ell=e))
    Ap, Pp = Geod(a=a, b=b).polygon_area_perimeter(lons, lats)
    A0 = whole(a, b)
    what = f"geodesic_area({lats}, {lons}) {c['ell']} -> ({A!r}, {P!r}), PROJ ({-Ap!r}, {Pp!r})"
    d = abs(math.remainder(A + Ap, A0))
    if d > parts[3]:
        bounded(abs(math.remainder(A - parts[0], A0)), 0.2 * d, what, "")
