"""C09: line of sight to the ellipsoid"""
import math

from hypothesis import strategies as st
from mpmath import mp, mpf

from pymap3d import los

from harness import core
from harness import gens as g
from harness import ref
from harness.core import Violation, call, in_range, lift, must_raise, near, require, sub

EPS = ref.EPS
K = 300.0


def U(x, deg):
    return x if deg else math.radians(x)


height = st.one_of(
    st.just(0.0), g.logmag(-11, -6), g.logmag(-6, 0), g.logmag(-4, -1), st.floats(0.0, 1.0), st.floats(0, 20), g.logmag(0, 2).map(lambda x: min(x, 60.0))
)
tilt = st.one_of(
    st.tuples(st.just("abs"), g.angle(0.0, 180.0, [0, 90, 45, 180, 89, 91])).map(list),
    st.tuples(st.just("abs"), st.floats(0.0, 60.0)).map(list),
    # relative to the spherical horizon of the observer
    st.tuples(st.just("hor"), g.signed(g.logmag(-7, 1))).map(list),
    st.tuples(st.just("frac"), st.floats(0.0, 1.3)).map(list),
    st.tuples(st.just("abs"), st.floats(-360.0, 360.0)).map(list),
)
case = g.case(lat0=g.lat(), lon0=g.lon(), h0=height, az=g.az_wide(), tilt=tilt, ell=g.ellspec(), deg=g.deg(), form=g.form())


def tilt_of(c):
    kind, v = c["tilt"]
    if kind == "abs":
        return v
    hor = math.degrees(math.asin(1 / (1 + c["h0"])))
    return hor + v if kind == "hor" else hor * v


def reference(lat, lon, h, az, t, a, b, deg):
    """signed distances (near, far) in units of a, discriminant, R, ray data (34 digits)"""
    p = ref.geod2ecef(lat, lon, h, a, b, deg)
    el = ref.rad(t, deg) - ref.PI / 2
    A = ref.rad(az, deg)
    d = ref.tmatvec(ref.enu_axes(lat, lon, deg), (mp.cos(el) * mp.sin(A), mp.cos(el) * mp.cos(A), mp.sin(el)))
    k = mpf(b) / mpf(a)
    P = (p[0] / a, p[1] / a, p[2] / a / k)
    D = (d[0], d[1], d[2] / k)
    qa = sum(x * x for x in D)
    qb = sum(x * y for x, y in zip(P, D))
    qc = sum(x * x for x in P) - 1
    disc = qb * qb - qa * qc
    return p, d, qa, qb, qc, disc


@sub("C09", case, n=500, fixed=[
    {"lat0": la, "lon0": lo, "h0": h, "az": az, "tilt": ["abs", t], "ell": e, "deg": d, "form": "s"}
    for la in (0.0, 90.0, -90.0, 42.0) for lo in (0.0, 180.0) for h in (0.0, 1e-4, 0.1, 6.6) for az in (0.0, 135.0)
    for t in (0.0, 30.0, 90.0, 150.0) for e in ("wgs84", "mars", [1737400.0, 1737400.0]) for d in (True, False)
])
def first_intersection(c, rec):
    a, b = g.ab(c["ell"])
    d = c["deg"]
    T = tilt_of(c)
    lat, lon, h, az, t = U(c["lat0"], d), U(c["lon0"], d), c["h0"] * a, U(c["az"], d), U(T, d)
    what = f"lookAtSpheroid({lat!r},{lon!r},{h!r},{az!r},{t!r},{c['ell']},deg={d},form={c['form']})"
    glat, glon, gd = lift(c["form"], los.lookAtSpheroid, (lat, lon, h, az, t, g.mk_ell(c["ell"])), {"deg": d})
    p, dr, qa, qb, qc, disc = reference(lat, lon, h, az, t, a, b, d)
    R = float(ref.norm(p)) / a
    amp = K * (1 + abs(c["lon0"]) / 180 + abs(c["az"]) / 180 + abs(T) / 180)
    noise = amp * EPS * R * R * (a / b) ** 4
    rec.tag("form " + c["form"])
    nan3 = [math.isnan(x) for x in (glat, glon, gd)]
    if disc < -noise:
        require(all(nan3), f"{what} = {(glat, glon, gd)}: the ray misses (discriminant {float(disc)})")
        rec.tag("miss: ray passes by")
        return
    if disc <= noise:
        rec.tag("grazing within rounding (either answer accepted)")
        require(all(nan3) or not any(nan3), f"{what} = {(glat, glon, gd)}: partly NaN")
        if any(nan3):
            rec.trivial = True
            return
        s = mp.sqrt(abs(disc))
        tol = amp * EPS * R + math.sqrt(noise) * 2
    else:
        s = mp.sqrt(disc)
        tol = noise / float(s) + amp * EPS * R
    near_root = float((-qb - s) / qa)
    if near_root < -tol - 2e-12 or (h == 0 and qb > 1e-6):
        if disc > noise:
            require(all(nan3), f"{what} = {(glat, glon, gd)}: the ellipsoid is behind the observer ({near_root * a} m)")
            rec.tag("miss: looking away")
        return
    if near_root <= tol + 2e-12 and not (h == 0 and qb < -1e-3):
        rec.tag("at the surface, direction within rounding (either answer accepted)")
        rec.trivial = True
        return
    if h == 0:
        rec.tag("observer on the surface looking down")
        near_root = 0.0
    require(not any(nan3), f"{what} = {(glat, glon, gd)}: NaN though the ray hits at {near_root * a} m")
    rec.tag("hit", "grazing hit" if s < 0.01 else "steep hit")
    near(gd, near_root * a, tol * a, what + " slant range")
    require(gd >= 0, f"{what}: negative slant range {gd!r}")
    half = U(90.0, d)
    in_range(glat, -half, half, what + " latitude")
    in_range(glon, -2 * half, 2 * half, what + " longitude")
    hit = tuple(x + mpf(near_root) * a * y for x, y in zip(p, dr))
    got = ref.geod2ecef(glat, glon, 0, a, b, d)
    err = float(ref.norm(ref.sub3(got, hit)))
    allowed = tol * a + 40 * EPS * a + 2e-8
    require(err <= allowed, f"{what} = {(glat, glon, gd)}: surface point {err!r} m from the ray's first hit (allowed {allowed!r})")


@sub("C09", g.case(lat0=g.lat(), lon0=g.lon(False), h0=st.one_of(st.just(-1e-300), st.just(-1e-9), g.logmag(-9, 7).map(lambda x: -x)),
                   az=g.az(), tilt=st.floats(0, 180), deg=g.deg(), form=st.sampled_from(["s", "arr"])), n=60)
def negative_height_rejected(c, rec):
    np = core.np
    d = c["deg"]
    la, lo, az, t = (U(c[k], d) for k in ("lat0", "lon0", "az", "tilt"))
    h = c["h0"]
    if np is not None and c["form"] == "arr":
        rec.tag("one bad element of three")
        must_raise(ValueError, los.lookAtSpheroid, np.full(3, la), np.full(3, lo), np.array([100.0, h, 5.0]), np.full(3, az),
                   np.full(3, t), deg=d)
    else:
        must_raise(ValueError, los.lookAtSpheroid, la, lo, h, az, t, deg=d)


@sub("C09", case, n=120)
def mixed_arrays(c, rec):
    """hits and misses side by side do not disturb each other"""
    np = core.np
    if np is None:
        rec.trivial = True
        return
    a, b = g.ab(c["ell"])
    e = g.mk_ell(c["ell"])
    d = c["deg"]
    lat, lon, h, az = U(c["lat0"], d), U(c["lon0"], d), c["h0"] * a, U(c["az"], d)
    ts = [U(x, d) for x in (0.0, tilt_of(c), 180.0, 20.0, 95.0)]
    n = len(ts)
    r = call(los.lookAtSpheroid, np.full(n, lat), np.full(n, lon), np.full(n, h), np.full(n, az), np.array(ts), e, deg=d)
    for i, t in enumerate(ts):
        s = call(los.lookAtSpheroid, lat, lon, h, az, t, e, deg=d)
        ang = 2e-14 * (1 + abs(c["lon0"]) / 90) * (1 if not d else 57)
        for k in range(3):
            x, y = float(r[k][i]), float(s[k])
            if math.isnan(x) != math.isnan(y):
                # only where rounding decides
                p, dr, qa, qb, qc, disc = reference(lat, lon, h, az, t, a, b, d)
                require(abs(disc) < 1e-11 * (1 + c["h0"]) ** 2 or h < 1e-6 * a, f"element {i} NaN mismatch {c}: {x} vs {y}")
            elif not math.isnan(x) and k == 2:
                near(x, y, 1e-7 * a * max(1e-6, 1e-9) + 1e-6 * abs(y), f"element {i} slant range {c}")
