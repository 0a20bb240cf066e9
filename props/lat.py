"""C11, C12, C14, C15: auxiliary latitudes, radii of curvature, auxiliary spheres"""
import math

from hypothesis import strategies as st
from mpmath import mp, mpf

import pymap3d as pm
from pymap3d import latitude as L
from pymap3d import rcurve, rsphere

from harness import core
from harness import gens as g
from harness import ref
from harness.core import Violation, call, fl, flat, lift, must_raise, near, require, sub

EPS = ref.EPS


def U(x, deg):
    return x if deg else math.radians(x)


class E:
    def __init__(self, spec):
        self.a, self.b = g.ab(spec)
        a, b = mpf(self.a), mpf(self.b)
        self.e2 = 1 - (b / a) ** 2
        self.e = mp.sqrt(self.e2)
        self.n = float((a - b) / (a + b))
        self.f = float((a - b) / a)
        self.r = b / a

    def arc(self, phi):
        """meridian arc / a from the equator: incomplete elliptic integral"""
        m = self.e2
        return mp.ellipe(phi, m) - m * mp.sin(phi) * mp.cos(phi) / mp.sqrt(1 - m * mp.sin(phi) ** 2)

    def q(self, phi):
        s = mp.sin(phi)
        e = self.e
        return (1 - self.e2) * (s / (1 - self.e2 * s * s) + (mp.atanh(e * s) / e if e else s))

    def isometric(self, phi):
        return mp.asinh(mp.tan(phi)) - self.e * mp.atanh(self.e * mp.sin(phi))


def fwd(kind, phi, E_):
    """exact auxiliary latitude (radians) of the exact geodetic latitude phi"""
    if kind == "parametric":
        return mp.atan2(E_.r * mp.sin(phi), mp.cos(phi))
    if kind == "geocentric":
        return mp.atan2(E_.r**2 * mp.sin(phi), mp.cos(phi))
    if kind == "conformal":
        if abs(mp.cos(phi)) < mpf(10) ** -25:
            return phi
        return mp.atan(mp.sinh(E_.isometric(phi)))
    if kind == "rectifying":
        return E_.arc(phi) / E_.arc(ref.PI / 2) * ref.PI / 2
    if kind == "authalic":
        x = E_.q(phi) / E_.q(ref.PI / 2)
        return mp.asin(x) if abs(x) < 1 else mp.sign(x) * ref.PI / 2
    raise KeyError(kind)


KINDS = ["parametric", "geocentric", "conformal", "rectifying", "authalic"]
F = {
    "parametric": lambda x, e: (pm.geodetic2parametric, (x, e)),
    "geocentric": lambda x, e: (pm.geodetic2geocentric, (x, 0.0, e)),
    "conformal": lambda x, e: (pm.geodetic2conformal, (x, e)),
    "rectifying": lambda x, e: (pm.geodetic2rectifying, (x, e)),
    "authalic": lambda x, e: (pm.geodetic2authalic, (x, e)),
    "isometric": lambda x, e: (pm.geodetic2isometric, (x, e)),
}
B = {
    "parametric": lambda x, e: (pm.parametric2geodetic, (x, e)),
    "geocentric": lambda x, e: (pm.geocentric2geodetic, (x, 0.0, e)),
    "conformal": lambda x, e: (pm.conformal2geodetic, (x, e)),
    "rectifying": lambda x, e: (pm.rectifying2geodetic, (x, e)),
    "authalic": lambda x, e: (pm.authalic2geodetic, (x, e)),
    "isometric": lambda x, e: (pm.isometric2geodetic, (x, e)),
}


def series(kind, E_, back=False):
    """first neglected order of the published series (radians); measured factors, with room"""
    e = float(E_.e)
    if kind == "rectifying":
        return (8.0 if back else 1.3) * E_.n**5
    if kind == "authalic":
        return (0.30 if back else 0.25) * e**8 if E_.f > 0.03 else (0.16 if back else 0.13) * e**8
    if kind in ("conformal", "isometric") and back:
        return (0.33 if E_.f > 0.03 else 0.18) * e**10
    return 0.0


def published(kind, x, E_, back):
    """the series printed in Snyder, Map Projections - A Working Manual (3-5, 3-18, 7-19 ...), at 34 digits"""
    e2, n = E_.e2, (mpf(E_.a) - mpf(E_.b)) / (mpf(E_.a) + mpf(E_.b))
    e4, e6, e8 = e2**2, e2**3, e2**4
    if kind == "authalic" and not back:
        c = [-(e2 / 3 + 31 * e4 / 180 + 59 * e6 / 560), 17 * e4 / 360 + 61 * e6 / 1260, -383 * e6 / 45360]
    elif kind == "authalic":
        c = [e2 / 3 + 31 * e4 / 180 + 517 * e6 / 5040, 23 * e4 / 360 + 251 * e6 / 3780, 761 * e6 / 45360]
    elif kind == "rectifying" and not back:
        c = [-(3 * n / 2 - 9 * n**3 / 16), 15 * n**2 / 16 - 15 * n**4 / 32, -35 * n**3 / 48, 315 * n**4 / 512]
    elif kind == "rectifying":
        c = [3 * n / 2 - 27 * n**3 / 32, 21 * n**2 / 16 - 55 * n**4 / 32, 151 * n**3 / 96, 1097 * n**4 / 512]
    elif back:
        c = [e2 / 2 + 5 * e4 / 24 + e6 / 12 + 13 * e8 / 360, 7 * e4 / 48 + 29 * e6 / 240 + 811 * e8 / 11520, 7 * e6 / 120 + 81 * e8 / 1120, 4279 * e8 / 161280]
    else:
        return None
    return x + sum(c[i] * mp.sin(2 * (i + 1) * x) for i in range(len(c)))


def series_or_better(kind, got, x, exact, E_, back, deg, tol, what):
    """a truncated series is as good as the published one: it equals it, or is ten times closer to the definition

    x, exact in radians at 34 digits; got and tol in the unit of deg
    """
    if kind == "isometric":
        if not math.isfinite(float(x)):
            return
        x, kind = mp.atan(mp.sinh(x)), "conformal"
    t = published(kind, x, E_, back)
    if t is None:
        return
    err = abs(mpf(got) - ref.outdeg(t, deg))
    if err <= tol:
        return
    worst = mpf(0)
    for i in range(1, 24):
        p = mpf(i) * ref.PI / 48
        y = fwd(kind, p, E_)
        worst = max(worst, abs(published(kind, y, E_, True) - p) if back else abs(published(kind, p, E_, False) - y))
    require(abs(mpf(got) - ref.outdeg(exact, deg)) <= tol + ref.outdeg(worst, deg) / 10, f"{what}: got {got!r}, neither the published series ({float(ref.outdeg(t, deg))!r}) nor better than it ({float(ref.outdeg(exact, deg))!r})")


def ev(form, table, kind, x, ell, deg):
    fn, args = table[kind](x, ell)
    out = lift(form, fn, args, {"deg": deg})
    require(len(out) == 1, f"{fn.__name__} gives one value")
    return out[0]


ell_s = g.ellspec(fmax=0.35)
lat_case = g.case(kind=st.sampled_from(KINDS), lat=g.lat(), ell=ell_s, deg=g.deg(), form=g.form())
FIX = [{"kind": k, "lat": la, "ell": e, "deg": d, "form": f} for k in KINDS for la in (0.0, 90.0, -90.0, 45.0, -30.0, 89.99999999)
       for e in ("wgs84", "jupiter", [7e6, 7e6]) for d in (True, False) for f in core.forms()[:2]]


@sub("C11", lat_case, n=500, fixed=FIX)
def definitions(c, rec):
    E_ = E(c["ell"])
    x = U(c["lat"], c["deg"])
    full = 180 if c["deg"] else math.pi
    k = c["kind"]
    rec.tag(k, "pole" if abs(c["lat"]) == 90 else "equator" if c["lat"] == 0 else "between")
    want = fwd(k, ref.rad(x, c["deg"]), E_)
    got = ev(c["form"], F, k, x, g.mk_ell(c["ell"]), c["deg"])
    tol = full * (8 * EPS * (1 + 4 * E_.f) + series(k, E_) / math.pi)
    near(got, ref.outdeg(want, c["deg"]), tol, f"geodetic2{k}({x!r},{c['ell']},deg={c['deg']})")
    series_or_better(k, got, ref.rad(x, c["deg"]), want, E_, False, c["deg"], full * 8 * EPS * (1 + 4 * E_.f), f"geodetic2{k}({x!r},{c['ell']},deg={c['deg']})")
    if c["lat"] == 0:
        near(got, 0.0, 0.0, f"{k} at the equator")
    # full relative accuracy near the equator
    if abs(c["lat"]) < 1e-3:
        s = 1.0 if series(k, E_) == 0 else 1 + 20 * series(k, E_) / EPS
        near(got, ref.outdeg(want, c["deg"]), 30 * EPS * s * abs(x) + 1e-300, f"{k} near the equator")
    if abs(c["lat"]) == 90:
        near(abs(got), full / 2, 4 * EPS * full, f"{k} at the pole")


@sub("C11", g.case(lat=g.lat(), ell=ell_s, deg=g.deg(), form=g.form()), n=200, fixed=[
    {"lat": la, "ell": e, "deg": d, "form": f} for la in (0.0, 90.0, -90.0, 45.0, 89.9999999) for e in ("wgs84", [7e6, 7e6])
    for d in (True, False) for f in core.forms()])
def isometric(c, rec):
    E_ = E(c["ell"])
    x = U(c["lat"], c["deg"])
    phi = ref.rad(x, c["deg"])
    got = ev(c["form"], F, "isometric", x, g.mk_ell(c["ell"]), c["deg"])
    what = f"geodetic2isometric({x!r},{c['ell']},deg={c['deg']})"
    co = abs(float(mp.cos(phi)))
    if abs(co - 1e-9) < 1e-15:
        rec.trivial = True
        return
    if co <= 1e-9:
        rec.tag("pole")
        require(math.isinf(got) and (got > 0) == (c["lat"] > 0), f"{what} = {got!r}: infinite at the poles")
        return
    want = E_.isometric(phi)
    tol = (8 * EPS * (1 + abs(float(want))) + 4 * EPS / co * min(1.0, abs(float(phi)) * 2)) * (57.3 if c["deg"] else 1)
    if abs(float(phi)) < 0.1:
        tol = 20 * EPS * abs(float(want)) * (57.3 if c["deg"] else 1) + 1e-300
    near(got, ref.outdeg(want, c["deg"]), tol, what)


@sub("C11", g.case(kind=st.sampled_from(KINDS + ["isometric"]), lat=g.lat(89.99), d=g.logmag(-9, 1), ell=ell_s, deg=g.deg()), n=200)
def odd_and_increasing(c, rec):
    e = g.mk_ell(c["ell"])
    k = c["kind"]
    x, y = U(c["lat"], c["deg"]), U(min(90.0, c["lat"] + c["d"]), c["deg"])
    p, q, m = (ev("s", F, k, v, e, c["deg"]) for v in (x, y, -x))
    near(m, -p, abs(p) * 4 * EPS, f"{k}(-{x})")
    if y - x > 40 * EPS * (180 if c["deg"] else math.pi):
        require(q > p, f"geodetic2{k} not increasing: {x!r}->{p!r}, {y!r}->{q!r} on {c['ell']}")
    else:
        rec.trivial = True
    rec.tag(k)


# --- C12


@sub("C12", lat_case, n=400, fixed=FIX)
def inverse_of_definition(c, rec):
    """fed the exact auxiliary latitude, the inverse finds the geodetic one"""
    E_ = E(c["ell"])
    k = c["kind"]
    phi = ref.rad(c["lat"])
    aux = float(ref.outdeg(fwd(k, phi, E_), c["deg"]))
    full = 180 if c["deg"] else math.pi
    got = ev(c["form"], B, k, aux, g.mk_ell(c["ell"]), c["deg"])
    rec.tag(k)
    tol = full * (10 * EPS * (1 + 4 * E_.f) + series(k, E_, True) / math.pi)
    near(got, ref.outdeg(phi, c["deg"]), tol, f"{k}2geodetic({aux!r},{c['ell']},deg={c['deg']})")
    series_or_better(k, got, ref.rad(aux, c["deg"]), phi, E_, True, c["deg"], full * 10 * EPS * (1 + 4 * E_.f), f"{k}2geodetic({aux!r},{c['ell']},deg={c['deg']})")
    if c["lat"] == 0:
        near(got, 0.0, 0.0, f"{k}2geodetic at the equator")


@sub("C12", g.case(lat=g.lat(), ell=ell_s, deg=g.deg(), form=g.form()), n=200, fixed=[
    {"lat": la, "ell": e, "deg": d, "form": f} for la in (0.0, 90.0, -90.0, 45.0, 89.9999999) for e in ("wgs84", [7e6, 7e6])
    for d in (True, False) for f in core.forms()[:3]])
def isometric_inverse(c, rec):
    E_ = E(c["ell"])
    phi = ref.rad(c["lat"])
    co = abs(float(mp.cos(phi)))
    if co < 1e-20:
        aux = math.copysign(math.inf, c["lat"])
        rec.tag("pole")
    else:
        aux = float(ref.outdeg(E_.isometric(phi), c["deg"]))
    got = ev(c["form"], B, "isometric", aux, g.mk_ell(c["ell"]), c["deg"])
    full = 180 if c["deg"] else math.pi
    near(got, ref.outdeg(phi, c["deg"]), full * (12 * EPS * (1 + 4 * E_.f) + series("isometric", E_, True) / math.pi),
         f"isometric2geodetic({aux!r},{c['ell']},deg={c['deg']})")
    if math.isfinite(aux):
        series_or_better("isometric", got, ref.rad(aux, c["deg"]), phi, E_, True, c["deg"], full * 12 * EPS * (1 + 4 * E_.f), f"isometric2geodetic({aux!r},{c['ell']},deg={c['deg']})")


@sub("C12", g.case(kind=st.sampled_from(KINDS + ["isometric"]), lat=g.lat(), ell=ell_s, deg=g.deg(), form=g.form()), n=200)
def round_trip(c, rec):
    """through the code in both directions"""
    E_ = E(c["ell"])
    e = g.mk_ell(c["ell"])
    k = c["kind"]
    x = U(c["lat"], c["deg"])
    full = 180 if c["deg"] else math.pi
    y = ev(c["form"], F, k, x, e, c["deg"])
    z = ev(c["form"], B, k, y, e, c["deg"])
    iso = 1e-9 * full if k == "isometric" and math.isinf(y) else 0.0
    near(z, x, full * (20 * EPS * (1 + 4 * E_.f) + (series(k, E_) * 1.5 + series(k, E_, True)) / math.pi) + iso, f"{k} round trip of {x!r} on {c['ell']}")
    rec.tag(k)


# --- C14


@sub("C14", g.case(lat=g.lat(), ell=g.ellspec(fmax=0.6), deg=g.deg(), form=g.form()), n=400, fixed=[
    {"lat": la, "ell": e, "deg": d, "form": f} for la in (0.0, 90.0, -90.0, 45.0, -30.0) for e in ("wgs84", "saturn", [7e6, 7e6])
    for d in (True, False) for f in core.forms()])
def radii(c, rec):
    E_ = E(c["ell"])
    a, b = mpf(E_.a), mpf(E_.b)
    e = g.mk_ell(c["ell"])
    x = U(c["lat"], c["deg"])
    phi = ref.rad(x, c["deg"])
    kw = {"deg": c["deg"]}
    N = ref.normal_radius(phi, a, b)
    p, _, z = ref.geod2ecef(x, 0, 0, a, b, c["deg"])
    M = N**3 * (b / a) ** 2 / a**2
    amp = EPS * 12 * (1 + 8 * E_.f)
    what = f"({x!r},{c['ell']},deg={c['deg']})"
    rec.tag("sphere" if E_.f == 0 else "flattened")
    near(lift(c["form"], rcurve.transverse, (x, e), kw)[0], N, amp * float(N), "transverse" + what)
    near(lift(c["form"], rcurve.meridian, (x, e), kw)[0], M, amp * float(M) * 3, "meridian" + what)
    near(lift(c["form"], rcurve.parallel, (x, e), kw)[0], p, amp * E_.a, "parallel" + what)
    near(lift(c["form"], rcurve.geocentric_radius, (x, e), kw)[0], ref.norm((p, z)), amp * E_.a, "geocentric_radius" + what)



@sub("C14", g.case(lat=g.lat(89.0), ell=g.ellspec(fmax=0.35), deg=g.deg()), n=80)
def meridian_is_arc_derivative(c, rec):
    """rcurve.meridian against a numerical derivative of the elliptic-integral arc"""
    E_ = E(c["ell"])
    phi = ref.rad(c["lat"])
    h = mpf(10) ** -8
    want = (E_.arc(phi + h) - E_.arc(phi - h)) / (2 * h) * E_.a
    got = fl(call(rcurve.meridian, U(c["lat"], c["deg"]), g.mk_ell(c["ell"]), deg=c["deg"]))
    near(got, want, 1e-13 * E_.a * (1 + 20 * E_.f), f"meridian {c}")


# --- C15


@sub("C15", g.case(ell=st.one_of(g.ellspec(fmax=0.5), st.builds(lambda m, x: [m * 1e6, m * 1e6 * (1 - 10.0**x)], st.floats(1, 9), st.floats(-15, -4)))),
     n=250, fixed=[{"ell": e} for e in g.names() if g.mk_ell(e).semimajor_axis > 0])
def ellipsoid_radii(c, rec):
    E_ = E(c["ell"])
    a, b = mpf(E_.a), mpf(E_.b)
    e = g.mk_ell(c["ell"])
    A = E_.a
    t = 12 * EPS * A
    what = f" of {c['ell']}"
    rec.tag("sphere" if E_.f == 0 else "tiny flattening" if E_.f < 1e-6 else "flattened")
    vals = {
        "eqavol": (fl(call(rsphere.eqavol, e)), mp.cbrt(a * a * b), t + (0.07 + 0.08 * E_.f) * E_.f**3 * A),
        "authalic": (fl(call(rsphere.authalic, e)), a * mp.sqrt(E_.q(ref.PI / 2) / 2), 3 * t),
        "rectifying": (fl(call(rsphere.rectifying, e)), a * E_.arc(ref.PI / 2) * 2 / ref.PI, 3 * t + 0.017 * E_.n**4 * A),
        "triaxial mean": (fl(call(rsphere.triaxial, e)), (2 * a + b) / 3, t),
        "triaxial norm": (fl(call(rsphere.triaxial, e, method="norm")), mp.cbrt(a * a * b), t),
        "biaxial mean": (fl(call(rsphere.biaxial, e, "mean")), (a + b) / 2, t),
        "biaxial norm": (fl(call(rsphere.biaxial, e, "norm")), mp.sqrt(a * b), t),
        "triaxial mean named": (fl(call(rsphere.triaxial, e, method="mean")), (2 * a + b) / 3, t),
    }
    for k, (got, want, tol) in vals.items():
        near(got, want, tol, k + what)
        require(E_.b - 3 * t <= got <= E_.a + 3 * t, f"{k}{what}: {got!r} outside the extreme radii")
    for fn in (rsphere.triaxial, rsphere.biaxial):
        must_raise(ValueError, fn, e, method="median")


@sub("C15", g.case(lat=g.lat(), ell=g.ellspec(fmax=0.5), deg=g.deg(), form=g.form(), method=st.sampled_from([None, "mean", "norm"]),
                   bad=st.sampled_from(["", "avg", "Norm2", "geometric", "median"])), n=250)
def curve(c, rec):
    E_ = E(c["ell"])
    a, b = mpf(E_.a), mpf(E_.b)
    x = U(c["lat"], c["deg"])
    phi = ref.rad(x, c["deg"])
    N = ref.normal_radius(phi, a, b)
    M = N**3 * (b / a) ** 2 / a**2
    want = mp.sqrt(N * M) if c["method"] == "norm" else (N + M) / 2
    kw = {"deg": c["deg"]}
    if c["method"]:
        kw["method"] = c["method"]
    e = g.mk_ell(c["ell"])
    (got,) = lift(c["form"], rsphere.curve, (x, e), kw)
    near(got, want, 40 * EPS * (1 + 8 * E_.f) * float(want), f"curve({x!r},{c['ell']},{kw})")
    must_raise(ValueError, rsphere.curve, x, e, deg=c["deg"], method=c["bad"])
    rec.tag(str(c["method"]))


@sub("C15", g.case(lat1=g.lat(), lon1=g.lon(), lat2=g.lat(), dlon=st.floats(-150, 150), ell=g.ellspec(fmax=0.01, amin=3), deg=g.deg(),
                   form=g.form()), n=200)
def euler(c, rec):
    from pymap3d.vincenty import vdist

    E_ = E(c["ell"])
    e = g.mk_ell(c["ell"])
    lon2 = c["lon1"] + c["dlon"]
    p = (c["lat1"], c["lon1"], c["lat2"], lon2)
    if p[0] == p[2] and c["dlon"] == 0:
        rec.trivial = True
        return
    d, az = (fl(v) for v in flat(call(vdist, *p, ell=e))[:2])
    a, b = mpf(E_.a), mpf(E_.b)
    phi = ref.rad((p[0] + p[2]) / 2)
    N = ref.normal_radius(phi, a, b)
    M = N**3 * (b / a) ** 2 / a**2
    A = mpf(az) * ref.PI / 180
    want = M * N / (M * mp.sin(A) ** 2 + N * mp.cos(A) ** 2)
    q = p if c["deg"] else tuple(math.radians(v) for v in p)
    (got,) = lift(c["form"], rsphere.euler, (*q, e), {"deg": c["deg"]})
    # azimuth uncertainty of Vincenty for short lines and near the poles
    unc = min(1.0, 1e-6 * E_.a / max(d, 1e-9)) + 1e-8
    near(got, want, E_.a * (1e-13 + 3 * E_.f * unc), f"euler{q} on {c['ell']}")
    require(float(M) - 1e-9 * E_.a <= got <= float(N) + 1e-9 * E_.a, "between the principal radii")
    rec.tag("deg" if c["deg"] else "rad")
