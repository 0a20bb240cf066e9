"""C22-C24: rhumb lines, meridian arcs, departures, mean positions"""
import math

from hypothesis import strategies as st
from mpmath import mp, mpf

from pymap3d import lox

from harness import core, ref
from harness import gens as g
from harness.core import bounded, call, fl, in_range, lift, must_raise, near, near_angle, require, sub
from props.lat import E, fwd, series

np = core.np
PI = math.pi
EPS = ref.EPS


def U(x, deg):
    return x if deg else math.radians(x)


lat_np = g.lat(90 - 1e-7)
dlt = st.one_of(st.just(0.0), g.signed(g.logmag(-13, 0)), g.signed(g.logmag(-4, 1)))


def lim(x):
    return max(-(90 - 1e-7), min(90 - 1e-7, x))


pairs = st.one_of(
    st.tuples(lat_np, g.lon(), lat_np, g.lon()),
    st.builds(lambda p, l, d, e: (p, l, lim(p + d), l + e), lat_np, g.lon(), dlt, dlt),
    st.builds(lambda p, l, e: (p, l, p, l + e), lat_np, g.lon(), g.angle(-180.0, 180.0, g.LONS)),
    st.builds(lambda p, l, q: (p, l, q, l), lat_np, g.lon(), lat_np),
    # almost along a parallel
    st.builds(lambda p, l, d, e: (p, l, lim(p + d), l + e), lat_np, g.lon(), g.signed(g.logmag(-12, -3)), st.floats(-179, 179)),
)
ells = g.ellspec(fmax=0.11)


class R(E):
    """rhumb reference"""

    def __init__(self, spec):
        super().__init__(spec)
        self.quad = self.arc(ref.PI / 2)

    def M(self, phi):
        return self.arc(phi) * self.a

    def radius(self, phi):
        return ref.normal_radius(phi, self.a, self.b) * mp.cos(phi)

    def Minv(self, m):
        """latitude of the meridian distance m"""
        x = mpf(m) / self.a / self.quad * ref.PI / 2
        for _ in range(30):
            d = (self.arc(x) - mpf(m) / self.a) * (1 - self.e2 * mp.sin(x) ** 2) ** mpf(1.5) / (1 - self.e2)
            x -= d
            if abs(d) < mpf(10) ** -28:
                break
        return x

    def ser(self):
        """error of the series for the meridian distance, as an angle"""
        return 2 * 1.3 * self.n**5 + 0.03 * self.n**4 * (self.n > 0)

    def dM(self):
        return self.a * (16 * EPS + 1.6 * self.n**5 * 2), 4 * EPS + 0.02 * self.n**4

    def dpsi(self, phi):
        return 3e-16 * (2 + abs(float(self.isometric(phi))) + 2 / float(mp.cos(phi)))


@sub("C22", g.case(p=pairs.map(list), ell=ells, deg=g.deg(), form=g.form()), n=500, fixed=[
    dict(p=[10, 170, 20, -170], ell="wgs84", deg=True, form="s"),
    dict(p=[10, -170, 20, 170], ell="wgs84", deg=True, form="s"),
    dict(p=[60, 10, 60, 30], ell="wgs84", deg=True, form="s"),
    dict(p=[60, 10, 60, 10], ell="wgs84", deg=True, form="s"),
    dict(p=[-60, 30, -60, 10], ell="wgs84", deg=False, form="s"),
    dict(p=[40, 200, 10, 560], ell="wgs84", deg=True, form="s"),
])
def inverse(c, rec):
    r, deg = R(c["ell"]), c["deg"]
    p = [U(x, deg) for x in c["p"]]
    s, az = lift(c["form"], lox.loxodrome_inverse, p, dict(ell=g.mk_ell(c["ell"]), deg=deg))
    what = f"loxodrome_inverse{tuple(p)} {c['ell']} deg={deg} -> ({s!r}, {az!r})"
    full = 360.0 if deg else 2 * PI
    in_range(az, 0, full, what)
    f1, f2 = ref.rad(p[0], deg), ref.rad(p[2], deg)
    dl = ref.rad(p[3], deg) - ref.rad(p[1], deg)
    dl -= 2 * ref.PI * mp.nint(dl / (2 * ref.PI))
    dps = r.isometric(f2) - r.isometric(f1)
    dM = abs(r.M(f2) - r.M(f1))
    H = mp.hypot(dps, dl)
    dlam = 3e-16 * (4 + abs(math.radians(c["p"][1])) + abs(math.radians(c["p"][3])))
    eps = r.dpsi(f1) + r.dpsi(f2)
    if H < 1e-290:
        bounded(abs(s), r.a * 1e-280 if H else 0.0, what + " for coincident points")
        rec.tag("coincident")
        return
    half = abs(abs(dl) - ref.PI) < 3 * dlam
    co = float(abs(dps) / H)
    par = float(r.radius(f1))
    dMa, dMr = r.dM()
    if c["p"][0] == c["p"][2] or co < 0.9e-9:
        want = par * abs(dl)
        tol = par * dlam + r.a * 4 * EPS * float(abs(dl)) + float(want) * (4e-15 + 3e-9 * (co > 0) + co * 2)
        rec.tag("parallel")
    else:
        want = dM * H / abs(dps)
        tol = float(want * (dl / H) ** 2) * eps / float(abs(dps)) + float(want * abs(dl) / H**2) * dlam
        tol += dMa / co + float(want) * (dMr + 4e-15)
        if 0.9e-9 <= co < 1.1e-9:
            tol += float(want) * 1e-8
        rec.tag("near parallel" if co < 1e-3 else "oblique")
    bounded(abs(s - float(want)), tol, what + f": length of the rhumb line {float(want)!r}", "lox dist")
    waz = mp.atan2(dl, dps)
    taz = float((abs(dps) * dlam + abs(dl) * eps) / H**2) + 4 * EPS
    if half:
        d = min(abs(math.remainder(float(ref.rad(az, deg) - s_ * waz), 2 * PI)) for s_ in (1, -1))
    else:
        d = abs(math.remainder(float(ref.rad(az, deg) - waz), 2 * PI))
    bounded(d, taz * 1.5 + (4 * EPS if deg else 0), what + f": bearing {float(waz)!r} rad", "lox az")
    rec.tag("half turn" if half else "east" if dl > 0 else "west")


def pos_err(r, lat, lon, phi, lam, deg):
    """distance between the computed and the exact point, in metres"""
    f2 = ref.rad(lat, deg)
    a = r.a * float(mp.hypot(f2 - phi, 0))
    dl = ref.rad(lon, deg) - lam
    dl -= 2 * ref.PI * mp.nint(dl / (2 * ref.PI))
    return a, float(abs(dl) * r.radius(phi))


@sub("C22", g.case(
    lat1=lat_np, lon1=g.lon(), ell=ells, deg=g.deg(), form=g.form(),
    go=st.one_of(
        # bearing, and the fraction of the way to the pole ahead
        st.tuples(st.just("az"), g.az_wide(), st.one_of(st.floats(0, 0.999), g.logmag(-9, 0).map(lambda x: x * 0.9), st.just(0.0))),
        # along the parallel
        st.tuples(st.just("ew"), st.sampled_from([90.0, 270.0, -90.0, 450.0]), st.floats(0, 7)),
        # bearings close to east or west
        st.builds(lambda b, d, s: ("near", b + d, s), st.sampled_from([90.0, 270.0]), g.signed(g.logmag(-12, -2)), st.floats(0, 3)),
    ).map(list)), n=500)
def direct(c, rec):
    r, deg = R(c["ell"]), c["deg"]
    lat1, lon1 = U(c["lat1"], deg), U(c["lon1"], deg)
    kind, az0, x = c["go"]
    az = U(az0, deg)
    f1, al = ref.rad(lat1, deg), ref.rad(az, deg)
    M1 = r.M(f1)
    ca, sa = mp.cos(al), mp.sin(al)
    if kind == "az" and abs(ca) > 1e-9:
        ahead = (r.a * r.quad - mp.sign(ca) * M1) / abs(ca)
        s = min(float(ahead * mpf(x)), 50 * r.a)
    else:
        s = x * float(r.radius(f1))
    M2 = M1 + mpf(s) * ca
    if abs(M2) > r.a * r.quad * (1 - mpf(10) ** -8):
        rec.trivial = True
        return
    lat2, lon2 = lift(c["form"], lox.loxodrome_direct, [lat1, lon1, s, az],
                      dict(ell=g.mk_ell(c["ell"]), deg=deg), other=[lat1, lon1 / 2, s / 2, az])
    what = f"loxodrome_direct{(lat1, lon1, s, az)} {c['ell']} deg={deg} -> ({lat2!r}, {lon2!r})"
    in_range(lat2, -90 if deg else -PI / 2, 90 if deg else PI / 2, what)
    phi = r.Minv(M2)
    R1 = r.radius(f1)
    if abs(ca) < 1e-14:
        lam = ref.rad(lon1, deg) + mp.sign(sa) * mpf(s) / R1
    else:
        lam = ref.rad(lon1, deg) + sa / ca * (r.isometric(phi) - r.isometric(f1))
    n = r.n
    # meridional: rounding and both rectifying series; azimuth rounding turns a little of s into latitude
    tl = r.a * 1e-14 + r.a * 14 * n**5 + s * (0.025 * n**4 + 6e-16 * (1 + abs(math.radians(az0))))
    t = float(abs(sa / ca)) if abs(ca) > 1e-25 else math.inf
    R2 = float(r.radius(phi))
    if t > 1e9 * (1 - 1e-3):
        # goes along the first point's parallel: the latitude drifts by less than 1e-9 of s
        te = s * (4e-15 + 1.2e-9 * (1 + s / float(R1)))
        if t < 1e9 * 1.01:
            te += tl * 1.1e9 * 0 + r.a * 1e-15 * t + s * 1e-8
    else:
        te = t * (tl + R2 * (r.dpsi(phi) + r.dpsi(f1))) * 1.0 + s * 1e-15 * (1 + t * (2 + abs(math.radians(az0)))) * (1 + R2 / float(R1))
        te += s * 0  # tan() of the rounded bearing is in the term above
    te += R2 * 4e-16 * (4 + abs(math.radians(c["lon1"])) + float(abs(lam)))
    el, ee = pos_err(r, lat2, lon2, phi, lam, deg)
    bounded(el, tl, what + f": latitude should be {float(ref.outdeg(phi, deg))!r}", "lox direct lat")
    bounded(ee, te, what + f": longitude should be {float(ref.outdeg(lam, deg))!r}", "lox direct lon " + kind)
    rec.tag(kind, "form:" + c["form"])
    rec.trivial = s == 0


@sub("C22", g.case(p=st.tuples(st.floats(-88, 88), g.lon(), st.floats(-88, 88), st.floats(-170, 170)).map(list), ell=g.ellspec(fmax=0.01), deg=g.deg(), form=g.form()), n=250)
def there_and_back(c, rec):
    r, deg = R(c["ell"]), c["deg"]
    p = [U(c["p"][0], deg), U(c["p"][1], deg), U(c["p"][2], deg), U(c["p"][1] + c["p"][3], deg)]
    e = g.mk_ell(c["ell"])
    s, az = lift(c["form"], lox.loxodrome_inverse, p, dict(ell=e, deg=deg))
    co = abs(math.cos(az if not deg else math.radians(az)))
    q = lift("s", lox.loxodrome_direct, [p[0], p[1], s, az], dict(ell=e, deg=deg))
    el, ee = pos_err(r, q[0], q[1], ref.rad(p[2], deg), ref.rad(p[3], deg), deg)
    tol = (r.a + s) * (1e-13 + 100 * r.n**4) / max(co, 1e-9) if co > 1e-9 else (r.a + s) * 1e-8
    bounded(el + ee, tol, f"loxodrome_direct(loxodrome_inverse{tuple(p)} {c['ell']} deg={deg} = {(s, az)}) -> {q}", "lox round trip")


@sub("C22", g.case(lat1=g.lat(), lon1=g.lon(), az=g.az(), bad=g.logmag(-9, 2), ell=ells, deg=g.deg()), n=60)
def guards(c, rec):
    deg, e = c["deg"], g.mk_ell(c["ell"])
    l1 = 90.0 if deg else PI / 2
    kw = dict(ell=e, deg=deg)
    lat1, lon1, az, bad = U(c["lat1"], deg), U(c["lon1"], deg), U(c["az"], deg), c["bad"]
    must_raise(ValueError, lox.loxodrome_direct, lat1, lon1, -bad, az, **kw)
    for sg in (1, -1):
        must_raise(ValueError, lox.loxodrome_direct, sg * (l1 + bad), lon1, 1.0, az, **kw)
        call(lox.loxodrome_direct, sg * l1, lon1, 0.0, az, **kw)
    if np is not None:
        must_raise(ValueError, lox.loxodrome_direct, np.array([lat1, -l1 - bad]), lon1, np.array([1.0, 1.0]), az, **kw)
        must_raise(ValueError, lox.loxodrome_direct, lat1, lon1, np.array([0.0, -bad]), az, **kw)


# ---------------------------------------------------------------- C23

@sub("C23", g.case(lat1=g.lat(), lat2=st.one_of(g.lat(), dlt.map(lambda d: ["+", d])), lat3=g.lat(), ell=g.ellspec(fmax=0.3), deg=g.deg(), form=g.form()), n=400)
def arcs(c, rec):
    r, deg, e = R(c["ell"]), c["deg"], g.mk_ell(c["ell"])
    l2 = c["lat2"] if not isinstance(c["lat2"], list) else max(-90.0, min(90.0, c["lat1"] + c["lat2"][1]))
    a1, a2, a3 = (U(x, deg) for x in (c["lat1"], l2, c["lat3"]))
    kw = dict(ell=e, deg=deg)
    one = lambda x, y: lift(c["form"], lox.meridian_arc, [x, y], kw)[0]  # noqa: E731
    d12 = one(a1, a2)
    want = float(abs(r.M(ref.rad(a2, deg)) - r.M(ref.rad(a1, deg))))
    # rectifying series: one error at each end, absolute; and the mean radius's own
    tol = r.a * (16 * EPS * (1 + 2 * r.n) + 3.6 * r.n**5) + want * (4 * EPS + 0.02 * r.n**4)
    bounded(abs(d12 - want), tol, f"meridian_arc({a1!r},{a2!r}) {c['ell']} deg={deg} -> {d12!r}, integral {want!r}", "arc")
    bounded(abs(one(a2, a1) - d12), 0.0, "meridian_arc the other way")
    bounded(abs(one(a1, a1)), 0.0, "meridian_arc of equal latitudes")
    lo, mid, hi = sorted((a1, a2, a3))
    bounded(abs(one(lo, mid) + one(mid, hi) - one(lo, hi)), r.a * 8 * EPS, f"meridian_arc is not additive over {lo!r} {mid!r} {hi!r}", "arc sum")
    md = lift(c["form"], lox.meridian_dist, [a1], kw)[0]
    bounded(abs(md - one(0.0, a1)), r.a * 2 * EPS, f"meridian_dist({a1!r}) -> {md!r}")
    bounded(abs(md - float(abs(r.M(ref.rad(a1, deg))))), tol + md * (4 * EPS + 0.02 * r.n**4), f"meridian_dist({a1!r}) {c['ell']} deg={deg} -> {md!r}", "meridian_dist")
    rec.trivial = d12 == 0
    rec.tag("form:" + c["form"])


@sub("C23", g.case(lat=g.lat(), lon1=g.lon(), lon2=st.one_of(g.lon(), dlt.map(lambda d: ["+", d])), ell=g.ellspec(), deg=g.deg(), form=g.form()), n=300, fixed=[
    dict(lat=60.0, lon1=179.0, lon2=-179.0, ell="wgs84", deg=True, form="s"),
    dict(lat=0.0, lon1=0.0, lon2=180.0, ell="wgs84", deg=True, form="s"),
    dict(lat=0.0, lon1=10.0, lon2=350.0, ell="wgs84", deg=True, form="s"),
])
def departures(c, rec):
    r, deg, e = E(c["ell"]), c["deg"], g.mk_ell(c["ell"])
    l2 = c["lon2"] if not isinstance(c["lon2"], list) else c["lon1"] + c["lon2"][1]
    la, l1, l2 = (U(x, deg) for x in (c["lat"], c["lon1"], l2))
    d = lift(c["form"], lox.departure, [l1, l2, la], dict(ell=e, deg=deg))[0]
    dl = ref.rad(l2, deg) - ref.rad(l1, deg)
    dl = abs(dl - 2 * ref.PI * mp.nint(dl / (2 * ref.PI)))
    phi = ref.rad(la, deg)
    rad = float(ref.normal_radius(phi, r.a, r.b) * mp.cos(phi))
    want = rad * float(dl)
    tol = rad * 2 * EPS * (6 + float(abs(ref.rad(l1, deg)) + abs(ref.rad(l2, deg)))) + r.a * 4 * EPS * PI + want * 4 * EPS
    bounded(abs(d - want), tol, f"departure({l1!r},{l2!r},{la!r}) {c['ell']} deg={deg} -> {d!r}, want {want!r}", "departure")
    back = lift(c["form"], lox.departure, [l2, l1, la], dict(ell=e, deg=deg))[0]
    bounded(abs(d - back), tol, "departure the other way", "departure back")
    require(d >= -r.a * 1e-15, f"departure({l1!r},{l2!r},{la!r}) -> {d!r} < 0")
    rec.trivial = want == 0


# ---------------------------------------------------------------- C24

pts = st.lists(st.tuples(g.lat(), g.lon()).map(list), min_size=1, max_size=6)
close = st.builds(
    lambda p, l, ds: [[max(-90.0, min(90.0, p + x)), l + y] for x, y in ds], g.lat(), g.lon(),
    st.lists(st.tuples(st.floats(-30, 30), st.floats(-40, 40)), min_size=1, max_size=6))


crowd = st.builds(
    lambda n, p, l, k, ph: [[max(-90.0, min(90.0, p + k * math.sin(1.1 * i * i + ph))), l + 2 * k * math.sin(2.3 * i + ph)] for i in range(n)],
    st.one_of(st.integers(7, 40), st.sampled_from([16, 32, 64, 100, 128])), g.lat(), g.lon(), st.floats(0.01, 60), st.floats(0, 6))


def authalic_inverse(r, be):
    s = mp.sin(be)
    qp = r.q(ref.PI / 2)
    x = be
    if abs(s) > 1 - mpf(10) ** -12:
        # near a pole: expand through the colatitude
        co = mp.cos(be)
        if co == 0:
            return be
    for _ in range(60):
        sf, cf = mp.sin(x), mp.cos(x)
        if abs(cf) < mpf(10) ** -25:
            break
        d = (qp * s - r.q(x)) * (1 - r.e2 * sf * sf) ** 2 / (2 * (1 - r.e2) * cf)
        x += d
        if abs(x) > ref.PI / 2:
            x = mp.sign(x) * ref.PI / 2 - (x - mp.sign(x) * ref.PI / 2)
        if abs(d) < mpf(10) ** -22:
            break
    return x


SIZES = [250, 256, 257, 500, 512, 1000, 1001, 1024, 1025, 2048, 4096, 4097, 5000, 8193, 10000, 16385, 20011, 65537, 131101]


@sub("C24", g.case(ps=st.lists(st.tuples(g.lat(), g.lon()).map(list), min_size=2, max_size=5), n=st.one_of(st.integers(129, 3000), st.sampled_from(SIZES)), how=st.sampled_from(["blocks", "cyclic", "one odd first", "one odd last", "shuffled"]),
                   two=st.booleans(), seed=st.integers(0, 999), ell=g.ellspec(fmax=0.11), deg=g.deg()), n=60, cfgs="fn")
def mean_of_many(c, rec):
    """large arrays made of a few points: the weighted vector mean"""
    import random

    r, deg, e, n = E(c["ell"]), c["deg"], g.mk_ell(c["ell"]), c["n"]
    ps = [[U(p, deg), U(l, deg)] for p, l in c["ps"]]
    m = len(ps)
    if c["how"] == "cyclic":
        idx = [i % m for i in range(n)]
    elif c["how"] == "blocks":
        idx = sorted((i * i) % m for i in range(n))
    elif c["how"].startswith("one odd"):
        idx = [1 if i else 0 for i in range(n)][:: 1 if c["how"].endswith("first") else -1]
    else:
        idx = random.Random(c["seed"]).choices(range(m), range(1, m + 1), k=n)
    vs = []
    for p, l in ps:
        be, lam = fwd("authalic", ref.rad(p, deg), r), ref.rad(l, deg)
        vs.append((mp.cos(be) * mp.cos(lam), mp.cos(be) * mp.sin(lam), mp.sin(be)))
    S = [sum(idx.count(j) * vs[j][k] for j in range(m)) / n for k in range(3)]
    size = float(ref.norm(S))
    if size < 1e-3:
        rec.trivial = True
        return
    la, lo = np.array([ps[i][0] for i in idx]), np.array([ps[i][1] for i in idx])
    if c["two"] and n % 2 == 0:
        la, lo = la.reshape(2, -1), lo.reshape(2, -1)
    q = [fl(x) for x in call(lox.meanm, la, lo, ell=e, deg=deg)]
    lat, lam = authalic_inverse(r, mp.atan2(S[2], mp.hypot(S[0], S[1]))), mp.atan2(S[1], S[0])
    fs, bs = series("authalic", r), series("authalic", r, True)
    tol = (fs + 6e-15 * (1 + max(abs(math.radians(p[1])) for p in c["ps"])) + n * 2e-16) * (1 + 4 * r.f) / size * 1.2 + bs + 1e-15
    u, v = ((mp.cos(x) * mp.cos(y), mp.cos(x) * mp.sin(y), mp.sin(x)) for x, y in ((ref.rad(q[0], deg), ref.rad(q[1], deg)), (lat, lam)))
    bounded(float(ref.norm(ref.sub3(u, v))), tol, f"meanm of {n} points ({c['how']}) from {ps} {c['ell']} deg={deg} -> {q}", "meanm of many")
    rec.tag(c["how"], f"points:{10 ** len(str(n))}")


@sub("C24", g.case(ps=st.one_of(close, close, pts, pts, crowd), ell=g.ellspec(fmax=0.11), deg=g.deg(), shape=st.sampled_from(["1d", "2d", "col"])), n=400, cfgs="fn", fixed=[
    dict(ps=[[10, 179], [10, -179]], ell="wgs84", deg=True, shape="1d"),
    dict(ps=[[80, 0], [80, 180]], ell="wgs84", deg=True, shape="1d"),
    dict(ps=[[80, 0], [80, 120], [80, -120]], ell="wgs84", deg=False, shape="1d"),
    dict(ps=[[-45, 77]], ell="wgs84", deg=True, shape="1d"),
])
def mean(c, rec):
    r, deg, e = E(c["ell"]), c["deg"], g.mk_ell(c["ell"])
    ps = [[U(p, deg), U(l, deg)] for p, l in c["ps"]]

    def meanm(ps):
        la, lo = np.array([p[0] for p in ps]), np.array([p[1] for p in ps])
        if c["shape"] == "col":
            la, lo = la[:, None], lo[:, None]
        elif c["shape"] == "2d" and len(ps) % 2 == 0:
            la, lo = la.reshape(2, -1), lo.reshape(2, -1)
        x, y = call(lox.meanm, la, lo, ell=e, deg=deg)
        return fl(x), fl(y)

    def vec(p, l):
        be = fwd("authalic", ref.rad(p, deg), r)
        lam = ref.rad(l, deg)
        return mp.cos(be) * mp.cos(lam), mp.cos(be) * mp.sin(lam), mp.sin(be)

    vs = [vec(*p) for p in ps]
    n = len(ps)
    S = [sum(v[k] for v in vs) / n for k in range(3)]
    size = float(ref.norm(S))
    if size < 1e-4:
        rec.trivial = True
        return
    got = meanm(ps)
    what = f"meanm({ps}) {c['ell']} deg={deg} -> {got}"
    in_range(got[0], -90 if deg else -PI / 2, 90 if deg else PI / 2, what)
    lat = authalic_inverse(r, mp.atan2(S[2], mp.hypot(S[0], S[1])))
    lam = mp.atan2(S[1], S[0])
    fs, bs = series("authalic", r), series("authalic", r, True)
    tol = (fs + 6e-15 * (1 + max(abs(math.radians(p[1])) for p in c["ps"]))) * (1 + 4 * r.f) / size * 1.2 + bs + 1e-15

    def off(q):
        """angle between the computed point and the exact one"""
        u, v = ((mp.cos(x) * mp.cos(y), mp.cos(x) * mp.sin(y), mp.sin(x)) for x, y in ((ref.rad(q[0], deg), ref.rad(q[1], deg)), (lat, lam)))
        return float(ref.norm(ref.sub3(u, v)))

    bounded(off(got), tol, what + f": vector mean on the authalic sphere {float(ref.outdeg(lat, deg))!r}, {float(ref.outdeg(lam, deg))!r}", "meanm")
    k = n // 2
    bounded(off(meanm(ps[k:] + ps[:k])), tol, what + ", points in another order")
    bounded(off(meanm(ps + ps)), tol, what + ", points given twice")
    t = U(41.0, deg)
    q = meanm([[p, l + t] for p, l in ps])
    bounded(off((q[0], q[1] - t)), 1.5 * tol, what + f", longitudes shifted by {t}: {q}", "meanm shift")
    q = meanm([[-p, l] for p, l in ps])
    bounded(off((-q[0], q[1])), tol, what + f", latitudes mirrored: {q}")
    q = meanm([ps[0]] * 3)
    p0 = ref.rad(ps[0][0], deg)
    u, v = ((mp.cos(x) * mp.cos(y), mp.cos(x) * mp.sin(y), mp.sin(x)) for x, y in ((ref.rad(q[0], deg), ref.rad(q[1], deg)), (p0, ref.rad(ps[0][1], deg))))
    bounded(ref.norm(ref.sub3(u, v)), fs + bs + 1e-14 * (1 + abs(math.radians(c["ps"][0][1]))), f"meanm of {ps[0]} three times -> {q}", "meanm same")
    rec.tag("tight" if size > 0.9 else "spread", "shape:" + c["shape"])
