"""C03-C08: local frames (ENU, NED, NWU, SEZ), AER, matrices, body, downrange/crossrange"""
import math

from hypothesis import strategies as st
from mpmath import mp, mpf

import pymap3d as pm

from harness import core
from harness import gens as g
from harness import ref
from harness.core import Violation, call, flat, fl, in_range, lift, must_raise, near, near_angle, require, sub, whole

EPS = ref.EPS

# signed permutations of an ENU vector
FROM_ENU = {
    "enu": lambda e, n, u: (e, n, u),
    "ned": lambda e, n, u: (n, e, -u),
    "nwu": lambda e, n, u: (n, -e, u),
    "sez": lambda e, n, u: (-n, e, u),
}
TO_ENU = {
    "enu": lambda e, n, u: (e, n, u),
    "ned": lambda n, e, d: (e, n, -d),
    "nwu": lambda n, w, u: (-w, n, u),
    "sez": lambda s, e, z: (e, -s, z),
}


def U(x, deg):
    return x if deg else math.radians(x)


def rel_len():
    """displacement as a fraction of the semi-major axis"""
    return st.one_of(st.just(0.0), g.signed(g.logmag(-10, 1)), st.floats(-1, 1), g.signed(g.logmag(-5, 0)),
                     g.signed(g.logmag(0, 2)))


def observer():
    return dict(lat0=g.lat(), lon0=g.lon(), h0=g.rel_alt(-0.05, 10), ell=g.ellspec(), deg=g.deg(), form=g.form())


view = g.case(
    **observer(),
    target=st.one_of(
        st.tuples(st.just("enu"), rel_len(), rel_len(), rel_len()).map(list),
        st.tuples(st.just("geo"), g.lat(), g.lon(), g.rel_alt(-0.3, 60)).map(list),
        st.tuples(st.just("near"), g.signed(g.logmag(-9, 0)), g.signed(g.logmag(-9, 0)), g.signed(g.logmag(-9, -2))).map(list),
        st.just(["self"]),
    ),
)


class V:
    """a case resolved: observer, target in every representation, reference displacement"""

    def __init__(self, c, rec):
        self.c = c
        self.deg = d = c["deg"]
        self.a, self.b = g.ab(c["ell"])
        a = self.a
        self.ell = g.mk_ell(c["ell"])
        w = lambda *v: whole(c["form"], *v)  # noqa: E731
        self.lat0, self.lon0, self.h0 = w(U(c["lat0"], d), U(c["lon0"], d), c["h0"] * a)
        self.obs = (self.lat0, self.lon0, self.h0)
        self.axes = ref.enu_axes(self.lat0, self.lon0, d)
        self.o = ref.geod2ecef(*self.obs, self.a, self.b, d)
        t = c["target"]
        self.geo = None
        if t[0] == "enu":
            self.enu = w(*[x * a for x in t[1:]])
            dxyz = ref.tmatvec(self.axes, self.enu)
            self.xyz = tuple(float(p + q) for p, q in zip(self.o, dxyz))
        else:
            if t[0] == "self":
                self.geo = self.obs
            elif t[0] == "geo":
                self.geo = w(U(t[1], d), U(t[2], d), t[3] * a)
            else:
                lim = U(90.0, d)
                self.geo = w(min(lim, max(-lim, self.lat0 + U(t[1], d))), self.lon0 + U(t[2], d), self.h0 + t[3] * a)
            self.xyz = tuple(float(v) for v in ref.geod2ecef(*self.geo, self.a, self.b, d))
            e = ref.matvec(self.axes, ref.sub3(ref.geod2ecef(*self.geo, self.a, self.b, d), self.o))
            self.enu = tuple(float(v) for v in e)
        self.dist = math.hypot(*self.enu)
        lonmax = max(abs(math.radians(x) if d else x) for x in (self.lon0, self.geo[1] if self.geo else 0.0))
        self.amp = 12 + 2 * lonmax
        self.tol = EPS * self.amp * (a + abs(self.h0) + self.dist) + 1e-300
        self.form = c["form"]
        rec.tag("target " + t[0], "form " + self.form, "deg" if d else "rad")
        if abs(c["lat0"]) > 89.9:
            rec.tag("observer at or near a pole")
        if self.dist == 0:
            rec.tag("zero displacement")

    def __call__(self, fn, *args, **kw):
        return lift(self.form, fn, args, {"deg": self.deg, **kw})

    def vec(self, got, want, what, tol=None):
        if len(got) != 3:
            raise Violation(f"{what}: three outputs expected, got {got!r}")
        for k in range(3):
            near(got[k], want[k], self.tol if tol is None else tol, f"{what}[{k}] {self.c}")

    def point(self, got, want_xyz, what, skip_deep=True):
        """a geodetic result names the given ECEF point, exactly as ecef2geodetic does"""
        a, b = self.a, self.b
        x, y, z = want_xyz
        r = math.hypot(x, y, z)
        if not ref.outside_evolute(math.hypot(x, y), z, a, b) or r * r < 1.5 * (a * a - b * b):
            return False
        lat, lon, alt = got
        in_range(lat, -U(90.0, self.deg), U(90.0, self.deg), what + " latitude")
        direct = [fl(v) for v in flat(call(pm.ecef2geodetic, x, y, z, self.ell, deg=self.deg))]
        p = ref.geod2ecef(lat, lon, alt, a, b, self.deg)
        q = ref.geod2ecef(*direct, a, b, self.deg)
        err = float(ref.norm(ref.sub3(p, q)))
        if err > self.tol * 20 + 3e-8:
            raise Violation(f"{what} {self.c}: got {got}, ecef2geodetic of the target gives {direct}: {err!r} m apart")
        return True


def check_frame(F, c, rec):
    v = V(c, rec)
    fe, te = FROM_ENU[F], TO_ENU[F]
    want = fe(*v.enu)
    xyz, obs, ell = v.xyz, v.obs, v.ell
    get = lambda n: getattr(pm, n)  # noqa: E731
    # position forms
    v.vec(v(get(f"ecef2{F}"), *xyz, *obs, ell), want, f"ecef2{F}")
    v.vec(v(get(f"{F}2ecef"), *want, *obs, ell), xyz, f"{F}2ecef")
    if v.geo:
        v.vec(v(get(f"geodetic2{F}"), *v.geo, *obs, ell), want, f"geodetic2{F}")
    if v.point(v(get(f"{F}2geodetic"), *want, *obs, ell), xyz, f"{F}2geodetic"):
        rec.tag("geodetic result compared")
    # vector forms carry no origin
    axes = v.axes
    w = tuple(v.enu)
    d = tuple(float(x) for x in ref.tmatvec(axes, w))
    vt = EPS * v.amp * v.dist + 1e-300
    fwd = {"enu": ["ecef2enuv", "uvw2enu"], "ned": ["ecef2nedv"], "nwu": ["ecef2nwuv"], "sez": ["ecef2sezv"]}[F]
    for n in fwd:
        v.vec(v(get(n), *d, v.lat0, v.lon0), want, n, vt)
    back = {"enu": ["enu2ecefv", "enu2uvw"], "ned": [], "nwu": ["nwu2ecefv"], "sez": ["sez2ecefv"]}[F]
    for n in back:
        v.vec(v(get(n), *want, v.lat0, v.lon0), d, n, vt)
    if v.dist == 0:
        rec.tag("observer maps to zero")
    return v


@sub("C03", view, n=400, fixed=[
    {"lat0": la, "lon0": lo, "h0": 0.0, "ell": e, "deg": d, "form": "s", "target": t}
    for la in (0.0, 90.0, -90.0, 45.0) for lo in (0.0, 180.0, -180.0, 300.0) for e in ("wgs84", "moon", "mars")
    for d in (True, False) for t in (["self"], ["enu", 1e-4, 2e-4, 3e-4], ["geo", 42.0, -82.0, 2e-4], ["geo", -90.0, 0.0, 0.0])
])
def enu(c, rec):
    check_frame("enu", c, rec)


@sub("C03", view, n=80)
def enu_round_trip(c, rec):
    """forward then reverse through the code itself"""
    v = V(c, rec)
    e = v(pm.ecef2enu, *v.xyz, *v.obs, v.ell)
    v.vec(v(pm.enu2ecef, *e, *v.obs, v.ell), v.xyz, "enu2ecef(ecef2enu)")
    w = v(pm.enu2uvw, *v.enu, v.lat0, v.lon0)
    near(math.hypot(*w), v.dist, EPS * v.amp * v.dist, "length after enu2uvw")
    v.vec(v(pm.uvw2enu, *w, v.lat0, v.lon0), v.enu, "uvw2enu(enu2uvw)", EPS * v.amp * v.dist + 1e-300)


def _fr(F):
    def f(c, rec):
        v = check_frame(F, c, rec)
        # the same numbers as the ENU functions, relabelled
        fe = FROM_ENU[F]
        get = lambda n: getattr(pm, n)  # noqa: E731
        t = 4 * EPS * (v.a + abs(v.h0) + v.dist)
        v.vec(v(get(f"ecef2{F}"), *v.xyz, *v.obs, v.ell), fe(*v(pm.ecef2enu, *v.xyz, *v.obs, v.ell)), f"ecef2{F} vs ENU", t)
        want = fe(*v.enu)
        v.vec(v(get(f"{F}2ecef"), *want, *v.obs, v.ell), v(pm.enu2ecef, *v.enu, *v.obs, v.ell), f"{F}2ecef vs ENU", t)
        az, el, r = v(get(f"{F}2aer"), *want)
        az1, el1, r1 = v(pm.enu2aer, *v.enu)
        full = U(360.0, v.deg)
        near_angle(az, az1, 4 * EPS * full, f"{F}2aer azimuth", full)
        near(el, el1, 4 * EPS * full, f"{F}2aer elevation")
        near(r, r1, 4 * EPS * r1, f"{F}2aer range")
        v.vec(v(get(f"aer2{F}"), az1, el1, r1), fe(*v(pm.aer2enu, az1, el1, r1)), f"aer2{F}", 4 * EPS * r1)

    f.__name__ = F
    f.__doc__ = f"{F} functions against the mathematical frame and against the ENU functions"
    return f


for _F in ("ned", "nwu", "sez"):
    sub("C04", view, n=150, fixed=[
        {"lat0": la, "lon0": lo, "h0": 0.001, "ell": e, "deg": d, "form": "s", "target": t}
        for la in (0.0, 90.0, -35.0) for lo in (0.0, -180.0, 300.0) for e in ("wgs84", "mars")
        for d in (True, False) for t in (["self"], ["enu", 1e-4, 2e-4, 3e-4], ["geo", 42.0, -82.0, 2e-4])
    ])(_fr(_F))


# --- C05


def turned(c, az):
    """how many whole turns to add to a computed azimuth"""
    return (0, 0, 1, -1, -2, 3)[int(math.frexp(az)[0] * 6e6) % 6]


def trim(x, err=0.0):
    """documented millimetre trim; None when rounding could decide either way"""
    if abs(abs(x) - 1e-3) <= err:
        return None
    return 0.0 if abs(x) < 1e-3 else x


def check_aer(got, enu, err, deg, what):
    az, el, r = got
    full = 360.0 if deg else math.tau
    in_range(az, 0, full, what + " azimuth")
    require(az < full, f"{what}: azimuth {az!r} is not below a full turn")
    in_range(el, -full / 4, full / 4, what + " elevation")
    t = [trim(x, err) for x in enu]
    if None in t:
        return False
    e, n, u = t
    h = math.hypot(e, n)
    want_r = math.hypot(e, n, u)
    near(r, want_r, 2 * err + 4 * EPS * want_r, what + " range")
    ang = lambda d: full / math.tau * (2 * err / d) if d else 0.0  # noqa: E731
    if h > 4 * err or h == 0:
        near_angle(az, math.atan2(e, n) * full / math.tau, ang(h) + 4 * EPS * full, what + " azimuth", full)
        if h == 0:
            near(az, 0.0, 0.0, what + " azimuth straight up or down")
    if want_r > 4 * err or want_r == 0:
        near(el, math.atan2(u, h) * full / math.tau, ang(want_r) + 4 * EPS * full, what + " elevation")
    return True


@sub("C05", g.case(e=g.length(), n=g.length(), u=g.length(), deg=g.deg(), form=g.form()), n=400, fixed=[
    {"e": e, "n": n, "u": u, "deg": d, "form": f} for e in (0.0, 5.0, -5.0, -0.0) for n in (0.0, 7.0, -7.0, -0.0)
    for u in (0.0, 3.0, -3.0) for d in (True, False) for f in core.forms()[:3]
])
def enu2aer(c, rec):
    v = whole(c["form"], c["e"], c["n"], c["u"])
    if not any(v):
        rec.trivial = True
    rec.tag("octant " + "".join("+-0"[0 if x > 0 else 1 if x < 0 else 2] for x in v))
    got = lift(c["form"], pm.enu2aer, v, {"deg": c["deg"]})
    check_aer(got, v, 1e-18, c["deg"], f"enu2aer{v}")
    ned = lift(c["form"], pm.ned2aer, (v[1], v[0], -v[2]), {"deg": c["deg"]})
    check_aer(ned, v, 1e-18, c["deg"], f"ned2aer of {v}")
    check_aer(lift(c["form"], pm.nwu2aer, FROM_ENU["nwu"](*v), {"deg": c["deg"]}), v, 1e-18, c["deg"], f"nwu2aer of {v}")
    check_aer(lift(c["form"], pm.sez2aer, FROM_ENU["sez"](*v), {"deg": c["deg"]}), v, 1e-18, c["deg"], f"sez2aer of {v}")
    # and back: within the documented trim
    back = lift(c["form"], pm.aer2enu, got, {"deg": c["deg"]})
    for k in range(3):
        near(back[k], v[k], (1e-3 if abs(v[k]) <= 1.0000001e-3 else 0) + 40 * EPS * math.hypot(*v), f"aer2enu(enu2aer{v})[{k}]")


@sub("C05", g.case(az=g.az_wide(), el=g.el(), r=st.one_of(g.logmag(-3, 9), st.just(0.0)), deg=g.deg(), form=g.form()), n=300)
def aer2enu(c, rec):
    az, el, r = whole(c["form"], U(c["az"], c["deg"]), U(c["el"], c["deg"]), c["r"])
    if r == 0:
        rec.trivial = True
    A, E = ref.rad(az, c["deg"]), ref.rad(el, c["deg"])
    want = (r * mp.cos(E) * mp.sin(A), r * mp.cos(E) * mp.cos(A), r * mp.sin(E))
    tol = EPS * r * (4 + abs(float(A)))
    for F in ("enu", "ned", "nwu", "sez"):
        got = lift(c["form"], getattr(pm, "aer2" + F), (az, el, r), {"deg": c["deg"]})
        for x, y in zip(got, FROM_ENU[F](*want)):
            near(x, y, tol, f"aer2{F}({az},{el},{r})")
    # round trip in the well-conditioned part
    got = lift(c["form"], pm.aer2enu, (az, el, r), {"deg": c["deg"]})
    if all(abs(x) > 2e-3 for x in got):
        rec.tag("round trip")
        a1, e1, r1 = lift(c["form"], pm.enu2aer, got, {"deg": c["deg"]})
        full = U(360.0, c["deg"])
        hor = math.hypot(got[0], got[1])
        near_angle(a1, az, full * (EPS * (8 + abs(float(A))) * r / hor), "azimuth round trip", full)
        near(e1, el, 8 * EPS * full, "elevation round trip")
        near(r1, r, 8 * EPS * r, "range round trip")


@sub("C05", view, n=250, fixed=[
    {"lat0": la, "lon0": lo, "h0": 0.001, "ell": e, "deg": d, "form": "s", "target": t}
    for la in (0.0, 90.0, -35.0) for lo in (0.0, -180.0, 300.0) for e in ("wgs84", "mars")
    for d in (True, False) for t in (["self"], ["enu", 1e-4, 2e-4, 3e-4], ["enu", 0.0, 0.0, 1e-3], ["geo", 42.0, -82.0, 2e-4])
])
def entry_points(c, rec):
    """ECEF and geodetic AER functions: the polar form of the displacement, both ways"""
    v = V(c, rec)
    if v.dist == 0:
        rec.trivial = True
    ok = check_aer(v(pm.ecef2aer, *v.xyz, *v.obs, v.ell), v.enu, v.tol, v.deg, f"ecef2aer {c}")
    if v.geo:
        check_aer(v(pm.geodetic2aer, *v.geo, *v.obs, v.ell), v.enu, v.tol, v.deg, f"geodetic2aer {c}")
    rec.tag("direction compared" if ok else "at the trim threshold")
    full = U(360.0, v.deg)
    e, n, u = v.enu
    az, el, r = math.atan2(e, n) % math.tau * full / math.tau, math.atan2(u, math.hypot(e, n)) * full / math.tau, v.dist
    k = turned(c, az)
    az += k * full
    v.tol += EPS * r * (8 + 8 * abs(k))
    xyz = v(pm.aer2ecef, az, el, r, *v.obs, v.ell)
    v.vec(xyz, v.xyz, "aer2ecef", 2 * v.tol)
    v.point(v(pm.aer2geodetic, az, el, r, *v.obs, v.ell), v.xyz, "aer2geodetic")


# --- C06


def elem(x, form, i):
    if core.np is None or form in ("s", "i"):
        return fl(x, "matrix entry")
    a = core.np.asarray(x, dtype=float)
    if a.ndim == 0:
        return float(a)
    return float(a.reshape(-1)[i])


def lift_matrix(form, fn, args, kw):
    """matrix element of the case, for scalar and array angles"""
    np = core.np
    if np is None or form in ("s", "np", "i"):
        vals = [np.float64(x) if form == "np" and np is not None else core.asint(x) if form == "i" else x for x in args]
        m = call(fn, *vals, **kw)
        i = 0
        form = "s"
    else:
        i = core.AT[form]
        m = call(fn, *[core.laid_out(form, x, x / 2, x * 2) for x in args], **kw)
    try:
        out = tuple(tuple(elem(m[r][k], form, i) for k in range(3)) for r in range(3))
        require(len(m) == 3 and all(len(m[r]) == 3 for r in range(3)), "not 3x3")
    except (TypeError, IndexError) as e:
        raise Violation(f"{fn.__name__}: not a 3x3 matrix: {m!r} ({e})") from None
    return out


def mcmp(got, want, tol, what):
    for r in range(3):
        for k in range(3):
            near(got[r][k], want[r][k], tol, f"{what}[{r}][{k}]")


def det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def orthonormal(m, tol, what):
    for r in range(3):
        for k in range(3):
            near(sum(m[r][i] * m[k][i] for i in range(3)), float(r == k), tol, f"{what} row product {r}{k}")
    near(det(m), 1.0, tol, what + " determinant")


def T(m):
    return tuple(tuple(m[k][r] for k in range(3)) for r in range(3))


angles_wide = st.one_of(g.az_wide(), st.sampled_from([0.0, 90.0, -90.0, 180.0, 270.0, -180.0, 360.0]))
pitch_s = st.one_of(g.el(), st.sampled_from([90.0, -90.0, 0.0]), angles_wide)


def body_matrix_ref(yaw, pitch, roll, deg):
    """NED -> body direction cosine matrix written out"""
    y, p, r = (ref.rad(x, deg) for x in (yaw, pitch, roll))
    cy, sy, cp, sp, cr, sr = mp.cos(y), mp.sin(y), mp.cos(p), mp.sin(p), mp.cos(r), mp.sin(r)
    return (
        (cp * cy, cp * sy, -sp),
        (sr * sp * cy - cr * sy, sr * sp * sy + cr * cy, sr * cp),
        (cr * sp * cy + sr * sy, cr * sp * sy - sr * cy, cr * cp),
    )


def frame_body_ref(F, m):
    """columns are the frame's axes: apply to frame basis vectors"""
    cols = []
    for k in range(3):
        basis = tuple(mpf(i == k) for i in range(3))
        e, n, u = TO_ENU[F](*basis)
        cols.append(ref.matvec(m, (n, e, -u)))
    return T(cols)


vec3 = st.tuples(g.length(-3, 7), g.length(-3, 7), g.length(-3, 7)).map(list)


@sub("C06", g.case(lat0=g.lat(), lon0=g.lon(), deg=g.deg(), form=g.form(), v=vec3), n=250, fixed=[
    {"lat0": la, "lon0": lo, "deg": d, "form": "s", "v": [1.0, 2.0, 3.0]}
    for la in (0.0, 90.0, -90.0, 45.0) for lo in (0.0, 90.0, 180.0, -77.0) for d in (True, False)
])
def ecef_matrices(c, rec):
    d = c["deg"]
    la, lo = whole(c["form"], U(c["lat0"], d), U(c["lon0"], d))
    c = dict(c, v=whole(c["form"], *c["v"]))
    axes = ref.enu_axes(la, lo, d)
    tol = EPS * (6 + abs(math.radians(c["lon0"])))
    rec.tag("form " + c["form"])
    if not any(c["v"]):
        rec.tag("zero vector")
    dist = math.hypot(*c["v"])
    for F in ("enu", "ned", "nwu", "sez"):
        want = T(tuple(FROM_ENU[F](*(axes[r][k] for r in range(3))) for k in range(3)))
        f, b = getattr(pm, f"ecef2{F}_matrix"), getattr(pm, f"{F}2ecef_matrix")
        m = lift_matrix(c["form"], f, (la, lo), {"deg": d})
        mb = lift_matrix(c["form"], b, (la, lo), {"deg": d})
        mcmp(m, want, tol, f"ecef2{F}_matrix({la},{lo},deg={d})")
        mcmp(mb, T(want), tol, f"{F}2ecef_matrix({la},{lo},deg={d})")
        orthonormal(m, 4 * tol, f"ecef2{F}_matrix")
        orthonormal(mb, 4 * tol, f"{F}2ecef_matrix")
        # matrix times vector = vector function
        mv = [sum(m[r][k] * c["v"][k] for k in range(3)) for r in range(3)]
        fn = getattr(pm, f"ecef2{F}v")
        for x, y in zip(lift(c["form"], fn, (*c["v"], la, lo), {"deg": d}), mv):
            near(x, y, 4 * tol * dist, f"ecef2{F}v vs matrix")
        if F != "ned":
            mv = [sum(mb[r][k] * c["v"][k] for k in range(3)) for r in range(3)]
            for x, y in zip(lift(c["form"], getattr(pm, f"{F}2ecefv"), (*c["v"], la, lo), {"deg": d}), mv):
                near(x, y, 4 * tol * dist, f"{F}2ecefv vs matrix")


att = dict(yaw=angles_wide, pitch=pitch_s, roll=angles_wide, deg=g.deg(), form=g.form())


def att_tol(c):
    return EPS * (8 + 2 * max(abs(math.radians(c[k])) for k in ("yaw", "pitch", "roll")))


@sub("C06", g.case(**att, v=vec3), n=250, fixed=[
    {"yaw": y, "pitch": p, "roll": r, "deg": d, "form": "s", "v": [1.0, 2.0, 3.0]}
    for y in (0.0, 90.0, 30.0) for p in (0.0, 90.0, -90.0, 20.0) for r in (0.0, 180.0, -40.0) for d in (True, False)
])
def body_matrices(c, rec):
    d = c["deg"]
    a = whole(c["form"], *[U(c[k], d) for k in ("yaw", "pitch", "roll")])
    m = body_matrix_ref(*a, d)
    c = dict(c, v=whole(c["form"], *c["v"]))
    tol = att_tol(c)
    dist = math.hypot(*c["v"])
    mcmp(lift_matrix(c["form"], pm.body_matrix, a, {"deg": d}), m, tol, f"body_matrix{a}")
    for F in ("enu", "ned", "nwu", "sez"):
        want = frame_body_ref(F, m)
        f = lift_matrix(c["form"], getattr(pm, f"{F}2body_matrix"), a, {"deg": d})
        b = lift_matrix(c["form"], getattr(pm, f"body2{F}_matrix"), a, {"deg": d})
        mcmp(f, want, tol, f"{F}2body_matrix{a}")
        mcmp(b, T(want), tol, f"body2{F}_matrix{a}")
        orthonormal(f, 4 * tol, f"{F}2body_matrix")
        for fn, mm in ((getattr(pm, f"{F}2body"), f), (getattr(pm, f"body2{F}"), b)):
            mv = [sum(mm[r][k] * c["v"][k] for k in range(3)) for r in range(3)]
            for x, y in zip(lift(c["form"], fn, (*c["v"], *a), {"deg": d}), mv):
                near(x, y, 4 * tol * dist, f"{fn.__name__} vs matrix")
    if abs(c["pitch"]) == 90:
        rec.tag("gimbal lock")
    if not any(a):
        rec.trivial = True


# --- C07


@sub("C07", g.case(**{k: v for k, v in att.items()}, v=vec3), n=250)
def local_vectors(c, rec):
    d = c["deg"]
    a = whole(c["form"], *[U(c[k], d) for k in ("yaw", "pitch", "roll")])
    m = body_matrix_ref(*a, d)
    v = whole(c["form"], *c["v"])
    tol = att_tol(c) * math.hypot(*v)
    if not any(v):
        rec.trivial = True
    for F in ("enu", "ned", "nwu", "sez"):
        e, n, u = TO_ENU[F](*v)
        want = ref.matvec(m, (n, e, -u))
        for x, y in zip(lift(c["form"], getattr(pm, f"{F}2body"), (*v, *a), {"deg": d}), want):
            near(x, y, tol, f"{F}2body({v},{a},deg={d})")
        n, e, dn = ref.tmatvec(m, v)
        for x, y in zip(lift(c["form"], getattr(pm, f"body2{F}"), (*v, *a), {"deg": d}), FROM_ENU[F](e, n, -dn)):
            near(x, y, tol, f"body2{F}({v},{a},deg={d})")
    # documented sense: positive yaw turns the nose from north to east, positive pitch raises it, roll lowers the right wing
    near(fl(call(pm.body2ned, 1.0, 0.0, 0.0, *a, deg=d)[0]), m[0][0], att_tol(c), "nose north component")


body_view = g.case(
    **observer(), target=st.one_of(
        st.tuples(st.just("enu"), rel_len(), rel_len(), rel_len()).map(list),
        st.tuples(st.just("geo"), g.lat(), g.lon(), g.rel_alt(-0.3, 60)).map(list),
        st.tuples(st.just("near"), g.signed(g.logmag(-9, 0)), g.signed(g.logmag(-9, 0)), g.signed(g.logmag(-9, -2))).map(list),
        st.just(["self"])),
    yaw=angles_wide, pitch=pitch_s, roll=angles_wide, frame=st.sampled_from(["ned", "enu", "sez", "nwu", None]),
)


@sub("C07", body_view, n=300, fixed=[
    {"lat0": la, "lon0": -100.0, "h0": 0.001, "ell": e, "deg": d, "form": "s", "frame": F, "yaw": 20.0, "pitch": 35.0,
     "roll": -50.0, "target": t}
    for la in (90.0, -35.0) for e in ("wgs84", "mars") for F in ("ned", "enu", "sez", "nwu", None)
    for d in (True, False) for t in (["self"], ["enu", 1e-4, 2e-4, 3e-4], ["geo", 42.0, -82.0, 2e-4])
])
def points(c, rec):
    v = V(c, rec)
    d = v.deg
    a = whole(c["form"], *[U(c[k], d) for k in ("yaw", "pitch", "roll")])
    m = body_matrix_ref(*a, d)
    e, n, u = v.enu
    want = tuple(float(x) for x in ref.matvec(m, (n, e, -u)))
    kw = {} if c["frame"] is None else {"frame": c["frame"]}
    rec.tag("frame " + str(c["frame"]))
    at = att_tol(c)
    tol = v.tol + at * v.dist
    v.vec(v(pm.ecef2body, *v.xyz, *v.obs, *a, v.ell, **kw), want, "ecef2body", tol)
    v.vec(v(pm.body2ecef, *want, *v.obs, *a, v.ell, **kw), v.xyz, "body2ecef", tol)
    if v.geo:
        v.vec(v(pm.geodetic2body, *v.geo, *v.obs, *a, v.ell, **kw), want, "geodetic2body", tol)
    v.tol = tol
    v.point(v(pm.body2geodetic, *want, *v.obs, *a, v.ell, **kw), v.xyz, "body2geodetic")
    dv = tuple(float(x) for x in ref.tmatvec(v.axes, v.enu))
    vt = (EPS * v.amp + at) * v.dist + 1e-300
    v.vec(v(pm.ecef2bodyv, *dv, v.lat0, v.lon0, *a, **kw), want, "ecef2bodyv", vt)
    v.vec(v(pm.body2ecefv, *want, v.lat0, v.lon0, *a, **kw), dv, "body2ecefv", vt)
    if v.dist == 0:
        rec.trivial = True


BAD = st.one_of(st.sampled_from(["", "neds", "xyz", "body", "zxy", "zyz", "xyz", "yzx", "n", "ecef", "aer", "dca", "geodetic"]),
                st.text(st.characters(codec="ascii"), min_size=1, max_size=5)).filter(
    lambda s: s.strip().lower() not in ("ned", "enu", "sez", "nwu", "zyx", "ypr"))


@sub("C07", g.case(bad=BAD, deg=g.deg(), frame=st.sampled_from(["ned", "enu", "sez", "nwu"])), n=60)
def unknown_rejected(c, rec):
    s, d = c["bad"], c["deg"]
    p = (1.0, 2.0, 3.0)
    o = (0.1, 0.2, 0.3)
    at = (0.4, 0.5, 0.6)
    for fn, args in ((pm.ecef2body, (*p, *o, *at)), (pm.body2ecef, (*p, *o, *at)), (pm.geodetic2body, (0.1, 0.2, 9.0, *o, *at)),
                     (pm.body2geodetic, (*p, *o, *at)), (pm.ecef2bodyv, (*p, 0.1, 0.2, *at)), (pm.body2ecefv, (*p, 0.1, 0.2, *at))):
        must_raise(ValueError, fn, *args, frame=s, deg=d)
        must_raise(ValueError, fn, *args, frame=c["frame"], sequence=s, deg=d)
    for F in ("ned", "enu", "sez", "nwu"):
        for n in (f"{F}2body", f"body2{F}"):
            must_raise(ValueError, getattr(pm, n), *p, *at, sequence=s, deg=d)
            must_raise(ValueError, getattr(pm, n + "_matrix"), *at, sequence=s, deg=d)
    must_raise(ValueError, pm.body_matrix, *at, sequence=s, deg=d)


# --- C08

dca_view = g.case(**observer(), heading=angles_wide, target=st.one_of(
    st.tuples(st.just("enu"), rel_len(), rel_len(), rel_len()).map(list),
    st.tuples(st.just("geo"), g.lat(), g.lon(), g.rel_alt(-0.3, 60)).map(list),
    st.just(["self"])))


@sub("C08", dca_view, n=300, fixed=[
    {"lat0": la, "lon0": -100.0, "h0": 0.001, "ell": e, "deg": d, "form": "s", "heading": h, "target": t}
    for la in (90.0, -35.0) for e in ("wgs84", "mars") for h in (0.0, 90.0, 200.0, -45.0)
    for d in (True, False) for t in (["self"], ["enu", 1e-4, 2e-4, 3e-4], ["geo", 42.0, -82.0, 2e-4])
])
def all_entry_points(c, rec):
    v = V(c, rec)
    d = v.deg
    (h,) = whole(c["form"], U(c["heading"], d))
    e, n, u = v.enu
    H = ref.rad(h, d)
    s, co = mp.sin(H), mp.cos(H)
    # unit vector along the heading (sin, cos); left of it (-cos, sin)
    want = (float(e * s + n * co), float(-e * co + n * s), u)
    ht = EPS * (6 + abs(math.radians(c["heading"]))) * v.dist + 1e-300
    tol = v.tol + ht
    v.vec(v(pm.enu2dca, e, n, u, h), want, "enu2dca", ht)
    v.vec(v(pm.dca2enu, *want, h), (e, n, u), "dca2enu", 2 * ht)
    v.vec(v(pm.ned2dca, n, e, -u, h), want, "ned2dca", ht)
    v.vec(v(pm.dca2ned, *want, h), (n, e, -u), "dca2ned", 2 * ht)
    v.vec(v(pm.ecef2dca, *v.xyz, *v.obs, h, v.ell), want, "ecef2dca", tol)
    v.vec(v(pm.dca2ecef, *want, *v.obs, h, v.ell), v.xyz, "dca2ecef", tol)
    if v.geo:
        v.vec(v(pm.geodetic2dca, *v.geo, *v.obs, h, v.ell), want, "geodetic2dca", tol)
    v.tol = tol
    v.point(v(pm.dca2geodetic, *want, *v.obs, h, v.ell), v.xyz, "dca2geodetic")
    full = U(360.0, d)
    az, el, r = math.atan2(e, n) % math.tau * full / math.tau, math.atan2(u, math.hypot(e, n)) * full / math.tau, v.dist
    k = turned(c, az)
    v.vec(v(pm.aer2dca, az + k * full, el, r, h), want, "aer2dca", 3 * ht + 8 * abs(k) * EPS * r)
    check_aer(v(pm.dca2aer, *want, h), (e, n, u), 2 * ht, d, f"dca2aer {c}")
    if v.dist == 0:
        rec.trivial = True


@sub("C08", g.case(dr=g.length(), cr=g.length(), ab=g.length(), heading=angles_wide, turn=st.integers(-3, 3), deg=g.deg(),
                   form=g.form()), n=150)
def heading_laws(c, rec):
    """reverse inverts forward; full turns change nothing; a half turn flips both horizontal components"""
    d = c["deg"]
    (h,) = whole(c["form"], U(c["heading"], d))
    p = whole(c["form"], c["dr"], c["cr"], c["ab"])
    k = U(360.0 * c["turn"], d)
    tol = EPS * (10 + abs(math.radians(c["heading"])) + 20) * math.hypot(*p) * 2
    e = lift(c["form"], pm.dca2enu, (*p, h), {"deg": d})
    for x, y in zip(lift(c["form"], pm.enu2dca, (*e, h), {"deg": d}), p):
        near(x, y, tol, "enu2dca(dca2enu)")
    for x, y in zip(lift(c["form"], pm.dca2enu, (*p, h + k), {"deg": d}), e):
        near(x, y, tol, "full turn")
    for x, y, z in zip(lift(c["form"], pm.dca2enu, (*p, h + k + U(180.0, d)), {"deg": d}), e, (-1, -1, 1)):
        near(x, y * z, tol, "half turn")
    if not any(p[:2]):
        rec.trivial = True
