"""C32-C36: inertial frames, states, right ascension and declination"""
import datetime as dt
import math

from hypothesis import strategies as st
from mpmath import mp, mpf

import pymap3d as pm
from pymap3d import eci
from pymap3d import sidereal as sr
from pymap3d import vallado as va

from harness import core, earth, ref
from harness import gens as g
from harness.core import bounded, call, fl, flat, in_range, lift, must_raise, require, sub
from props.times import dut, mk, zone

np = core.np
PI, TAU = math.pi, math.tau
EPS = ref.EPS
ARC = PI / 648000
JD_ANGLE = 4.7e-10 * TAU * 1.003  # Earth's turn in one unit in the last place of a Julian date
OMEGA = float(earth.gmst(1) - earth.gmst(0)) / 86400
MODEL = 0.36 * ARC  # truncation of the code's nutation series

pole = st.one_of(st.just(0.0), st.floats(-1, 1), st.sampled_from([0.5, -0.5, 1.0]), st.floats(-4000, 4000))  # arcseconds
eop = st.fixed_dictionaries({"delta_ut1": dut, "xp": pole, "yp": pole})
coord = st.one_of(st.just(0.0), st.floats(-1e7, 1e7), g.signed(g.logmag(-3, 9)), st.sampled_from([6378137.0, -42164e3]))
pos = st.tuples(coord, coord, coord).map(list)
modern = g.iso((1972, 1, 1), (2050, 1, 1))
tabled = g.iso((1973, 2, 1), (2027, 1, 1))


def paths():
    """(name, extra arguments, honours Earth orientation arguments)"""
    p = [("non-astropy", dict(force_non_astropy=True), True)]
    if core.CONFIG == "f":
        p.append(("astropy", {}, False))
    else:
        p.append(("default", {}, True))
    return p


def leaping(t):
    """a leap second is near (UTC differences are not elapsed time), or no Earth orientation table"""
    return not dt.datetime(1973, 2, 1) < earth.utc(t) < dt.datetime(2027, 1, 1) or any(abs(earth.utc(t) - x) < dt.timedelta(seconds=130) for x in earth.LEAP_DATES)


def shapes(form, vals):
    """arrange points (list of 3-lists) as three coordinate arguments; reader of the result"""
    cols = [[v[k] for v in vals] for k in range(3)]
    if form == "s" or np is None:
        return None
    if form == "1":
        a = [np.array(c) for c in cols]
    elif form == "col":
        a = [np.array(c).reshape(-1, 1) for c in cols]
    elif form == "f":
        a = [np.asfortranarray(np.array(c).reshape(2, -1)) for c in cols]
    elif form == "nd":
        a = [np.array(c).reshape(2, 1, -1) for c in cols]
    else:
        a = [np.array(c)[::-1][::-1].reshape(-1, 2) for c in cols]
    return a


def go(fn, p, t, kw):
    r = flat(call(fn, *p, t, **kw))
    require(len(r) == len(p), f"{fn.__name__} -> {r!r}")
    return [fl(x, fn.__name__) for x in r]


def dist(u, v):
    return math.dist([float(x) for x in u], [float(x) for x in v])


def mat(fn, t, kw):
    cols = [go(fn, e, t, kw) for e in ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0])]
    return [[cols[j][i] for j in range(3)] for i in range(3)]


def mv(m, v):
    return [math.fsum(float(m[i][k]) * v[k] for k in range(3)) for i in range(3)]


@sub("C32", g.case(t=modern, z=zone, eop=eop, p=st.lists(pos, min_size=4, max_size=4), form=st.sampled_from(["s", "1", "col", "f", "nd", "pairs"]), pa=st.integers(0, 1)), n=150)
def rotation(c, rec):
    t = mk(c["t"], c["z"])
    name, kw, eo = paths()[c["pa"]]
    kw = dict(kw, **c["eop"])
    pts = c["p"]
    for fn, back in ((pm.eci2ecef, pm.ecef2eci), (pm.ecef2eci, pm.eci2ecef)):
        what = f"{fn.__name__} at {t!r} {kw}"
        M = mat(fn, t, kw)
        for i in range(3):
            for j in range(3):
                d = math.fsum(M[k][i] * M[k][j] for k in range(3)) - (i == j)
                bounded(abs(d), 12 * EPS, what + f": columns {i},{j} of {M} are not orthonormal", "orthonormal " + name)
        det = sum(M[0][i] * (M[1][(i + 1) % 3] * M[2][(i + 2) % 3] - M[1][(i + 2) % 3] * M[2][(i + 1) % 3]) for i in range(3))
        bounded(abs(det - 1), 16 * EPS, what + f": determinant {det}", "det")
        res = []
        for p in pts:
            r = float(ref.norm(p))
            q = go(fn, p, t, kw)
            res.append(q)
            bounded(abs(float(ref.norm(q)) - r), 8 * EPS * r + 1e-300, what + f": {p} -> {q}: length", "length")
            bounded(dist(q, mv(M, p)), 12 * EPS * r + 1e-300, what + f": {p} -> {q}, by the rotation of the axes {mv(M, p)}", "one rotation")
            b = go(back, q, t, kw)
            bounded(dist(b, p), 12 * EPS * r + 1e-300, what + f": {p} -> {q} and back {b}", "round trip " + name)
        a = shapes(c["form"], pts)
        if a is not None:
            keep = [x.copy() for x in a]
            out = call(fn, *a, t, **kw)
            require(all((x == y).all() for x, y in zip(a, keep)), what + ": inputs changed")
            require(len(out) == 3, what)
            for k in range(3):
                o = np.asarray(out[k])
                require(o.shape == np.squeeze(a[0]).shape, what + f": shape {o.shape} for inputs of {a[0].shape} (less unit dimensions)")
                for x, q in zip(o.ravel(), res):
                    bounded(abs(float(x) - q[k]), 4 * EPS * float(ref.norm(q)) + 1e-300, what + f": array element {x!r}, alone {q[k]!r}", "array")
    require(any(map(any, pts)) or True, "")
    rec.trivial = not any(map(any, pts))
    rec.tag(name, c["form"], "aware" if c["z"] is not None else "naive")


CROWD = st.one_of(st.integers(2, 300), st.sampled_from([64, 100, 128, 256, 500, 512, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2049, 4096, 4097, 5000, 8193]), st.sampled_from([10000, 10007, 16385, 20011]))


def cloud(seed, n, layout, width):
    """n rows of numbers, some of them equal, and the columns laid out as asked"""
    r = np.random.default_rng(seed)
    a = r.uniform(-1, 1, (n, width)) * 10.0 ** r.uniform(3, 8)
    a[r.random(n) < 0.1] = a[0]
    a[:, 3:] *= 1e-3  # velocities
    cols = [a[:, k].copy() for k in range(width)]
    if layout == "3":
        return a, cols
    if layout == "strided":
        cols = [a[:, k] for k in range(width)]
    elif "x" in layout:  # a small grid
        cols = [c.reshape([int(k) for k in layout.split("x")]) for c in cols]
    elif layout in ("2d", "F"):
        m = next((q for q in (7, 5, 4, 3, 2) if n % q == 0), 1)
        cols = [c.reshape(m, -1) for c in cols]
        if layout == "F":
            cols = [np.asfortranarray(c) for c in cols]
    elif layout == "shared":  # one z for all
        a[:, 2] = a[0, 2]
        cols[2] = float(a[0, 2])
    return a, cols


crowd_case = g.case(t=modern, eop=eop, n=CROWD, seed=st.integers(0, 2**32 - 1), layout=st.sampled_from(["1d", "1d", "strided", "2d", "F", "shared"]), pa=st.integers(0, 1))
GRIDS = ["3", "2x2", "3x3", "4x4", "3x2", "2x3", "6x6", "3x4", "4x3", "3x6", "6x3", "3x3x3", "2x3x3", "3x3x2", "3x1x3", "1x3x3", "2x2x2x2", "3x3x3x3"]
grids = [dict(t="2020-02-29T12:34:56", eop=dict(delta_ut1=0.1, xp=0.2, yp=0.3), n=math.prod(int(k) for k in x.split("x")), seed=i, layout=x, pa=i % 2) for i, x in enumerate(GRIDS * 2)]
crowd_big = dict(t="2020-02-29T12:34:56", eop=dict(delta_ut1=0.1, xp=0.2, yp=0.3), n=20011, seed=1, layout="1d", pa=0)


@sub("C32", crowd_case, n=25, cfgs="nf", fixed=[crowd_big, dict(crowd_big, pa=1, n=5000), *grids])
def crowd(c, rec):
    """one rotation for all the points of an array of any size"""
    t = g.dt(c["t"])
    name, kw, eo = paths()[c["pa"] % len(paths())]
    kw = dict(kw, **c["eop"])
    a, cols = cloud(c["seed"], c["n"], c["layout"], 3)
    r = np.sqrt((a**2).sum(axis=1))
    for fn in (pm.eci2ecef, pm.ecef2eci):
        M = np.array([[float(x) for x in row] for row in mat(fn, t, kw)])
        out = call(fn, *cols, t, **kw)
        got = np.stack([np.asarray(o) for o in out], axis=-1)
        want = a @ M.T
        d = np.sqrt(((got.reshape(-1, 3) - want) ** 2).sum(axis=1)) / r
        i = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
        require(got.shape[:-1] == np.squeeze(cols[0]).shape, f"{fn.__name__}: shape {got.shape[:-1]} for {cols[0].shape}")
        bounded(float(d[i]), 16 * EPS, f"{fn.__name__} of {c['n']} points at {t!r} {kw}: point {i} {a[i].tolist()} -> {got.reshape(-1, 3)[i].tolist()}, want {want[i].tolist()}", "crowd " + name)
    rec.tag(name, c["layout"], "thousands" if c["n"] > 1000 else "hundreds" if c["n"] > 100 else "tens")


@sub("C33", g.case(t=st.one_of(modern, modern, g.iso((1972, 1, 1), (2300, 1, 1))), z=zone, eop=eop), n=150)
def model(c, rec):
    """non-astropy orientation: independent model and exact dependence on the arguments"""
    t, e = mk(c["t"], c["z"]), c["eop"]
    F = dict(force_non_astropy=True)
    M = mat(pm.eci2ecef, t, dict(F, **e))
    R = earth.matrix(t, e["delta_ut1"], e["xp"], e["yp"])

    def apart(A, B):
        return max(dist(r, s) for r, s in zip(A, B))

    what = f"eci2ecef at {t!r} {e}"
    bounded(apart(M, R), 0.8 * MODEL, what + f": rotation {M}, model {[[float(x) for x in r] for r in R]}", "model")
    M0 = mat(pm.eci2ecef, t, F)
    Mz = mat(pm.eci2ecef, t, dict(F, delta_ut1=0.0, xp=0.0, yp=0.0))
    bounded(apart(M0, Mz), 0.0, what + ": orientation arguments do not default to 0")
    # the published short model (to the resolution of a Julian date), or one much closer to the truth
    S = earth.matrix(t, nutation=earth.short_nutation)
    R0 = earth.matrix(t)
    if not (apart(M0, S) <= 2.5 * JD_ANGLE and dist(M0[2], S[2]) <= 2e-14):
        bounded(apart(M0, R0), 0.2 * apart(S, R0), what + f": without orientation arguments {M0}; the published model {[[float(x) for x in r] for r in S]} (apart {apart(M0, S)!r}, axis {dist(M0[2], S[2])!r})", "published")
    Md = mat(pm.eci2ecef, t, dict(F, delta_ut1=e["delta_ut1"]))
    want = earth.mul(earth.R3(mpf(e["delta_ut1"]) * OMEGA), M0)
    # (the time argument has a resolution of one microsecond)
    bounded(apart(Md, want), 2.5 * JD_ANGLE + 1.1e-6 * OMEGA, what + ": delta_ut1 does not turn the Earth by its own angle", "delta_ut1")
    W = earth.mul(earth.R1(-mpf(e["yp"]) * earth.AS), earth.R2(-mpf(e["xp"]) * earth.AS))
    bounded(apart(M, earth.mul(W, Md)), 5e-11, what + ": xp, yp do not tilt the frame by the polar motion", "polar motion")
    rec.tag("dut" if e["delta_ut1"] else "no dut", "polar" if e["xp"] or e["yp"] else "no polar", f"{mk(c['t'], None).year // 10}0s")


if core.CONFIG == "f":
    import erfa
    from astropy.time import Time
    from astropy.utils import iers
    import astropy.units as u

    def table(t):
        T = Time(t)
        tab = iers.earth_orientation_table.get()
        xp, yp = tab.pm_xy(T)
        return T, float(T.delta_ut1_utc), float(xp.to_value(u.arcsec)), float(yp.to_value(u.arcsec))

    @sub("C33", g.case(t=tabled, z=zone, p=pos), n=200, cfgs="f")
    def standard(c, rec):
        """astropy path = ERFA's IAU 2006/2000A chain; both paths agree given the same orientation"""
        t = mk(c["t"], c["z"])
        T, d, xp, yp = table(mk(c["t"], None))
        npb = erfa.c2i06a(T.tt.jd1, T.tt.jd2)
        era = erfa.era00(T.ut1.jd1, T.ut1.jd2)
        w = erfa.pom00(xp * float(earth.AS), yp * float(earth.AS), erfa.sp00(T.tt.jd1, T.tt.jd2))
        E = erfa.c2tcio(npb, era, w)
        A = mat(pm.eci2ecef, t, {})
        what = f"eci2ecef at {t!r}"
        bounded(float(np.abs(E - np.array(A)).max()), 1e-9, what + f" with astropy: {A}, ERFA {E.tolist()}", "ERFA")
        B = mat(pm.eci2ecef, t, dict(force_non_astropy=True, delta_ut1=d, xp=xp, yp=yp))
        bounded(max(dist(r, s) for r, s in zip(A, B)), 0.35 * ARC, what + f": astropy {A}, non-astropy with the same orientation {B}", "both paths")
        # orientation arguments are for the other path
        q = go(pm.eci2ecef, c["p"], t, dict(delta_ut1=0.5, xp=0.3, yp=0.2))
        bounded(dist(q, go(pm.eci2ecef, c["p"], t, {})), 0.0, what + ": astropy path changed by the orientation arguments")
        # the oracle itself
        R = np.array([[float(x) for x in r] for r in earth.matrix(t, d, xp, yp)])
        require(float(np.abs(R - E).max()) < 0.2 * ARC, f"oracle: model {R}, ERFA {E}")
        rec.tag(f"{T.datetime.year // 10}0s")


# --- C34

near_alt = st.one_of(st.just(0.0), st.floats(-1e4, 2e5), st.sampled_from([1.0, 400e3, 35786e3]))
obs = g.case(lat=g.lat(), lon=g.lon(), alt=near_alt, lat0=g.lat(), lon0=g.lon(), h0=st.one_of(st.just(0.0), st.floats(-500, 9000)), az=g.az_wide(), el=g.el(),
             rng=g.logmag(0, 8), t=modern, z=zone, eop=eop, ell=g.ellspec(0.1, amin=6, amax=8), deg=g.deg(), pa=st.booleans())


@sub("C34", obs, n=150)
def compositions(c, rec):
    t = mk(c["t"], c["z"])
    deg, e = c["deg"], g.mk_ell(c["ell"])
    U = (lambda x: x) if deg else math.radians
    scale = g.ab(c["ell"])[0] / 6378137.0
    c = dict(c, alt=c["alt"] * scale, h0=c["h0"] * scale)
    ekw = c["eop"] if c["pa"] else {}
    lat, lon, az, el = U(c["lat"]), U(c["lon"]), U(c["az"]), U(c["el"])
    obs_ = [U(c["lat0"]), U(c["lon0"]), c["h0"]]

    def same(got, want, size, what, n_len):
        """n_len: which outputs are lengths (others angles)"""
        for k, (x, y) in enumerate(zip(got, want)):
            if k in n_len:
                bounded(abs(x - y), 4e-15 * size, what + f": {list(got)}, composition {list(want)}", "length")
            else:
                d = math.remainder(x - y, 360.0 if deg else TAU)
                bounded(abs(d), (1e-12 if deg else 2e-14), what + f": {list(got)}, composition {list(want)}", "angle")

    # geodetic -> eci
    got = go2(pm.geodetic2eci, [lat, lon, c["alt"]], t, dict(ell=e, deg=deg, **ekw))
    xyz = [fl(x) for x in call(pm.geodetic2ecef, lat, lon, c["alt"], e, deg)]
    want = go(pm.ecef2eci, xyz, t, ekw)
    size = float(ref.norm(want)) + abs(c["alt"])
    what = f"({lat!r},{lon!r},{c['alt']!r},{t!r},{c['ell']},deg={deg},{ekw})"
    same(got, want, size, "geodetic2eci" + what, (0, 1, 2))
    exact = ref.geod2ecef(lat, lon, c["alt"], *g.ab(c["ell"]), deg)
    if core.CONFIG != "f":
        R = earth.matrix(t, *[ekw.get(k, 0.0) for k in ("delta_ut1", "xp", "yp")])
        bounded(dist(got, earth.tr(R) and ref.matvec(earth.tr(R), exact)), 2 * MODEL * size, "geodetic2eci" + what + f": {got} is not the point at the model's orientation", "geodetic2eci model")
    # and back
    back = go2(pm.eci2geodetic, got, t, dict(ell=e, deg=deg, **ekw))
    q = go(pm.eci2ecef, got, t, ekw)
    same(back, [fl(x) for x in call(pm.ecef2geodetic, *q, e, deg)], size, f"eci2geodetic{tuple(got)} {what}", (2,))
    again = go2(pm.geodetic2eci, back, t, dict(ell=e, deg=deg, **ekw))
    if -1e4 * scale <= c["alt"] <= 1e5 * scale:
        f = 1 - g.ab(c["ell"])[1] / g.ab(c["ell"])[0]
        bounded(dist(again, got), 1e-13 * size + (f * c["alt"] / size) ** 2 * f * size * 20 + 5e-15 * size * (2 + abs(math.radians(c["lon"]))), f"geodetic2eci(eci2geodetic{tuple(got)}) -> {again} {what}", "geodetic round trip")
    # aer
    srange = c["rng"]
    what = f"({az!r},{el!r},{srange!r},{obs_},{t!r},{c['ell']},deg={deg},{ekw})"
    got = go2(pm.aer2eci, [az, el, srange, *obs_], t, dict(ell=e, deg=deg, **ekw))
    xyz = [fl(x) for x in call(pm.aer2ecef, az, el, srange, *obs_, e, deg=deg)]
    want = go(pm.ecef2eci, xyz, t, ekw)
    size = g.ab(c["ell"])[0] + abs(c["h0"]) + srange
    same(got, want, size, "aer2eci" + what, (0, 1, 2))
    default = go2(pm.aer2eci, [az, el, srange, *obs_], t, dict(deg=deg, **ekw))
    wgs = go2(pm.aer2eci, [az, el, srange, *obs_], t, dict(ell=g.mk_ell("wgs84"), deg=deg, **ekw))
    same(default, wgs, size, "aer2eci without ell" + what, (0, 1, 2))
    # eci2aer has no ellipsoid argument
    size = 6378137.0 + abs(c["h0"]) + srange
    back = go2(pm.eci2aer, [*default, *obs_], t, dict(deg=deg, **ekw))
    q = go(pm.eci2ecef, default, t, ekw)
    comp = [fl(x) for x in call(pm.ecef2aer, *q, *obs_, deg=deg)]
    w = f"eci2aer{tuple(default)} {what}"
    full = 360.0 if deg else TAU
    in_range(back[0], 0, full, w)
    in_range(back[1], -full / 4, full / 4, w)
    same(back, comp, 1e3 * size, w, (2,)) if abs(c["el"]) < 89.9 and srange > 1e3 else None
    # inverse: the direction and range asked for
    R = (lambda x: math.radians(x)) if deg else (lambda x: x)

    def enu(a, b, r):
        return (r * math.cos(R(b)) * math.sin(R(a)), r * math.cos(R(b)) * math.cos(R(a)), r * math.sin(R(b)))

    bounded(dist(enu(*back), enu(az, el, srange)), 3e-8 * (size / 6.4e6) * (1 + srange / 6.4e6) + 1e-14 * srange * abs(R(az)) + (1.5e-3 if c["rng"] * min(abs(math.cos(R(el)) * math.sin(R(az))), abs(math.cos(R(el)) * math.cos(R(az))), abs(math.sin(R(el)))) < 2e-3 else 0), w + f" -> {back}: not the direction and range of the point", "aer round trip")
    rec.tag("eop" if c["pa"] else "no eop", "deg" if deg else "rad", "ell" if c["ell"] != "wgs84" else "wgs84")


def go2(fn, args, t, kw):
    r = flat(call(fn, *args, t, **kw))
    require(len(r) == 3, f"{fn.__name__} -> {r!r}")
    return [fl(x, fn.__name__) for x in r]


@sub("C34", g.case(t=modern, eop=eop, lat=g.lat(89), lon=g.lon(), d=st.sampled_from(["delta_ut1", "xp", "yp"])), n=80, cfgs="ns")
def every_argument_counts(c, rec):
    """each orientation argument moves the result of each function as it moves eci2ecef"""
    t = g.dt(c["t"])
    k = {c["d"]: 0.7}
    a = [6.0e6, -1e6, 1.9e6]
    q0, q1 = go(pm.eci2ecef, a, t, {}), go(pm.eci2ecef, a, t, k)
    moved = dist(q0, q1)
    require(moved > 1, f"eci2ecef ignores {k}")
    for name, r in (
        ("eci2geodetic", [pm.geodetic2ecef(*go2(pm.eci2geodetic, a, t, kk)) for kk in ({}, k)]),
        ("eci2aer", [pm.aer2ecef(*go2(pm.eci2aer, [*a, c["lat"], c["lon"], 10.0], t, kk), c["lat"], c["lon"], 10.0) for kk in ({}, k)]),
    ):
        for got, want in zip(r, (q0, q1)):
            bounded(dist(got, want), 1e-3, f"{name} with {k} at {t}: {got}, want {want}", name)
    for name, r in (
        ("geodetic2eci", [go2(pm.geodetic2eci, list(pm.ecef2geodetic(*q)), t, kk) for q, kk in ((q0, {}), (q1, k))]),
        ("aer2eci", [go2(pm.aer2eci, [*pm.ecef2aer(*q, c["lat"], c["lon"], 10.0), c["lat"], c["lon"], 10.0], t, kk) for q, kk in ((q0, {}), (q1, k))]),
    ):
        for got in r:
            bounded(dist(got, a), 1e-3, f"{name} with {k} at {t}: {got}, want {a}", name)
    rec.tag(c["d"])


def with_orientation():
    """public functions that take the Earth's orientation: (function, arguments before the time, kinds of them)"""
    import inspect

    from pymap3d import aer

    fs = []
    for fn, n, m in ((pm.eci2ecef, 3, 0), (pm.ecef2eci, 3, 0), (eci.eci2ecef_state, 6, 0), (eci.ecef2eci_state, 6, 0), (pm.eci2geodetic, 3, 0), (pm.geodetic2eci, 0, 3),
                     (aer.eci2aer, 3, 3), (aer.aer2eci, 0, 6), (pm.azel2radec, 0, 4), (pm.radec2azel, 0, 4), (va.azel2radec, 0, 4), (va.radec2azel, 0, 4)):
        ps = inspect.signature(fn).parameters
        fs.append((fn, n, m, [k for k in ("delta_ut1", "xp", "yp") if k in ps], "force_non_astropy" in ps))
    return fs


@sub("C33", g.case(t=modern, z=zone, p=pos, v=pos, q=st.tuples(g.az(), g.el(), g.lat(), g.lon(), st.floats(0, 1e6), st.floats(1, 1e6)).map(list)), n=60)
def defaults(c, rec):
    """an orientation argument that is not given is zero"""
    t = mk(c["t"], c["z"])
    for fn, n, m, names, force in with_orientation():
        az, el, la, lo, h, r = c["q"]
        args = (c["p"] + c["v"])[:n] + {0: [], 3: [la, lo, h], 4: [az, el, la, lo], 6: [az, el, r, la, lo, h]}[m]
        base = dict(force_non_astropy=True) if force else {}
        if force or core.CONFIG != "f":
            one, two = (go_any(fn, args, t, k) for k in (base, dict(base, **{k: 0.0 for k in names})))
            require(one == two, f"{fn.__module__}.{fn.__name__}{tuple(args)} at {t!r}: {one} by default, {two} with {names} = 0")
        rec.tag(fn.__name__)


def go_any(fn, args, t, kw):
    return [fl(x).hex() for x in flat(call(fn, *args, t, **kw))]


# --- C35

vel = st.one_of(st.just(0.0), st.floats(-1e4, 1e4), g.signed(g.logmag(-3, 6)))
vels = st.tuples(vel, vel, vel).map(list)


def spinning(e):
    """rate of the Earth-fixed coordinates of a star, in frame whose axes are tilted by the polar motion"""
    W = earth.mul(earth.R1(-mpf(e.get("yp", 0.0)) * earth.AS), earth.R2(-mpf(e.get("xp", 0.0)) * earth.AS))
    S = [[0, OMEGA, 0], [-OMEGA, 0, 0], [0, 0, 0]]
    return [[float(x) for x in r] for r in earth.mul(earth.mul(W, S), [list(r) for r in zip(*W)])]


@sub("C35", g.case(t=modern, z=zone, eop=eop, p=st.lists(pos, min_size=3, max_size=3), v=st.lists(vels, min_size=3, max_size=3), form=st.sampled_from(["s", "1", "nd", "mixed", "23", "32", "23T"]), pa=st.integers(0, 1)), n=150)
def states(c, rec):
    t = mk(c["t"], c["z"])
    name, kw, eo = paths()[c["pa"]]
    if name == "astropy" and leaping(t):
        rec.trivial = True
        return
    kw = dict(kw, **c["eop"])
    P, V = c["p"], c["v"]
    for fn, back, posfn, sign in ((pm.eci2ecef_state, pm.ecef2eci_state, pm.eci2ecef, 1), (pm.ecef2eci_state, pm.eci2ecef_state, pm.ecef2eci, -1)):
        res = []
        M = mat(posfn, t, kw)
        for p, v in zip(P, V):
            r, s = float(ref.norm(p)), float(ref.norm(v))
            out = go(fn, [*p, *v], t, kw)
            res.append(out)
            what = f"{fn.__name__}({p},{v},{t!r},{kw}) -> {out}"
            q = go(posfn, p, t, kw)
            bounded(dist(out[:3], q), 8 * EPS * r + 1e-300, what + f": {posfn.__name__} gives {q}", "position " + name)
            # velocity: rotating frame, Earth rate about the axis (tilted by polar motion)
            spin = spinning(c["eop"] if name != "astropy" else {})
            if sign > 0:
                want = [x + y for x, y in zip(mv(M, v), mv(spin, out[:3]))]
            else:
                want = mv(M, [x - y for x, y in zip(v, mv(spin, p))])
            tol = 1e-300 + 12 * EPS * s + OMEGA * r * (5e-5 + 1.5e-5)
            if name == "astropy":
                tol += 1e-7 * 0 + 2e-9 * s
            bounded(dist(out[3:], want), tol, what + f": derivative of the position {want}", "velocity " + name)
            b = go(back, out, t, kw)
            bounded(dist(b[:3], p), 12 * EPS * r + 1e-300, what + f" and back {b}", "state round trip " + name)
            tol = 1e-300 + 20 * EPS * (s + 4 * OMEGA * r) + (OMEGA * r * 2e-9 if name == "astropy" else 0)
            bounded(dist(b[3:], v), tol, what + f" and back {b}", "velocity round trip " + name)
        if np is not None and c["form"] != "s" and not (c["form"] == "mixed" and name == "astropy"):
            six = [np.array([p[k] for p in P]) for k in range(3)] + [np.array([v[k] for v in V]) for k in range(3)]
            shape = (3,)
            if c["form"] == "nd":
                six = [x.reshape(3, 1) for x in six]
            elif c["form"] == "mixed":  # one position, three velocities
                six[:3] = P[0]
                res[1:] = [go(fn, [*P[0], *v], t, kw) for v in V[1:]]
            elif c["form"] != "1":
                six = [np.resize(x, (int(c["form"][0]), int(c["form"][1]))) for x in six]
                if c["form"].endswith("T"):
                    six = [np.asfortranarray(x) for x in six]
                shape = six[0].shape
            keep = [np.copy(x) for x in six]
            out = call(fn, *six, t, **kw)
            require(all(np.array_equal(x, y) for x, y in zip(six, keep)), "inputs changed")
            require(len(out) == 6, f"{fn.__name__} -> {out}")
            for k, o in enumerate(out):
                o = np.asarray(o)
                if o.shape == () and c["form"] == "mixed" and k < 3:
                    o = np.array([o, o, o])
                require(o.shape == shape, f"{fn.__name__} of {six}: output {k} has shape {o.shape}")
                for x, y in zip(o.ravel(), [*res, *res]):
                    size = float(ref.norm(y[:3])) if k < 3 else float(ref.norm(y[3:])) + OMEGA * float(ref.norm(y[:3]))
                    bounded(abs(float(x) - y[k]), 8 * EPS * size + (OMEGA * float(ref.norm(y[:3])) * 1e-9 if name == "astropy" else 0), f"{fn.__name__} of {six}: output {k} is {o}, alone {y[k]!r}", "array " + name)
    rec.tag(name, c["form"])
    rec.trivial = not any(map(any, P)) and not any(map(any, V))


@sub("C35", g.case(t=modern, p=pos, v=vels, eop=eop, h=st.sampled_from([16, 30, 60])), n=100)
def derivative(c, rec):
    """finite difference of the position transform along the trajectory"""
    t, p, v, h = g.dt(c["t"]), c["p"], c["v"], c["h"]
    for name, kw, eo in paths():
        if name == "astropy" and leaping(t):
            continue
        kw = dict(kw, **c["eop"])
        for fn, posfn in ((pm.eci2ecef_state, pm.eci2ecef), (pm.ecef2eci_state, pm.ecef2eci)):
            out = go(fn, [*p, *v], t, kw)
            r, s = float(ref.norm(p)), float(ref.norm(v))
            ends = []
            for k in (1, -1):
                at = [x + k * h * w for x, w in zip(p, v)]
                ends.append(go(posfn, at, t + dt.timedelta(seconds=k * h), kw))
            want = [(x - y) / (2 * h) for x, y in zip(*ends)]
            w = OMEGA * h
            tol = (w * w / 5) * OMEGA * r + w * w * 0.6 * s + OMEGA * (r * 5e-5 + (r + h * s) * 9e-5 / (2 * h)) + 4 * EPS * (r + s * h) / h + 1e-9 * s
            bounded(dist(out[3:], want), tol, f"{fn.__name__}({p},{v},{t!r},{kw}) -> {out}: finite difference over {h} s {want}", "difference " + name)
    rec.trivial = not any(p) and not any(v)


@sub("C35", crowd_case, n=20, cfgs="nf", fixed=[crowd_big, dict(crowd_big, pa=1, n=5000), *grids])
def crowd_of_states(c, rec):
    """positions and velocities of an array of any size are transformed by the same two matrices"""
    t = g.dt(c["t"])
    name, kw, eo = paths()[c["pa"] % len(paths())]
    if name == "astropy" and leaping(t):
        rec.trivial = True
        return
    kw = dict(kw, **c["eop"])
    a, cols = cloud(c["seed"], c["n"], c["layout"], 6)
    r, s = np.sqrt((a[:, :3] ** 2).sum(axis=1)), np.sqrt((a[:, 3:] ** 2).sum(axis=1))
    for fn, posfn in ((pm.eci2ecef_state, pm.eci2ecef), (pm.ecef2eci_state, pm.ecef2eci)):
        M = np.array([[float(x) for x in row] for row in mat(posfn, t, kw)])
        # linear in position and velocity: the images of six unit states, as long as the ones in question
        big = float(r.max())
        L = np.array([[x / big for x in go(fn, [big * (k == i) for k in range(6)], t, kw)] for i in range(6)])
        out = call(fn, *cols, t, **kw)
        got = np.stack([np.asarray(o) for o in out], axis=-1).reshape(-1, 6)
        want = np.concatenate([a[:, :3] @ M.T, a @ L[:, 3:]], axis=1)
        scale = 16 * EPS * r, 24 * EPS * (s + 4 * OMEGA * r) + (OMEGA * r * 4e-9 + 4e-9 * s if name == "astropy" else 0)
        for w, k in (("position", slice(0, 3)), ("velocity", slice(3, 6))):
            d = np.sqrt(((got[:, k] - want[:, k]) ** 2).sum(axis=1)) / scale[k.start // 3]
            i = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            bounded(float(d[i]), 1.0, f"{fn.__name__} of {c['n']} states at {t!r} {kw}: state {i} {a[i].tolist()} -> {got[i].tolist()}, want {want[i].tolist()}", f"crowd {w} {name}")
    rec.tag(name, c["layout"], "thousands" if c["n"] > 1000 else "hundreds" if c["n"] > 100 else "tens")


# --- C36

TIMEKIND = ["datetime", "datetime", "str"]


def close_dir(got, want, tol, what, label):
    """two unit vectors"""
    bounded(dist(got, want), tol, what, label)


def direc(a, b):
    a, b = ref.rad(a), ref.rad(b)
    return (mp.cos(b) * mp.cos(a), mp.cos(b) * mp.sin(a), mp.sin(b))


@sub("C36", g.case(t=modern, z=zone, lat=g.lat(), lon=g.lon(), az=g.az_wide(), el=g.el(), dut=dut, kind=st.sampled_from(TIMEKIND), form=g.form()), n=300)
def from_horizon(c, rec):
    t = mk(c["t"], c["z"])
    arg = t.isoformat() if c["kind"] == "str" else t
    lat, lon, az, el, d = c["lat"], c["lon"], c["az"], c["el"], c["dut"]
    lst = call(sr.datetime2sidereal, t, math.radians(lon), True, delta_ut1=d)
    axes = ref.enu_axes(ref.rad(lat), mpf(lst), deg=False)
    a, b = ref.rad(az), ref.rad(el)
    want = ref.tmatvec(axes, (mp.cos(b) * mp.sin(a), mp.cos(b) * mp.cos(a), mp.sin(b)))
    L = 8 + abs(math.radians(lon)) + abs(math.radians(az))
    res = []
    fns = [("azel2radec force_non_astropy", lambda *x, **k: pm.azel2radec(*x, arg, True, **k)), ("vallado.azel2radec", lambda *x, **k: va.azel2radec(*x, arg, **k))]
    if core.CONFIG != "f":
        fns.append(("azel2radec", lambda *x, **k: pm.azel2radec(*x, arg, **k)))
    for name, fn in fns:
        fn.__name__ = name
        ra, dec = lift(c["form"], fn, [az, el, lat, lon], dict(delta_ut1=d))
        what = f"{name}({az!r},{el!r},{lat!r},{lon!r},{arg!r},delta_ut1={d!r}) -> ({ra!r},{dec!r})"
        in_range(ra, 0, 360, what)
        in_range(dec, -90, 90, what)
        close_dir(direc(ra, dec), want, 4 * EPS * L, what + f", direction {[float(x) for x in want]}", "direction")
        # declination separately near the celestial poles
        wd = mp.atan2(want[2], mp.hypot(want[0], want[1]))
        bounded(abs(float(ref.rad(dec) - wd)), 4 * EPS * L, what, "dec")
        res.append((ra, dec))
    for r in res[1:]:
        bounded(dist(r, res[0]), 4 * EPS * 360 * 0 + 0.0, f"{[f[0] for f in fns]} differ: {res}")
    if d == 0:
        r = lift(c["form"], fns[0][1], [az, el, lat, lon])
        bounded(dist(r, res[0]), 0.0, "delta_ut1 does not default to 0")
    # back
    ra, dec = res[0]
    for back in (lambda *x, **k: pm.radec2azel(*x, arg, True, **k), lambda *x, **k: va.radec2azel(*x, arg, **k)):
        back.__name__ = "radec2azel"
        az2, el2 = lift(c["form"], back, [ra, dec, lat, lon], dict(delta_ut1=d))
        what = f"radec2azel({ra!r},{dec!r},{lat!r},{lon!r},{arg!r},delta_ut1={d!r}) -> ({az2!r},{el2!r})"
        in_range(az2, 0, 360, what)
        in_range(el2, -90, 90, what)
        close_dir(direc(az2, el2), direc(az, el), 6 * EPS * L, what + f": the direction was az {az!r}, el {el!r}", "back")
        bounded(abs(float(ref.rad(el2) - ref.rad(el))), 6 * EPS * L, what + f": el was {el!r}", "el back")
    rec.tag("zenith" if abs(el) > 89.999 else "sky", "pole" if abs(lat) > 89.999 else "else", c["kind"], "dut" if d else "no dut")


@sub("C36", g.case(t=modern, z=zone, lat=g.lat(), lon=g.lon(), ra=g.az_wide(), dec=g.el(), dut=dut, kind=st.sampled_from(TIMEKIND), form=g.form()), n=300)
def from_equator(c, rec):
    t = mk(c["t"], c["z"])
    arg = t.isoformat() if c["kind"] == "str" else t
    lat, lon, ra, dec, d = c["lat"], c["lon"], c["ra"], c["dec"], c["dut"]
    lst = call(sr.datetime2sidereal, t, math.radians(lon), True, delta_ut1=d)
    axes = ref.enu_axes(ref.rad(lat), mpf(lst), deg=False)
    e, n, up = ref.matvec(axes, direc(ra, dec))
    L = 8 + abs(math.radians(lon)) + abs(math.radians(ra))
    fns = [("radec2azel force_non_astropy", lambda *x, **k: pm.radec2azel(*x, arg, True, **k)), ("vallado.radec2azel", lambda *x, **k: va.radec2azel(*x, arg, **k))]
    if core.CONFIG != "f":
        fns.append(("radec2azel", lambda *x, **k: pm.radec2azel(*x, arg, **k)))
    res = []
    for name, fn in fns:
        fn.__name__ = name
        az, el = lift(c["form"], fn, [ra, dec, lat, lon], dict(delta_ut1=d))
        what = f"{name}({ra!r},{dec!r},{lat!r},{lon!r},{arg!r},delta_ut1={d!r}) -> ({az!r},{el!r})"
        in_range(az, 0, 360, what)
        in_range(el, -90, 90, what)
        close_dir(direc(az, el), (n, e, up), 4 * EPS * L, what + f", direction north, east, up {[float(x) for x in (n, e, up)]}", "direction")
        bounded(abs(float(ref.rad(el) - mp.atan2(up, mp.hypot(e, n)))), 4 * EPS * L, what, "el")
        res.append((az, el))
    for r in res[1:]:
        bounded(dist(r, res[0]), 0.0, f"{[f[0] for f in fns]} differ: {res}")
    az, el = res[0]
    fwd = lambda *x, **k: pm.azel2radec(*x, arg, True, **k)  # noqa: E731
    fwd.__name__ = "azel2radec"
    ra2, dec2 = lift(c["form"], fwd, [az, el, lat, lon], dict(delta_ut1=d))
    close_dir(direc(ra2, dec2), direc(ra, dec), 6 * EPS * L, f"azel2radec(radec2azel({ra!r},{dec!r})) at {lat!r},{lon!r},{arg!r} -> ({ra2!r},{dec2!r})", "back")
    # beyond the poles
    bad = math.nextafter(90.0, 91.0) if lat >= 0 else math.nextafter(-90.0, -91.0)
    for b in (bad, 90.5, -100.0, math.inf):
        for fn in (pm.radec2azel, pm.azel2radec):
            must_raise(ValueError, fn, 10.0, 20.0, b, lon, t, True)
        for fn in (va.radec2azel, va.azel2radec):
            must_raise(ValueError, fn, 10.0, 20.0, b, lon, t)
        if np is not None:
            must_raise(ValueError, va.azel2radec, 10.0, 20.0, np.array([0.0, b]), lon, t)
            must_raise(ValueError, va.radec2azel, 10.0, 20.0, np.array([b, 0.0]), lon, t)
    rec.tag("zenith" if abs(el) > 89.999 else "sky", c["kind"], "dut" if d else "no dut")


if core.CONFIG == "f":

    @sub("C36", g.case(t=tabled, lat=g.lat(), lon=g.lon(wide=False), az=g.az(), el=g.el(), kind=st.sampled_from(TIMEKIND), arr=st.booleans()), n=200, cfgs="f")
    def astropy_sky(c, rec):
        t, lat, lon, az, el = g.dt(c["t"]), c["lat"], c["lon"], c["az"], c["el"]
        arg = c["t"] if c["kind"] == "str" else t
        T, d, xp, yp = table(t)
        args = [az, el, lat, lon]
        r = lift("a0" if c["arr"] else "s", lambda *x: pm.azel2radec(*x, arg), args)
        what = f"azel2radec{tuple(args)} {arg!r} with astropy -> {r}"
        in_range(r[0], 0, 360, what)
        in_range(r[1], -90, 90, what)
        jd1, jd2 = T.utc.jd1, T.utc.jd2
        R = math.radians
        ra, dec = erfa.atoc13("A", R(az), R(90.0) - R(el), jd1, jd2, d, R(lon), R(lat), 0.0, R(xp / 3600), R(yp / 3600), 0.0, 0.0, 0.0, 0.5)
        want = direc(math.degrees(ra), math.degrees(dec))
        bounded(dist(direc(*r), want), 0.01 * ARC, what + f", ERFA ({math.degrees(ra)},{math.degrees(dec)})", "ERFA")
        b = lift("a0" if c["arr"] else "s", lambda *x: pm.radec2azel(*x, arg), [r[0], r[1], lat, lon])
        in_range(b[0], 0, 360, f"radec2azel -> {b}")
        bounded(dist(direc(*b), direc(az, el)), 1e-9, what + f" and back {b}", "astropy round trip")
        # the non-astropy answer is of date: the same sky up to precession, nutation and aberration
        v = call(pm.azel2radec, az, el, lat, lon, arg, True, delta_ut1=d)
        m = ref.tmatvec(earth.npb(t), direc(*v))
        bounded(dist(m, direc(*r)), 25 * ARC, what + f": non-astropy {v}, at J2000 {[float(x) for x in m]}", "same sky")
