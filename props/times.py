"""C29, C30, C31: Julian date, leap seconds, sidereal time, time conversion"""
import datetime as dt
import math
from fractions import Fraction

from hypothesis import strategies as st
from mpmath import mp

from pymap3d import earth_orientation as eo
from pymap3d import sidereal as sr
from pymap3d.timeconv import str2dt

from harness import core, earth
from harness import gens as g
from harness.core import bounded, call, fl, in_range, require, sub

np = core.np
PI, TAU = math.pi, math.tau
EPS = 2.220446049250313e-16
JDU = 4.7e-10  # one unit in the last place of a modern Julian date [days]

zone = st.one_of(
    st.none(), st.none(), st.just(0), st.integers(-14 * 60, 14 * 60), st.sampled_from([60, -300, 330, 345, 840, -720]),
    st.sampled_from(["New York", "London", "Lord Howe", "odd"])
)


class Zone(dt.tzinfo):
    """a zone whose clocks are set forward and back (datetime's own rules for repeated and skipped hours)"""

    def __init__(self, name):
        # standard offset, gain in summer, start and end (month, day, UTC hour) of summer
        h = dt.timedelta(hours=1)
        self.name = name
        self.std, self.gain, self.on, self.off = {
            "New York": (-5 * h, h, (3, 10, 7), (11, 3, 6)), "London": (0 * h, h, (3, 29, 1), (10, 25, 1)),
            "Lord Howe": (10.5 * h, 0.5 * h, (10, 4, 15), (4, 4, 15)), "odd": (dt.timedelta(hours=-3, minutes=-30, seconds=-52), 2 * h, (1, 1, 0), (7, 1, 0))}[name]

    def summer(self, u):
        on, off = (dt.datetime(u.year, *x) for x in (self.on, self.off))
        return on <= u < off if on < off else not off <= u < on

    def fromutc(self, t):
        u = t.replace(tzinfo=None)
        w = u + self.std + (self.gain if self.summer(u) else 0 * self.gain)
        r = w.replace(tzinfo=self, fold=0)
        if r.utcoffset() != w - u:
            r = r.replace(fold=1)
        return r

    def utcoffset(self, t):
        w = t.replace(tzinfo=None, fold=0)
        # the offsets under which this wall time exists
        ok = [o for o in (self.std + self.gain, self.std) if self.summer(w - o) == (o != self.std)]
        if len(ok) == 2:
            return ok[t.fold]
        return ok[0] if ok else self.std if t.fold == 0 else self.std + self.gain

    def dst(self, t):
        return self.utcoffset(t) - self.std

    def tzname(self, t):
        return self.name

    def __repr__(self):
        return f"Zone({self.name!r})"

    def __deepcopy__(self, memo):
        return self


def mk(iso, z):
    """instant of a case; z: offset in minutes of an equal instant in another zone"""
    t = dt.datetime.fromisoformat(iso)
    if z is None:
        return t
    u = t.replace(tzinfo=dt.timezone.utc)
    if isinstance(z, str):
        if not dt.datetime(1600, 1, 3) < t < dt.datetime(2999, 12, 29):
            return u
        r = u.astimezone(Zone(z))
        assert r - r.utcoffset() == r.replace(tzinfo=r.tzinfo) - r.utcoffset() and (r.replace(tzinfo=None) - r.utcoffset()) == t, (iso, z, r)
        return r
    return u.astimezone(dt.timezone(dt.timedelta(minutes=z)))


FIXT = ["1972-01-01T00:00:00", "2000-01-01T12:00:00", "2000-02-29T23:59:59.999999", "1900-02-28T23:59:59", "2100-03-01T00:00:00",
        "1600-01-01T00:00:00", "2999-12-31T23:59:59.999999", "1858-11-17T00:00:00", "2024-02-29T00:00:00", "2023-12-31T12:00:00"]


@sub("C29", g.case(t=st.one_of(g.iso((1600, 1, 1), (2999, 12, 31)), g.iso()), z=zone), n=900,
     fixed=[dict(t=t, z=z) for t in FIXT for z in (None, 0, 330, -720, "odd")])
def julian(c, rec):
    t = mk(c["t"], c["z"])
    want = earth.jd(t)
    seen = []
    for name, fn in (("sidereal.juliandate", sr.juliandate), ("earth_orientation.juliandate", eo.juliandate)):
        r = fl(call(fn, t), name)
        # the value's own resolution, and the day fraction's rounding
        bounded(abs(float(Fraction(r) - want)), 1.1 * JDU, f"{name}({t!r}) -> {r!r}, want {float(want)!r}", name)
        seen.append(r)
    n = dt.datetime.fromisoformat(c["t"])
    require(call(sr.juliandate, n) == seen[0], f"juliandate({t!r}) differs from the naive UTC instant {n!r}")
    # list and tuple
    other = dt.datetime(2011, 2, 3, 4, 5, 6)
    for seq in ([t, other], (other, t, t), [t], []):
        r = call(sr.juliandate, seq)
        require(isinstance(r, list) and len(r) == len(seq), f"juliandate({seq!r}) -> {r!r}")
        for x, y in zip(r, seq):
            require(x == call(sr.juliandate, y), f"juliandate({seq!r}) -> {r!r}: element {y!r}")
    rec.tag("aware" if c["z"] is not None else "naive", f"{n.year // 100}xx", "leap day" if (n.month, n.day) == (2, 29) else "other day")


@sub("C29", g.case(t=g.iso((1600, 1, 1), (2999, 12, 30)), d=st.one_of(st.integers(1, 10**6), st.integers(10**6, 10**12))), n=400)
def advances(c, rec):
    """the day count advances by exactly the elapsed days"""
    t = g.dt(c["t"])
    d = dt.timedelta(microseconds=c["d"])
    try:
        t2 = t + d
    except OverflowError:
        rec.trivial = True
        return
    if t2.year > 2999:
        rec.trivial = True
        return
    a, b = call(sr.juliandate, t), call(sr.juliandate, t2)
    require(b >= a, f"juliandate({t2!r}) = {b!r} is before juliandate({t!r}) = {a!r}")
    bounded(abs(b - a - d / dt.timedelta(days=1)), 2.2 * JDU, f"juliandate from {t!r} to {t2!r}: {a!r} to {b!r}", "advance")


LEAPCASES = [dict(t=s, us=us, z=z) for s in g.LEAPS for us in (0, -1, 1, -10**6, 10**6) for z in (None, 600, "odd")]


@sub("C29", g.case(t=g.iso((1972, 1, 1), (2035, 1, 1)), us=st.sampled_from([0, 0, 1, -1, 10**6]), z=zone), n=500, fixed=LEAPCASES)
def leap_seconds(c, rec):
    t0 = dt.datetime.fromisoformat(c["t"]) + dt.timedelta(microseconds=c["us"])
    if t0 < dt.datetime(1972, 1, 1):
        t0 = dt.datetime(1972, 1, 1)
    t = mk(t0.isoformat(), c["z"])
    want = earth.leaps(t)
    got = call(eo.leap_seconds, t)
    require(got == want, f"leap_seconds({t!r}) -> {got!r}, want {want}")
    tt = call(eo.utc_to_tt, t)
    d = tt.replace(tzinfo=None) - t0 if tt.tzinfo is None else tt - t0.replace(tzinfo=dt.timezone.utc)
    require(abs(d / dt.timedelta(seconds=1) - (want + 32.184)) < 1.5e-6, f"utc_to_tt({t!r}) -> {tt!r}, want {want}+32.184 s later")
    rec.tag("boundary" if c["us"] in (-1, 0) and c["t"] in g.LEAPS else "between", f"TAI-UTC={want}")


if core.CONFIG == "f":
    import erfa
    from astropy.time import Time

    @sub("C29", g.case(t=g.iso((1973, 1, 1), (2026, 1, 1))), n=200, cfgs="f")
    def standard(c, rec):
        """the oracles themselves, against ERFA, and juliandate against astropy"""
        t = g.dt(c["t"])
        fr = (t - t.replace(hour=0, minute=0, second=0, microsecond=0)) / dt.timedelta(days=1)
        require(int(erfa.dat(t.year, t.month, t.day, fr)) == earth.leaps(t), f"oracle: leap seconds at {t}")
        a, b = erfa.cal2jd(t.year, t.month, t.day)
        require(abs(float(earth.jd(t) - Fraction(float(a)) - Fraction(float(b))) - fr) < 1e-12, f"oracle: Julian date of {t}")
        T = float(earth.tt_centuries(t))
        p, e = erfa.nut80(2451545.0, T * 36525)
        q, f = earth.nutation(T)
        require(abs(p - float(q)) < 0.035 * 4.85e-6 and abs(e - float(f)) < 0.025 * 4.85e-6, f"oracle: nutation at {t}")


# --- C30

dut = st.one_of(st.just(0.0), st.floats(-0.9, 0.9), st.sampled_from([0.9, -0.9, 0.5, 1e-6]))
lonr = st.one_of(st.floats(-PI, PI), st.sampled_from([0.0, PI, -PI, PI / 2, 1.0, TAU, -TAU]), st.floats(-20, 20))
ARC = PI / 648000


def cdist(a, b):
    return abs(math.remainder(a - b, TAU))


@sub("C30", g.case(t=g.iso((1972, 1, 1), (2050, 1, 1)), z=zone, lon=lonr, dut=dut, kind=st.sampled_from(["datetime", "str", "list", "strs"])), n=500)
def sidereal(c, rec):
    t, lon, d = mk(c["t"], c["z"]), c["lon"], c["dut"]
    want = float((earth.gast(t, d) + lon) % TAU)

    def S(t, lon, **kw):
        r = fl(call(sr.datetime2sidereal, t, lon, True, **kw))
        in_range(r, 0.0, TAU, f"datetime2sidereal({t!r},{lon!r},{kw})")  # may round to a full turn
        return r

    arg = t
    if c["kind"] == "str":
        arg = t.isoformat()
    r = S(arg, lon, delta_ut1=d)
    what = f"datetime2sidereal({arg!r},{lon!r},force_non_astropy,delta_ut1={d!r}) -> {r!r}, model {want!r}"
    # apparent sidereal time: truncated nutation series in the code
    bounded(cdist(r, want), 0.36 * ARC, what, "apparent")
    short = float((earth.gast(t, d, earth.short_nutation) + lon) % TAU)
    if not cdist(r, short) <= 2 * TAU * 1.01 * JDU + 1e-14 + 4 * EPS * abs(lon):
        bounded(cdist(r, want), 0.2 * cdist(short, want), what + f", published model {short!r}", "published")
    if core.CONFIG != "f":
        r2 = fl(call(sr.datetime2sidereal, arg, lon, delta_ut1=d))
        bounded(cdist(r, r2), 0.0, f"datetime2sidereal without force_non_astropy -> {r2!r} instead of {r!r}")
    # exact relations
    r0 = S(t, 0.0, delta_ut1=d)
    bounded(cdist(r, r0 + lon), 4 * EPS * (8 + abs(lon)), what + f": Greenwich {r0!r} plus longitude", "longitude")
    rz = S(t, lon, delta_ut1=0.0)
    rd = S(t, lon)
    bounded(cdist(rz, rd), 0.0, "delta_ut1 does not default to 0")
    rate = float(earth.gmst(1) - earth.gmst(0)) / 86400
    bounded(cdist(r - rz, rate * d), 2 * TAU * 1.01 * JDU + 1.1e-6 * rate, what + f": shift from delta_ut1=0 is {math.remainder(r - rz, TAU)!r}, want {rate * d!r}", "delta_ut1")
    # the model's own smooth part, to Julian-date resolution: differs from GMST by the equation of the equinoxes only
    mean = float((earth.gmst(earth.ut1_days(t, d)) + lon) % TAU)
    bounded(cdist(r, mean), 20 * ARC, what + f": mean sidereal time {mean!r}")
    seq = [t, g.dt("2004-04-06T07:51:28.386009")] if c["kind"] != "strs" else [t.isoformat(), "2004-04-06T07:51:28.386009"]
    for kw in (dict(force_non_astropy=True, delta_ut1=d),):
        q = call(sr.datetime2sidereal, seq, lon, **kw)
        require(isinstance(q, list) and len(q) == 2, f"datetime2sidereal({seq}) -> {q!r}")
        bounded(abs(fl(q[0]) - r), 0.0, f"datetime2sidereal list element 0 {q[0]!r}, alone {r!r}")
        bounded(abs(fl(q[1]) - S(seq[1], lon, delta_ut1=d)), 0.0, "datetime2sidereal list element 1")
    if np is not None:
        lons = np.array([[lon, 0.0, -lon]])
        q = np.asarray(call(sr.datetime2sidereal, t, lons, True, delta_ut1=d))
        require(q.shape == lons.shape, f"datetime2sidereal of longitudes {lons}: shape {q.shape}")
        bounded(cdist(float(q[0, 0]), r), 0.0, f"datetime2sidereal array longitude {q}, scalar {r!r}")
        bounded(cdist(float(q[0, 1]), r0), 0.0, f"datetime2sidereal array longitude {q}, scalar {r0!r}")
    rec.tag(c["kind"], "aware" if c["z"] is not None else "naive", "dut" if d else "no dut")


@sub("C30", g.case(jd=st.one_of(st.floats(2441000, 2470000), st.floats(2300000, 2700000), st.sampled_from([2451545.0, 2451544.5, 2453101.5, 2451545.0 + 36525]))), n=400)
def greenwich(c, rec):
    jd = c["jd"]
    r = fl(call(sr.greenwichsrt, jd))
    in_range(r, 0, TAU, f"greenwichsrt({jd!r})")
    secs = earth.gmst(mp.mpf(jd) - 2451545)
    tol = 3 * EPS * (float(abs(secs)) + 10)
    bounded(cdist(r, float(secs % TAU)), tol, f"greenwichsrt({jd!r}) -> {r!r}, want {float(secs % TAU)!r}", "greenwichsrt")
    q = call(sr.greenwichsrt, [jd, 2451545.0])
    require(isinstance(q, list) and q == [r, call(sr.greenwichsrt, 2451545.0)], f"greenwichsrt list -> {q}")
    require(call(sr.greenwichsrt, (jd,)) == [r], "greenwichsrt tuple")
    if np is not None:
        v = np.array([[jd], [2451545.0]])
        q = np.asarray(call(sr.greenwichsrt, v))
        require(q.shape == v.shape, f"greenwichsrt array -> {q}")
        bounded(cdist(float(q[0, 0]), r), tol, f"greenwichsrt array {q}, alone {r!r}")
    e = fl(call(eo.earth_rotation_angle, jd))
    want = float(TAU * ((mp.mpf("0.7790572732640") + mp.mpf("1.00273781191135448") * (mp.mpf(jd) - 2451545)) % 1))
    bounded(cdist(e, want), 4 * EPS * TAU * abs(jd - 2451545) + 20 * EPS, f"earth_rotation_angle({jd!r}) -> {e!r}, want {want!r}", "era")


@sub("C30", g.case(t=g.iso((1973, 2, 1), (2027, 1, 1)), z=zone, lon=lonr, kind=st.sampled_from(["datetime", "str", "list"])), n=300, cfgs="f")
def astropy_sidereal(c, rec):
    t, lon = mk(c["t"], c["z"]), c["lon"]
    T = Time(mk(c["t"], None))
    gast = float(erfa.gst06a(T.ut1.jd1, T.ut1.jd2, T.tt.jd1, T.tt.jd2))
    # text with an offset is not understood by astropy: only naive text is part of the interface
    arg = c["t"] if c["kind"] == "str" else t
    if c["kind"] == "list":
        q = call(sr.datetime2sidereal, [arg, g.dt("2004-04-06T07:51:28")], lon)
        require(isinstance(q, list) and len(q) == 2, f"datetime2sidereal list -> {q!r}")
        r = q[0]
    else:
        r = call(sr.datetime2sidereal, arg, lon)
    r = fl(r)
    in_range(r, 0, TAU, f"datetime2sidereal({arg!r},{lon!r}) with astropy")
    what = f"datetime2sidereal({arg!r},{lon!r}) with astropy -> {r!r}, ERFA {(gast + lon) % TAU!r}"
    bounded(cdist(r, gast + lon), 2e-10 + 8 * EPS * abs(lon), what, "astropy")
    v = fl(call(sr.datetime2sidereal, arg if c["kind"] != "list" else t, lon, True, delta_ut1=float(T.delta_ut1_utc)))
    bounded(cdist(r, v), 0.45 * ARC, what + f": non-astropy with the same UT1 {v!r}", "both paths")


# --- C31

SEPS = ["T", " "]


def same_instant(r, want):
    """equal instants (datetime's == denies that for repeated hours) of the same kind"""
    if isinstance(want, list):
        return isinstance(r, list) and len(r) == len(want) and all(map(same_instant, r, want))
    return isinstance(r, dt.datetime) and (r.tzinfo is None) == (want.tzinfo is None) and r - want == dt.timedelta(0) and r.utcoffset() == want.utcoffset()


@sub("C31", g.case(t=st.one_of(g.iso((1600, 1, 1), (2999, 12, 31)), g.iso()), z=zone, sep=st.sampled_from(SEPS), spec=st.sampled_from(["auto", "microseconds", "milliseconds", "seconds", "minutes"])), n=600)
def texts(c, rec):
    t = mk(c["t"], c["z"])
    r = call(str2dt, t)
    require(r == t and r.tzinfo == t.tzinfo and r is not None, f"str2dt({t!r}) -> {r!r}")
    kw = {} if c["spec"] == "auto" else dict(timespec=c["spec"])
    s = t.isoformat(c["sep"], **kw)
    want = t if t.tzinfo is None else t.replace(tzinfo=dt.timezone(t.utcoffset()), fold=0)
    t0, t = t, want
    if c["spec"] == "milliseconds":
        want = t.replace(microsecond=t.microsecond // 1000 * 1000)
    elif c["spec"] == "seconds":
        want = t.replace(microsecond=0)
    elif c["spec"] == "minutes":
        want = t.replace(microsecond=0, second=0)
    r = call(str2dt, s)
    require(same_instant(r, want), f"str2dt({s!r}) -> {r!r}, want {want!r}")
    u = mk(c["t"], 0)
    forms = [(u.strftime("%Y%m%dT%H%M%S.%f").rjust(22, "0"), dt.datetime.fromisoformat(c["t"])), (c["t"] + "Z", u), (c["t"] + "+00:00", u), (c["t"].replace(".", ","), dt.datetime.fromisoformat(c["t"])),
             (c["t"] + "-02:30", u + dt.timedelta(hours=2.5)), (c["t"][:19] + ".5", dt.datetime.fromisoformat(c["t"][:19] + ".500000"))]
    for x, w in forms:
        r = call(str2dt, x)
        require(isinstance(r, dt.datetime) and (r.tzinfo is None) == (w.tzinfo is None) and r - w == dt.timedelta(0), f"str2dt({x!r}) -> {r!r}, want {w!r}")
    other = dt.datetime(1999, 12, 31, 23, 59, 59, 999999)
    t = t0
    mixed = [s, t, "1999-12-31T23:59:59.999999", other]
    for seq in (mixed, tuple(mixed), [s], [mixed, [t]]):
        r = call(str2dt, seq)
        exp = [want, t, other, other]
        exp = {4: exp, 1: [want], 2: [exp, [t]]}[len(seq)]
        require(same_instant(r, exp), f"str2dt({seq!r}) -> {r!r}, want {exp!r}")
    if c["z"] is None:
        d = t.date().isoformat()
        r = call(str2dt, d)
        require(r == dt.datetime(t.year, t.month, t.day), f"str2dt({d!r}) -> {r!r}")
    rec.tag(c["spec"], "aware" if c["z"] is not None else "naive")


UNITS = ["Y", "M", "W", "D", "h", "m", "s", "ms", "us", "ns"]
if np is not None:

    @sub("C31", g.case(t=st.one_of(g.iso((1700, 1, 1), (2250, 1, 1)), g.iso()), unit=st.sampled_from(UNITS), shape=st.sampled_from(["scalar", "0d", "1", "n", "nd", "list", "objects", "nslist"]), ns=st.integers(0, 999)), n=700, cfgs="fn")
    def datetime64s(c, rec):
        t, unit = g.dt(c["t"]), c["unit"]
        v = np.datetime64(t, "us").astype(f"datetime64[{unit}]")
        if unit == "ns":
            v = v + np.timedelta64(c["ns"], "ns")
        # the instant the value denotes, by integer arithmetic
        k = int(v.astype("int64"))
        e = dt.datetime(1970, 1, 1)
        if unit == "Y":
            want = dt.datetime(1970 + k, 1, 1)
        elif unit == "M":
            want = dt.datetime(1970 + k // 12, 1 + k % 12, 1)
        else:
            num, den = {"W": (604800 * 10**6, 1), "D": (86400 * 10**6, 1), "h": (3600 * 10**6, 1), "m": (60 * 10**6, 1), "s": (10**6, 1),
                        "ms": (1000, 1), "us": (1, 1), "ns": (1, 1000)}[unit]
            want = e + dt.timedelta(microseconds=k * num // den)
        o = np.datetime64("2001-02-03T04:05:06.789", "ms").astype(v.dtype)
        owant = None
        sh = c["shape"]

        def ok(x, w):
            # finer than a microsecond: either neighbouring microsecond
            return isinstance(x, dt.datetime) and abs(x - w) <= dt.timedelta(microseconds=1 if unit == "ns" and c["ns"] else 0)

        owant = call(str2dt, o)
        require(isinstance(owant, dt.datetime), f"str2dt({o!r}) -> {owant!r}")
        if sh == "scalar":
            r = call(str2dt, v)
            require(ok(r, want), f"str2dt({v!r}) -> {r!r}, want {want!r}")
        elif sh in ("list", "nslist"):
            r = call(str2dt, [v, o] if sh == "list" else (v, "2001-02-03"))
            require(isinstance(r, list) and ok(r[0], want), f"str2dt([{v!r},...]) -> {r!r}, want {want!r}")
            require(r[1] == (owant if sh == "list" else dt.datetime(2001, 2, 3)), f"str2dt list -> {r!r}")
        elif sh == "objects":
            a = np.array([t, dt.datetime(2001, 2, 3)], dtype=object)
            r = call(str2dt, a)
            require(list(r) == list(a), f"str2dt({a!r}) -> {r!r}")
        else:
            a = {"0d": np.array(v), "1": np.array([v]), "n": np.array([o, v, o]), "nd": np.array([[o, v], [v, o]])}[sh]
            keep = a.copy()
            r = call(str2dt, a)
            require((a == keep).all(), f"str2dt modified {keep!r}")
            q = np.asarray(r, dtype=object)
            require(q.shape == a.shape, f"str2dt({a!r}) -> {r!r}")
            for x, y in zip(q.ravel(), a.ravel()):
                require(ok(x, want) if y == v else x == owant, f"str2dt({a!r}) -> {r!r}: element {x!r} for {y!r}, want {want!r}")
        rec.tag(unit, sh)
