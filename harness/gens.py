"""Structured generators.  Everything random comes from hypothesis; cases are JSON-able."""
import datetime as _dt
import math

from hypothesis import strategies as st

from . import core

FULL = math.pi


def _clip(x, lo, hi):
    return min(hi, max(lo, x))


def near_special(specials, lo, hi, emin=-15, emax=0):
    return st.builds(
        lambda s, e, m: _clip(s + m * 10.0**e, lo, hi),
        st.sampled_from(specials),
        st.integers(emin, emax),
        st.sampled_from([-5.0, -2.0, -1.0, 1.0, 3.0]),
    )


def angle(lo, hi, specials):
    specials = [s for s in specials if lo <= s <= hi]
    return st.one_of(
        st.floats(lo, hi, allow_subnormal=False),
        st.sampled_from([float(s) for s in specials]),
        near_special(specials, lo, hi),
        st.integers(math.ceil(lo), math.floor(hi)).map(float),
        st.floats(lo, hi, allow_subnormal=False),
    )


LATS = [0, 90, -90, 45, -45, 30, -60, 89, -89, 80, 10]
LONS = [0, 90, -90, 180, -180, 45, -135, 179, -179, 270, 360]


def lat(lim=90.0):
    return angle(-lim, lim, [x for x in LATS if abs(x) <= lim] + [lim, -lim])


def lon(wide=True):
    base = angle(-180.0, 180.0, LONS)
    if not wide:
        return base
    return st.one_of(
        base, base, base, angle(-360.0, 720.0, LONS + [540, 720, -360, 450]), st.floats(-1080, 1080, allow_subnormal=False)
    )


def az():
    return angle(0.0, 360.0, [0, 90, 180, 270, 360, 45, 135, 225, 315])


def az_wide():
    return st.one_of(az(), az(), st.floats(-720, 720, allow_subnormal=False))


def el():
    return angle(-90.0, 90.0, [0, 90, -90, 45, -45, 89])


def logmag(lo, hi):
    """log-uniform positive"""
    return st.builds(
        lambda e, m: m * 10.0**e, st.integers(lo, hi - 1), st.floats(1.0, 10.0, exclude_max=True, allow_subnormal=False)
    )


def signed(s):
    return st.builds(lambda x, g: x * g, s, st.sampled_from([1.0, -1.0]))


def length(lo=-3, hi=8):
    """signed length in metres, including zero and the trim threshold's neighbourhood"""
    return st.one_of(
        st.just(0.0),
        signed(logmag(lo, hi)),
        signed(logmag(2, 7)),
        st.floats(-1e6, 1e6, allow_subnormal=False),
        st.sampled_from([1e-3, -1e-3, 9.9e-4, 1.01e-3, 1.0, -1.0, 1000.0]),
    )


def rel_alt(lo=-0.08, hi=60.0):
    """altitude as a fraction of the semi-major axis"""
    xs = [
        st.just(0.0),
        st.floats(lo, 0.0, allow_subnormal=False) if lo < 0 else st.just(0.0),
        st.floats(0.0, min(hi, 0.2)),
        signed(logmag(-9, -2)).map(lambda x: _clip(x, lo, hi)),
    ]
    if hi > 1:
        xs.append(logmag(-1, 2).map(lambda x: min(x, hi)))
    return st.one_of(xs)


def names():
    import pymap3d

    return sorted(pymap3d.Ellipsoid.models)


def ellspec(fmax=0.35, custom=True, named=True, amin=0, amax=9):
    """name of a model, or [a, b]; 'f' bounded by fmax"""
    import pymap3d

    ns = []
    for n in names():
        e = pymap3d.Ellipsoid.from_name(n)
        if e.semimajor_axis > 0 and 1 - e.semiminor_axis / e.semimajor_axis <= fmax:
            ns.append(n)
    fs = [
        f
        for f in [0.0, 1e-10, 1e-6, 1 / 1000, 1 / 298.257223563, 1 / 150, 1 / 50, 0.09, 0.2, 0.3]
        if f <= fmax
    ]
    cust = st.builds(
        lambda e, m, f: [m * 10.0**e, m * 10.0**e * (1 - f)],
        st.integers(amin, amax - 1),
        st.sampled_from([1.0, 6.378137, 2.5, 9.0]),
        st.one_of(st.sampled_from(fs), st.floats(0, fmax, allow_subnormal=False)),
    )
    opts = []
    if named:
        opts += [st.just("wgs84"), st.sampled_from(ns)]
    if custom:
        opts += [cust]
    return st.one_of(opts)


def mk_ell(spec):
    import pymap3d

    if isinstance(spec, str):
        return core.call(pymap3d.Ellipsoid.from_name, spec)
    return core.call(pymap3d.Ellipsoid, spec[0], spec[1])


def ab(spec):
    e = mk_ell(spec)
    return float(e.semimajor_axis), float(e.semiminor_axis)


def form():
    return st.sampled_from(core.forms())


def deg():
    return st.booleans()


def case(**kw):
    return st.fixed_dictionaries(kw)


# --- time

LEAPS = [
    "1972-07-01", "1973-01-01", "1974-01-01", "1975-01-01", "1976-01-01", "1977-01-01",
    "1978-01-01", "1979-01-01", "1980-01-01", "1981-07-01", "1982-07-01", "1983-07-01",
    "1985-07-01", "1988-01-01", "1990-01-01", "1991-01-01", "1992-07-01", "1993-07-01",
    "1994-07-01", "1996-01-01", "1997-07-01", "1999-01-01", "2006-01-01", "2009-01-01",
    "2012-07-01", "2015-07-01", "2017-01-01",
]


def iso(lo=(1973, 1, 1), hi=(2030, 1, 1), micro=True):
    """ISO string of a naive UTC instant, with month ends, leap days and leap-second boundaries"""
    lo_d, hi_d = _dt.datetime(*lo), _dt.datetime(*hi)
    any_t = st.datetimes(lo_d, hi_d)
    leap = st.builds(
        lambda s, dsec: _dt.datetime.fromisoformat(s) + _dt.timedelta(seconds=dsec),
        st.sampled_from(LEAPS),
        st.sampled_from([0, -1, 1, -0.5, 3600, -86400, 86400, 43200]),
    ).filter(lambda t: lo_d <= t <= hi_d)
    special = st.builds(
        lambda y, md, hms: _dt.datetime(y, *md, *hms),
        st.integers(lo[0], hi[0] - 1),
        st.sampled_from([(1, 1), (1, 31), (2, 28), (3, 1), (12, 31), (7, 1), (6, 30), (2, 1)]),
        st.sampled_from([(0, 0, 0), (12, 0, 0), (23, 59, 59), (23, 59, 59, 999999), (6, 30, 15, 5)]),
    ).filter(lambda t: lo_d <= t <= hi_d)
    clocks = st.builds(
        lambda y, md, sec: _dt.datetime(y, *md) + _dt.timedelta(seconds=sec),
        st.integers(lo[0], hi[0] - 1),
        st.sampled_from([(3, 10, 7), (11, 3, 6), (3, 29, 1), (10, 25, 1), (4, 4, 15), (10, 4, 15), (7, 1), (1, 1)]),
        st.sampled_from([0, 0.25, -0.25, 0.5, -0.5, 900, -900, 1800, -1800, 3599.75, -3599.75, 5400]),
    ).filter(lambda t: lo_d <= t <= hi_d)
    s = st.one_of(any_t, special, leap, any_t, special, leap, clocks)
    if not micro:
        s = s.map(lambda t: t.replace(microsecond=0))
    return s.map(lambda t: t.isoformat())


def dt(s):
    return _dt.datetime.fromisoformat(s)
