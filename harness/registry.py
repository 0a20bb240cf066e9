"""The public functions, with what each argument and result means.

Argument and result kinds
  lat lon az el      angles (deg switch); psi: isometric latitude; ang: unsigned angle; rot: body angle
  tilt               angle from the nadir
  alt U D N E S W    lengths (height; local components); rng: length >= 0; dr cr: downrange, crossrange
  X Y Z              Earth-fixed components; pX pY pZ: of a position (kept away from the centre)
  n1 n2 n3           components of a unit vector
  rad                a radius; area
Inputs are generated in degrees and in units of the semi-major axis.
"""
import functools
import math

from hypothesis import strategies as st

import pymap3d
from pymap3d import haversine, latitude, los, lox, nvector, rcurve, rsphere, spherical, utils, vincenty, vallado
from pymap3d import karney
from . import gens as g

ANG = {"lat", "lon", "az", "el", "psi", "ang", "rot", "tilt"}
LEN = {"alt", "U", "D", "N", "E", "S", "W", "rng", "dr", "cr", "X", "Y", "Z", "pX", "pY", "pZ", "rad"}
WRAP = {"lon", "az", "rot"}
DEGREES = {"azd", "eld", "latd", "lond"}  # always in degrees
# kinds that a row may take with the opposite sign
SIGNED = {"lat", "lon", "az", "el", "psi", "ang", "rot", "latd", "lond", "azd", "eld", "N", "E", "U", "D", "S", "W", "dr", "cr", "X", "Y", "Z", "pX", "pY", "pZ", "n1", "n2", "n3"}
SIGN = {"lat", "N", "S", "Z", "pZ", "psi", "n3"}


class F:
    def __init__(self, name, fn, ins, outs, ell=False, deg=True, arrays=True, near=None, extra=None):
        self.name, self.fn, self.ins, self.outs = name, fn, ins.split(), outs.split()
        self.ell, self.deg, self.arrays, self.near = ell, deg, arrays, near
        self.extra = extra or {}

    def kw(self, ell=None, deg=True, **more):
        k = dict(self.extra)
        if self.ell and ell is not None:
            k["ell"] = ell
        if self.deg:
            k["deg"] = deg
        k.update(more)
        return k


ALL = {}


def add(fn, ins, outs, mod=None, **kw):
    name = (mod + "." if mod else "") + fn.__name__ + kw.pop("suffix", "")
    ALL[name] = F(name, fn, ins, outs, **kw)


P = pymap3d
OBS = "lat lon alt"
add(P.geodetic2ecef, OBS, "X Y Z", ell=True)
add(P.ecef2geodetic, "pX pY pZ", OBS, ell=True)
LOCAL = {"enu": "E N U", "ned": "N E D", "nwu": "N W U", "sez": "S E U"}
for fr, comp in LOCAL.items():
    G = lambda n: getattr(P, n)  # noqa: E731
    add(G(f"geodetic2{fr}"), OBS + " " + OBS, comp, ell=True)
    add(G(f"{fr}2geodetic"), comp + " " + OBS, OBS, ell=True)
    add(G(f"ecef2{fr}"), "pX pY pZ " + OBS, comp, ell=True)
    add(G(f"{fr}2ecef"), comp + " " + OBS, "X Y Z", ell=True)
    add(G(f"aer2{fr}"), "az el rng", comp)
    add(G(f"{fr}2aer"), comp, "az el rng")
    if hasattr(P, f"ecef2{fr}v"):
        add(G(f"ecef2{fr}v"), "X Y Z lat lon", comp)
    if hasattr(P, f"{fr}2ecefv"):
        add(G(f"{fr}2ecefv"), comp + " lat lon", "X Y Z")
add(P.geodetic2aer, OBS + " " + OBS, "az el rng", ell=True)
add(P.aer2geodetic, "az el rng " + OBS, OBS, ell=True)
add(P.ecef2aer, "pX pY pZ " + OBS, "az el rng", ell=True)
add(P.aer2ecef, "az el rng " + OBS, "X Y Z", ell=True)
add(P.enu2uvw, "E N U lat lon", "X Y Z")
add(P.uvw2enu, "X Y Z lat lon", "E N U")
add(P.geodetic2dca, OBS + " " + OBS + " az", "dr cr U", ell=True)
add(P.dca2geodetic, "dr cr U " + OBS + " az", OBS, ell=True)
add(P.ecef2dca, "pX pY pZ " + OBS + " az", "dr cr U", ell=True)
add(P.dca2ecef, "dr cr U " + OBS + " az", "X Y Z", ell=True)
add(P.enu2dca, "E N U az", "dr cr U")
add(P.dca2enu, "dr cr U az", "E N U")
add(P.ned2dca, "N E D az", "dr cr U")
add(P.dca2ned, "dr cr U az", "N E D")
add(P.aer2dca, "az el rng az", "dr cr U")
add(P.dca2aer, "dr cr U az", "az el rng")
add(P.geodetic2spherical, OBS, "lat lon rad", ell=True)
add(P.spherical2geodetic, "lat lon rad", OBS, ell=True)
add(los.lookAtSpheroid, "lat lon rng az tilt", "lat lon rng", mod="los", ell=True)
for n in ("conformal", "rectifying", "authalic", "parametric"):
    add(getattr(latitude, f"geodetic2{n}"), "lat", "lat", ell=True, mod="latitude")
    add(getattr(latitude, f"{n}2geodetic"), "lat", "lat", ell=True, mod="latitude")
add(latitude.geodetic2isometric, "lat", "psi", ell=True, mod="latitude")
add(latitude.isometric2geodetic, "psi", "lat", ell=True, mod="latitude")
add(latitude.geodetic2geocentric, "lat alt", "lat", ell=True, mod="latitude")
add(latitude.geocentric2geodetic, "lat alt", "lat", ell=True, mod="latitude")
add(latitude.geoc2geod, "lat rad", "lat", ell=True, mod="latitude")
for n in ("parallel", "meridian", "transverse", "geocentric_radius"):
    add(getattr(rcurve, n), "lat", "rad", ell=True, mod="rcurve")
for n in ("eqavol", "authalic", "rectifying"):
    add(getattr(rsphere, n), "", "rad", ell=True, deg=False, mod="rsphere", arrays=False)
for n, ms in (("biaxial", ("mean", "norm")), ("triaxial", ("mean", "norm"))):
    for m in ms:
        add(getattr(rsphere, n), "", "rad", ell=True, deg=False, mod="rsphere", arrays=False, suffix=":" + m, extra=dict(method=m))
for m in ("mean", "norm"):
    add(rsphere.curve, "lat", "rad", ell=True, mod="rsphere", suffix=":" + m, extra=dict(method=m))
add(rsphere.euler, "lat lon lat lon", "rad", ell=True, mod="rsphere")
add(lox.meridian_dist, "lat", "rng", ell=True, mod="lox")
add(lox.meridian_arc, "lat lat", "rng", ell=True, mod="lox")
add(lox.departure, "lon lon lat", "rng", ell=True, mod="lox")
add(lox.loxodrome_inverse, "lat lon lat lon", "rng az", ell=True, mod="lox")
add(lox.loxodrome_direct, "lat lon rng az", "lat lon", ell=True, mod="lox")
add(vincenty.vdist, "lat lon lat lon", "rng az", ell=True, mod="vincenty")
add(vincenty.vreckon, "lat lon rng az", "lat lon", ell=True, mod="vincenty")
add(karney.geodesic_inverse, "lat lon lat lon", "rng az az", ell=True, mod="karney", arrays=False)
add(karney.geodesic_direct, "lat lon az rng", "lat lon az", ell=True, mod="karney", arrays=False)
add(nvector.geodetic2nvector, "lat lon", "n1 n2 n3", mod="nvector")
add(nvector.nvector2geodetic, "n1 n2 n3", "lat lon", mod="nvector")
add(nvector.ecef2nvector, "pX pY pZ", "n1 n2 n3", ell=True, mod="nvector")
add(nvector.nvector2ecef, "n1 n2 n3 alt", "X Y Z", ell=True, mod="nvector")
add(nvector.nvector_distance, "n1 n2 n3 n1 n2 n3", "rad", deg=False, mod="nvector")
add(nvector.nvector_cross_track_distance, "n1 n2 n3 n1 n2 n3 n1 n2 n3", "cr", deg=False, mod="nvector")
add(haversine.anglesep, "lon lat lon lat", "ang", mod="haversine")
add(haversine.anglesep, "lon lat lon lat", "ang", mod="haversine", suffix=":force", extra=dict(force_non_astropy=True))
add(haversine.anglesep_meeus, "lon lat lon lat", "ang", mod="haversine")
add(utils.cart2pol, "X Y", "rot1 rad", mod="utils", deg=False)
add(utils.cart2sph, "X Y Z", "rot1 el1 rad", mod="utils", deg=False)
BODY = "rot rot rot"
for fr, comp in LOCAL.items():
    add(getattr(P, f"body2{fr}"), "B B B " + BODY, comp)
    add(getattr(P, f"{fr}2body"), comp + " " + BODY, "B B B")
for fr in ("ned", "enu", "nwu", "sez"):
    add(P.body2ecef, "B B B " + OBS + " " + BODY, "X Y Z", ell=True, suffix=":" + fr, extra=dict(frame=fr))
    add(P.ecef2body, "pX pY pZ " + OBS + " " + BODY, "B B B", ell=True, suffix=":" + fr, extra=dict(frame=fr))
    add(P.body2geodetic, "B B B " + OBS + " " + BODY, OBS, ell=True, suffix=":" + fr, extra=dict(frame=fr))
    add(P.geodetic2body, OBS + " " + OBS + " " + BODY, "B B B", ell=True, suffix=":" + fr, extra=dict(frame=fr))
    add(P.body2ecefv, "B B B lat lon " + BODY, "X Y Z", suffix=":" + fr, extra=dict(frame=fr))
    add(P.ecef2bodyv, "X Y Z lat lon " + BODY, "B B B", suffix=":" + fr, extra=dict(frame=fr))
for k in ("B",):
    LEN.add(k)


def adapt(name, fn, ins, outs, **kw):
    """a function with another calling convention, called with scalars and returning scalars"""
    fn.__name__ = name
    ALL[name] = F(name, fn, ins, outs, arrays=False, **kw)


def _line(lat1, lon1, lat2, lon2, **kw):
    la, lo = karney.geodesic_line(lat1, lon1, lat2, lon2, npts=4, **kw)
    return (*la, *lo)


def _area(*ll, **kw):
    return karney.geodesic_area(list(ll[0::2]), list(ll[1::2]), **kw)


def _track(lat1, lon1, lat2, lon2, **kw):
    la, lo = vincenty.track2(lat1, lon1, lat2, lon2, npts=4, **kw)
    return (*la, *lo)


def _nmean(*c):
    return nvector.nvector_mean(list(c[0::3]), list(c[1::3]), list(c[2::3]))


def _matrix(fn):
    def run(*args, **kw):
        m = fn(*args, **kw)
        return tuple(float(m[i][j]) for i in range(3) for j in range(3))

    return run


NV = "n1 n2 n3 "
LL = "lat lon "
adapt("karney.geodesic_line", _line, LL * 2, "lat " * 4 + "lon " * 4, ell=True)
adapt("karney.geodesic_area", _area, LL * 4, "area rng", ell=True)
adapt("vincenty.track2", _track, LL * 2, "lat " * 4 + "lon " * 4, ell=True)
adapt("nvector.nvector_mean", _nmean, NV * 3, NV, deg=False)
adapt("nvector.nvector_interpolate", lambda *v: nvector.nvector_interpolate(*v), NV * 2 + "frac", NV, deg=False)
adapt("nvector.nvector_intersection", lambda *v: nvector.nvector_intersection(*v), NV * 4, NV, deg=False)
adapt("utils.pol2cart", lambda *v: utils.pol2cart(*v), "rot1 rad", "X Y", deg=False)
adapt("utils.sph2cart", lambda *v: utils.sph2cart(*v), "rot1 el1 rad", "X Y Z", deg=False)
for _fr in LOCAL:
    adapt(f"{_fr}2ecef_matrix", _matrix(getattr(P, f"{_fr}2ecef_matrix")), "lat lon", "n1 " * 9)
    adapt(f"ecef2{_fr}_matrix", _matrix(getattr(P, f"ecef2{_fr}_matrix")), "lat lon", "n1 " * 9)
    adapt(f"{_fr}2body_matrix", _matrix(getattr(P, f"{_fr}2body_matrix")), BODY, "n1 " * 9)
    adapt(f"body2{_fr}_matrix", _matrix(getattr(P, f"body2{_fr}_matrix")), BODY, "n1 " * 9)
adapt("body_matrix", _matrix(P.body_matrix), BODY, "n1 " * 9)
try:
    import numpy as _np

    def _meanm(*ll, **kw):
        return lox.meanm(_np.array(ll[0::2]), _np.array(ll[1::2]), **kw)

    adapt("lox.meanm", _meanm, LL * 3, LL, ell=True)
except ImportError:
    pass

# functions of time: (function, inputs, outputs); time follows the inputs
TIMED = {}


def timed(fn, ins, outs, mod=None, **kw):
    name = (mod + "." if mod else "") + fn.__name__
    TIMED[name] = F(name, fn, ins, outs, **kw)


FORCE = dict(force_non_astropy=True)
timed(P.eci2ecef, "pX pY pZ", "X Y Z", deg=False, extra=FORCE)
timed(P.ecef2eci, "pX pY pZ", "X Y Z", deg=False, extra=FORCE)
for _n in ("eci2ecef_state", "ecef2eci_state"):
    if hasattr(P, _n):
        timed(getattr(P, _n), "pX pY pZ X Y Z", "X Y Z V V V", deg=False, extra=FORCE)
timed(P.azel2radec, "azd eld latd lond", "azd eld", deg=False, extra=FORCE)
timed(P.radec2azel, "azd eld latd lond", "azd eld", deg=False, extra=FORCE)
timed(vallado.azel2radec, "azd eld latd lond", "azd eld", deg=False, mod="vallado")
timed(vallado.radec2azel, "azd eld latd lond", "azd eld", deg=False, mod="vallado")


for _n, _i, _o in (("geodetic2eci", OBS, "X Y Z"), ("eci2geodetic", "pX pY pZ", OBS), ("aer2eci", "az el rng " + OBS, "X Y Z"), ("eci2aer", "pX pY pZ " + OBS, "az el rng")):
    # through astropy where it is installed; eci2aer has no ellipsoid argument
    _f = getattr(P, _n, None)
    if _f is None:
        from pymap3d import aer as _aer

        _f = getattr(_aer, _n)
    timed(_f, _i, _o, ell=_n != "eci2aer")
ASTROPY = {"geodetic2eci", "eci2geodetic", "aer2eci", "eci2aer"}


def _sidereal(lon, t, **kw):
    return P.datetime2sidereal(t, lon, **kw)


def _jd(t):
    from pymap3d.sidereal import juliandate

    return juliandate(t)


_sidereal.__name__ = "datetime2sidereal"
_jd.__name__ = "juliandate"
timed(_sidereal, "rot1", "rot1", deg=False, arrays=False, extra=FORCE)
timed(_jd, "", "jd", deg=False, arrays=False)


def fracs(lo, hi):
    return st.one_of(g.signed(g.logmag(lo, hi)), st.just(0.0), st.floats(-1, 1).map(lambda x: x * 10.0**hi))


STRAT = {
    "lat": g.lat(), "lon": g.lon(), "az": g.az_wide(), "el": g.el(), "tilt": g.angle(0, 180, [0, 30, 60, 90, 120, 180]),
    "psi": st.one_of(st.floats(-600, 600), st.sampled_from([0.0, 10.0, -200.0])), "rot": g.az_wide(),
    "frac": st.one_of(st.floats(0, 1), st.sampled_from([0.0, 0.5, 1.0])), "rot1": st.floats(-10, 10), "el1": st.floats(-1.5, 1.5),
    "azd": g.az_wide(), "eld": g.el(), "latd": g.lat(), "lond": g.lon(),
    "alt": g.rel_alt(-0.03, 2), "rng": st.one_of(g.logmag(-9, 0), st.floats(0, 3), st.just(0.0)), "rad": st.floats(0.9, 3),
}
for k in "N E U D W S dr cr B".split():
    STRAT[k] = fracs(-7, 0)
for k in ("X", "Y", "Z"):
    STRAT[k] = fracs(-5, 0)


@functools.lru_cache(None)
def rows(f):
    """strategy of one argument row, in degrees and semi-major axes"""
    parts, i = [], 0
    while i < len(f.ins):
        k = f.ins[i]
        if k == "pX":
            parts.append(st.tuples(g.lat(), g.lon(), st.one_of(st.floats(0.97, 3), st.floats(0.999, 1.03))).map(
                lambda t: tuple(t[2] * x for x in unit(t[0], t[1]))))
            i += 3
        elif k == "n1":
            parts.append(st.tuples(g.lat(), g.lon()).map(lambda t: unit(*t)))
            i += 3
        else:
            parts.append(STRAT[k].map(lambda x: (x,)))
            i += 1
    base = st.tuples(*parts).map(lambda ps: [x for p in ps for x in p])
    lats = [i for i, k in enumerate(f.ins[:-1]) if k == "lat" and f.ins[i + 1] == "lon" or k == "lon" and f.ins[i + 1] == "lat"]
    lats = [i for i in lats if i % 2 == lats[0] % 2 or f.ins[i] == f.ins[lats[0]]]
    if len(lats) < 2 or f.ins[lats[0]] != f.ins[lats[1]]:
        return base
    i, j = lats[:2]

    def relate(row, how, d):
        """second point at, near or opposite the first"""
        row = list(row)
        la, lo = (0, 1) if f.ins[i] == "lat" else (1, 0)
        if how == "same":
            row[j + la], row[j + lo] = row[i + la], row[i + lo]
            if i + 2 < len(f.ins) and f.ins[i + 2] == "alt" and f.ins[j + 2] == "alt":
                row[j + 2] = row[i + 2]
        elif how == "near":
            row[j + la], row[j + lo] = max(-90.0, min(90.0, row[i + la] + d)), row[i + lo] - d
        elif how == "opposite":
            row[j + la], row[j + lo] = max(-90.0, min(90.0, d - row[i + la])), row[i + lo] + 180.0 - 2 * d
        elif how == "meridian":
            row[j + lo] = row[i + lo] + 360.0 * (d > 0.01)
        elif how == "parallel":
            row[j + la] = row[i + la]
        return row

    return st.builds(relate, base, st.sampled_from(["", "", "", "same", "near", "opposite", "meridian", "parallel"]), st.one_of(st.just(0.0), g.signed(g.logmag(-9, 0))))


def unit(lat, lon):
    p, l = math.radians(lat), math.radians(lon)
    return math.cos(p) * math.cos(l), math.cos(p) * math.sin(l), math.sin(p)


def value(kind, x, a, deg):
    if kind in ANG:
        return x if deg else math.radians(x)
    if kind in LEN:
        return x * a
    return x


def row_values(f, row, a, deg=True):
    return [value(k, x, a, deg or not f.deg) for k, x in zip(f.ins, row)]
