"""Independent Earth orientation reference (IAU 1976 precession, IAU 1980 nutation, IAU 1982
sidereal time), written from the published tables; checked against ERFA in props/times.py and
props/eci.py.  Nothing here imports pymap3d.
"""
import datetime as dt
from fractions import Fraction

from mpmath import mp, mpf

from .gens import LEAPS

AS = mp.pi / 648000
TAU = 2 * mp.pi
# l, l', F, D, Om, psi, psi rate, eps, eps rate [0.1 mas]; the largest terms of the IAU 1980 series
NUT = """
0 0 0 0 1 -171996 -174.2 92025 8.9
0 0 2 -2 2 -13187 -1.6 5736 -3.1
0 0 2 0 2 -2274 -0.2 977 -0.5
0 0 0 0 2 2062 0.2 -895 0.5
0 1 0 0 0 1426 -3.4 54 -0.1
1 0 0 0 0 712 0.1 -7 0
0 1 2 -2 2 -517 1.2 224 -0.6
0 0 2 0 1 -386 -0.4 200 0
1 0 2 0 2 -301 0 129 -0.1
0 -1 2 -2 2 217 -0.5 -95 0.3
1 0 0 -2 0 -158 0 -1 0
0 0 2 -2 1 129 0.1 -70 0
-1 0 2 0 2 123 0 -53 0
0 0 0 2 0 63 0 -2 0
1 0 0 0 1 63 0.1 -33 0
-1 0 2 2 2 -59 0 26 0
-1 0 0 0 1 -58 -0.1 32 0
1 0 2 0 1 -51 0 27 0
2 0 0 -2 0 48 0 1 0
-2 0 2 0 1 46 0 -24 0
0 0 2 2 2 -38 0 16 0
2 0 2 0 2 -31 0 13 0
2 0 0 0 0 29 0 -1 0
1 0 2 -2 2 29 0 -12 0
0 0 2 0 0 26 0 -1 0
"""
NUT = [tuple(float(x) for x in r.split()) for r in NUT.strip().splitlines()]
LEAP_DATES = [dt.datetime.fromisoformat(x) for x in LEAPS]


def utc(t):
    return t.astimezone(dt.timezone.utc).replace(tzinfo=None) if t.tzinfo else t


def days(t):
    """exact days since 2000-01-01 12:00"""
    d = utc(t) - dt.datetime(2000, 1, 1, 12)
    return Fraction(d.days * 86400 * 10**6 + d.seconds * 10**6 + d.microseconds, 86400 * 10**6)


def jd(t):
    return 2451545 + days(t)


def leaps(t):
    """TAI-UTC, from 1972-01-01 on"""
    t = utc(t)
    return 10 + sum(t >= x for x in LEAP_DATES)


def f2m(x):
    return mpf(x.numerator) / x.denominator


def ut1_days(t, dut=0.0):
    return f2m(days(t)) + mpf(dut) / 86400


def tt_centuries(t):
    return (f2m(days(t)) + (leaps(t) + mpf("32.184")) / 86400) / 36525


def gmst(d):
    """IAU 1982, d: days of UT1 since J2000"""
    T = mpf(d) / 36525
    s = mpf("67310.54841") + (876600 * 3600 + mpf("8640184.812866")) * T + mpf("0.093104") * T**2 - mpf("6.2e-6") * T**3
    return s * TAU / 86400


def obliquity(T):
    return (mpf("84381.448") - mpf("46.8150") * T - mpf("0.00059") * T**2 + mpf("0.001813") * T**3) * AS


def nutation(T):
    """IAU 1980 angles in longitude and obliquity"""
    T = mpf(T)
    ang = (
        485866.733 + (1325 * 1296000 + 715922.633) * T + 31.310 * T**2 + 0.064 * T**3,
        1287099.804 + (99 * 1296000 + 1292581.224) * T - 0.577 * T**2 - 0.012 * T**3,
        335778.877 + (1342 * 1296000 + 295263.137) * T - 13.257 * T**2 + 0.011 * T**3,
        1072261.307 + (1236 * 1296000 + 1105601.328) * T - 6.891 * T**2 + 0.019 * T**3,
        450160.280 - (5 * 1296000 + 482890.539) * T + 7.455 * T**2 + 0.008 * T**3,
    )
    p = e = mpf(0)
    for r in NUT:
        a = sum(k * x for k, x in zip(r, ang)) * AS
        p += (r[5] + r[6] * T) * mp.sin(a)
        e += (r[7] + r[8] * T) * mp.cos(a)
    return p * AS / 10000, e * AS / 10000


def short_nutation(T):
    """the four largest terms, as in Meeus (Astronomical Algorithms, ch. 22)"""
    T = mpf(T)
    d = mp.pi / 180
    L = (mpf("280.4665") + mpf("36000.7698") * T) * d
    M = (mpf("218.3165") + mpf("481267.8813") * T) * d
    om = (mpf("125.04452") - mpf("1934.136261") * T + mpf("0.0020708") * T**2 + T**3 / 450000) * d
    p = -mpf("17.20") * mp.sin(om) - mpf("1.32") * mp.sin(2 * L) - mpf("0.23") * mp.sin(2 * M) + mpf("0.21") * mp.sin(2 * om)
    e = mpf("9.20") * mp.cos(om) + mpf("0.57") * mp.cos(2 * L) + mpf("0.10") * mp.cos(2 * M) - mpf("0.09") * mp.cos(2 * om)
    return p * AS, e * AS


def gast(t, dut=0.0, nutation=nutation):
    T = tt_centuries(t)
    psi, eps = nutation(T)
    return gmst(ut1_days(t, dut)) + psi * mp.cos(obliquity(T) + eps)


def mul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def tr(a):
    return tuple(zip(*a))


def R1(t):
    c, s = mp.cos(t), mp.sin(t)
    return ((1, 0, 0), (0, c, s), (0, -s, c))


def R2(t):
    c, s = mp.cos(t), mp.sin(t)
    return ((c, 0, -s), (0, 1, 0), (s, 0, c))


def R3(t):
    c, s = mp.cos(t), mp.sin(t)
    return ((c, s, 0), (-s, c, 0), (0, 0, 1))


def npb(t, nutation=nutation):
    """J2000 mean equator and equinox to true of date"""
    T = tt_centuries(t)
    zeta = (mpf("2306.2181") * T + mpf("0.30188") * T**2 + mpf("0.017998") * T**3) * AS
    z = (mpf("2306.2181") * T + mpf("1.09468") * T**2 + mpf("0.018203") * T**3) * AS
    th = (mpf("2004.3109") * T - mpf("0.42665") * T**2 - mpf("0.041833") * T**3) * AS
    P = mul(R3(-z), mul(R2(th), R3(-zeta)))
    psi, eps = nutation(T)
    e0 = obliquity(T)
    return mul(mul(R1(-(e0 + eps)), mul(R3(-psi), R1(e0))), P)


def matrix(t, dut=0.0, xp=0.0, yp=0.0, nutation=nutation):
    """inertial to Earth-fixed"""
    W = mul(R1(-mpf(yp) * AS), R2(-mpf(xp) * AS))
    return mul(W, mul(R3(gast(t, dut, nutation)), npb(t, nutation)))
