"""Independent reference mathematics, mostly at 30+ digits with mpmath.

Nothing here imports pymap3d.
"""
import math

from mpmath import mp, mpf

mp.dps = 34
PI = mp.pi
EPS = 2.220446049250313e-16


def rad(x, deg=True):
    """exact angle in radians from the float argument"""
    return mpf(x) * PI / 180 if deg else mpf(x)


def outdeg(x, deg=True):
    return x * 180 / PI if deg else x


def normal_radius(phi, a, b):
    a, b = mpf(a), mpf(b)
    return a * a / mp.sqrt((a * mp.cos(phi)) ** 2 + (b * mp.sin(phi)) ** 2)


def geod2ecef(lat, lon, h, a, b, deg=True):
    phi, lam = rad(lat, deg), rad(lon, deg)
    N = normal_radius(phi, a, b)
    p = (N + mpf(h)) * mp.cos(phi)
    return (p * mp.cos(lam), p * mp.sin(lam), (N * (mpf(b) / mpf(a)) ** 2 + mpf(h)) * mp.sin(phi))


def enu_axes(lat, lon, deg=True):
    """rows: east, north, up"""
    phi, lam = rad(lat, deg), rad(lon, deg)
    sf, cf, sl, cl = mp.sin(phi), mp.cos(phi), mp.sin(lam), mp.cos(lam)
    return ((-sl, cl, mpf(0)), (-sf * cl, -sf * sl, cf), (cf * cl, cf * sl, sf))


def matvec(m, v):
    return tuple(sum(mpf(r[k]) * mpf(v[k]) for k in range(3)) for r in m)


def tmatvec(m, v):
    return tuple(sum(mpf(m[k][r]) * mpf(v[k]) for k in range(3)) for r in range(3))


def norm(v):
    return mp.sqrt(sum(mpf(x) ** 2 for x in v))


def sub3(u, v):
    return tuple(mpf(p) - mpf(q) for p, q in zip(u, v))


def outside_evolute(p, z, a, b, margin=1.6):
    """is the point clear of the region where several normals pass through it?"""
    a, b = float(a), float(b)
    c2 = a * a - b * b
    if c2 <= 0:
        return math.hypot(p, z) > 0.02 * a
    return (a * p) ** (2 / 3) + (b * abs(z)) ** (2 / 3) > margin * c2 ** (2 / 3) and math.hypot(
        p, z
    ) > 0.02 * a


def ecef2geod_exact(x, y, z, a, b):
    """geodetic latitude, longitude (radians) and height of a point outside the evolute"""
    x, y, z, a, b = map(mpf, (x, y, z, a, b))
    p = mp.hypot(x, y)
    lam = mp.atan2(y, x)
    # Newton on the reduced latitude: foot of the normal
    c2 = a * a - b * b
    be = mp.atan2(a * z, b * p) if (p or z) else mpf(0)
    for _ in range(60):
        s, c = mp.sin(be), mp.cos(be)
        g = a * p * s - b * z * c - c2 * s * c
        dg = a * p * c + b * z * s - c2 * (c * c - s * s)
        d = g / dg
        be -= d
        if abs(d) < mpf(10) ** -28:
            break
    s, c = mp.sin(be), mp.cos(be)
    phi = mp.atan2(a * s, b * c)
    h = (p - a * c) * mp.cos(phi) + (z - b * s) * mp.sin(phi)
    return phi, lam, h


def you2000(x, y, z, a, b):
    """R. You (2000), Eqs. (4a), (4b), (13), (4c), (7): closed form with one correction"""
    x, y, z, a, b = map(mpf, (x, y, z, a, b))
    E2 = a * a - b * b
    r2 = x * x + y * y + z * z
    t = r2 - E2
    u = mp.sqrt((t + mp.sqrt(t * t + 4 * E2 * z * z)) / 2)
    Q = mp.hypot(x, y)
    w = mp.hypot(u, mp.sqrt(E2))
    if Q == 0 or u == 0:
        be = mpf(0) if z == 0 else (PI / 2 if z > 0 else -PI / 2)
    else:
        be = mp.atan(w * z / (u * Q))
        be += (b * u - a * w + E2) * mp.sin(be) / (a * w / mp.cos(be) - E2 * mp.cos(be))
    phi = mp.atan(a / b * mp.tan(be)) if abs(be) < PI / 2 else be
    h = mp.hypot(z - b * mp.sin(be), Q - a * mp.cos(be))
    if (x * x + y * y) / (a * a) + z * z / (b * b) < 1:
        h = -h
    return phi, mp.atan2(y, x), h
