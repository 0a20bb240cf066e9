"""Reference geodesics on an oblate ellipsoid, by the auxiliary sphere and Gauss-Legendre
quadrature (no series in the flattening; independent of pymap3d).

Spherical trigonometry is done with mpmath at 34 digits; the small ellipsoidal parts of the
two integrals are integrated in double precision, which leaves an error of the order of
1e-17 radian for f <= 1/50.
"""
import math

from mpmath import mp, mpf

from . import ref

PI = ref.PI


def _nodes(n):
    xs = []
    for i in range(n):
        x = mp.cos(PI * (i + mpf(3) / 4) / (n + mpf(1) / 2))
        for _ in range(60):
            p0, p1 = mpf(1), x
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            dp = n * (x * p1 - p0) / (x * x - 1)
            d = p1 / dp
            x -= d
            if abs(d) < mpf(10) ** -28:
                break
        xs.append((float(x), float(2 / ((1 - x * x) * dp * dp))))
    return xs


GL = _nodes(24)


def integrate(fn, lo, hi):
    n = max(1, math.ceil(abs(hi - lo) / 1.1))
    w = (hi - lo) / n
    tot = []
    for i in range(n):
        m = lo + (i + 0.5) * w
        tot.append(math.fsum(q * fn(m + x * w / 2) for x, q in GL))
    return math.fsum(tot) * w / 2


class Line:
    """geodesic leaving latitude lat1 with azimuth azi1 (degrees, or exact radians with deg=False)"""

    def __init__(self, lat1, azi1, a, b, deg=True):
        self.a, self.b = mpf(a), mpf(b)
        self.f = 1 - self.b / self.a
        self.n = 1 - self.f
        phi, al = ref.rad(lat1, deg), ref.rad(azi1, deg)
        sb, cb = self.n * mp.sin(phi), mp.cos(phi)
        h = mp.hypot(sb, cb)
        sb, cb = sb / h, max(cb / h, mpf(10) ** -18)
        sa, ca = mp.sin(al), mp.cos(al)
        if abs(ca) < mpf(10) ** -32:
            ca = mpf(0)
        self.sa0 = sa * cb
        self.ca0 = mp.hypot(ca, sa * sb)
        if sb == 0 and ca == 0:
            self.s1 = mpf(0)
        else:
            self.s1 = mp.atan2(sb, ca * cb)
        self.e2 = self.f * (2 - self.f)
        self.k2 = float(self.e2 / self.n**2 * self.ca0**2)
        self.ff = float(self.f)
        self.al1 = mp.atan2(self.sa0, self.ca0 * mp.cos(self.s1))

    def J(self, x, y):
        k2 = self.k2
        if k2 == 0:
            return 0.0

        def g(t):
            s2 = k2 * math.sin(t) ** 2
            return s2 / (1 + math.sqrt(1 + s2))

        return integrate(g, x, y)

    def omega(self, s):
        E = 1 if self.sa0 >= 0 else -1
        return E * (s + mp.atan2(E * self.sa0 * mp.sin(s), mp.cos(s)) - mp.atan2(mp.sin(s), mp.cos(s)))

    def I3(self, x, y):
        f, k2 = self.ff, self.k2
        return integrate(lambda t: (2 - f) / (1 + (1 - f) * math.sqrt(1 + k2 * math.sin(t) ** 2)), x, y)

    def end(self, s):
        """(latitude, longitude difference unrolled, azimuth, arc) in exact radians"""
        t = mpf(s) / self.b
        x = float(self.s1)
        s12 = t / (1 + self.k2 / 4)
        for _ in range(12):
            s2 = self.s1 + s12
            d = (s12 + self.J(x, float(s2)) - t) / math.sqrt(1 + self.k2 * math.sin(float(s2)) ** 2)
            s12 -= d
            if abs(d) < 1e-19:
                break
        return self.at(s12)

    def at(self, s12):
        s2 = self.s1 + s12
        sb = self.ca0 * mp.sin(s2)
        cb = mp.hypot(self.ca0 * mp.cos(s2), self.sa0)
        phi = mp.atan2(sb, self.n * cb)
        al = mp.atan2(self.sa0, self.ca0 * mp.cos(s2))
        w = self.omega(s2) - self.omega(self.s1)
        lam = w - self.f * self.sa0 * self.I3(float(self.s1), float(s2)) if self.f else w
        self.s12 = s12
        return phi, lam, al, s12

    def strip(self, lat, deg=True):
        """area between the equator and the parallel, per radian of longitude"""
        e2 = float(self.e2)
        e = math.sqrt(e2)
        s = float(mp.sin(ref.rad(lat, deg)))
        q = (1 - e2) * (s / (1 - e2 * s * s) + (math.atanh(e * s) / e if e > 0 else s))
        return float(self.a**2 / 2) * q

    def area(self, s12):
        """area between the equator and the geodesic up to arc s12 (m^2), eastward positive"""
        s1, s2 = float(self.s1), float(self.s1 + s12)
        sa0, ca0 = float(self.sa0), float(self.ca0)
        f, k2, n = self.ff, self.k2, float(self.n)
        e2 = float(self.e2)
        e = math.sqrt(e2)

        def q(sphi):
            return (1 - e2) * (sphi / (1 - e2 * sphi * sphi) + (math.atanh(e * sphi) / e if e > 0 else sphi))

        qp = q(1.0)
        alpha = lambda s: mp.atan2(self.sa0, self.ca0 * mp.cos(s))  # noqa: E731
        # azimuth change, unrolled: d(alpha) = sin(beta) d(omega) is bounded by the winding of omega
        a1, a2 = alpha(self.s1), alpha(self.s1 + s12)
        main = a2 - a1

        def g(t):
            sb = ca0 * math.sin(t)
            cb2 = (ca0 * math.cos(t)) ** 2 + sa0**2
            sphi = sb / math.sqrt(sb * sb + n * n * cb2)
            A = q(sphi)
            i3 = (2 - f) / (1 + (1 - f) * math.sqrt(1 + k2 * math.sin(t) ** 2))
            if cb2 > 4e-4:
                d = (A - qp * sb) / cb2
            else:
                x, (d1, d2, d3) = cb2 / 4e-4, near_pole
                d = d1 * (x - 2) * (x - 3) / 2 - d2 * (x - 1) * (x - 3) + d3 * (x - 1) * (x - 2) / 2
                d = d if sb > 0 else -d
            return sa0 * (d - f * i3 * A)

        # (A - qp sin(beta)) / cos^2(beta) is smooth at the pole: quadratic through three values near it
        near_pole = []
        for cb2 in (4e-4, 8e-4, 12e-4):
            sb = math.sqrt(1 - cb2)
            near_pole.append((q(sb / math.sqrt(sb * sb + n * n * cb2)) - qp * sb) / cb2)
        return float(self.a**2 / 2) * (qp * float(main) + integrate(g, s1, s2))


def xyz(phi, lam, a, b):
    """surface point, exact radians"""
    N = ref.normal_radius(phi, a, b)
    return (N * mp.cos(phi) * mp.cos(lam), N * mp.cos(phi) * mp.sin(lam), N * (mpf(b) / mpf(a)) ** 2 * mp.sin(phi))


def miss(lat1, lon1, azi1, s, lat2, lon2, a, b, deg=True):
    """distance in metres between the end of the geodesic and the target; plus the line's end data"""
    ln = Line(lat1, azi1, a, b, deg)
    phi, lam, al, s12 = ln.end(s)
    t2 = ref.rad(lat2, deg)
    dl = ref.rad(lon2, deg) - ref.rad(lon1, deg)
    p, q = xyz(phi, lam, a, b), xyz(t2, dl, a, b)
    return float(ref.norm(ref.sub3(p, q))), lam, al, s12


# ---------------------------------------------------------------- Vincenty (1975), as published


def _vincenty_ab(u2):
    A = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)))
    B = u2 / 1024 * (256 + u2 * (-128 + u2 * (74 - 47 * u2)))
    return A, B


def _vincenty_dsigma(B, ss, cs, cm):
    return B * ss * (cm + B / 4 * (cs * (2 * cm * cm - 1) - B / 6 * cm * (4 * ss * ss - 3) * (4 * cm * cm - 3)))


def vincenty_inverse(lat1, lon1, lat2, lon2, a, b):
    """(distance, azimuth) in radians, or None where the iteration does not converge"""
    import math

    f = (a - b) / a
    U1, U2 = (math.atan2((1 - f) * math.sin(x), math.cos(x)) for x in (lat1, lat2))
    L = math.remainder(lon2 - lon1, 2 * math.pi)
    s1, c1, s2, c2 = math.sin(U1), math.cos(U1), math.sin(U2), math.cos(U2)
    lam = L
    for _ in range(300):
        sl, cl = math.sin(lam), math.cos(lam)
        ss = math.hypot(c2 * sl, c1 * s2 - s1 * c2 * cl)
        cs = s1 * s2 + c1 * c2 * cl
        if ss == 0:
            return None
        sig = math.atan2(ss, cs)
        sa = c1 * c2 * sl / ss
        ca2 = 1 - sa * sa
        cm = cs - 2 * s1 * s2 / ca2 if ca2 > 1e-15 else 0.0
        C = f / 16 * ca2 * (4 + f * (4 - 3 * ca2))
        new = L + (1 - C) * f * sa * (sig + C * ss * (cm + C * cs * (2 * cm * cm - 1)))
        if abs(new) > math.pi:
            return None
        if abs(new - lam) < 1e-15:
            break
        lam = new
    else:
        if abs(new - lam) > 1e-13:
            return None
    A, B = _vincenty_ab(ca2 * (a * a - b * b) / (b * b))
    return b * A * (sig - _vincenty_dsigma(B, ss, cs, cm)), math.atan2(c2 * sl, c1 * s2 - s1 * c2 * cl)


def vincenty_direct(lat1, lon1, az, s, a, b):
    """(latitude, longitude difference) in radians"""
    import math

    f = (a - b) / a
    U1 = math.atan2((1 - f) * math.sin(lat1), math.cos(lat1))
    sU, cU = math.sin(U1), math.cos(U1)
    sz, cz = math.sin(az), math.cos(az)
    sig1 = math.atan2(sU, cU * cz)
    sa = cU * sz
    ca2 = 1 - sa * sa
    A, B = _vincenty_ab(ca2 * (a * a - b * b) / (b * b))
    sig = s / (b * A)
    for _ in range(100):
        ss, cs, cm = math.sin(sig), math.cos(sig), math.cos(2 * sig1 + sig)
        new = s / (b * A) + _vincenty_dsigma(B, ss, cs, cm)
        done = abs(new - sig) < 1e-15 * (1 + abs(sig))
        sig = new
        if done:
            break
    ss, cs, cm = math.sin(sig), math.cos(sig), math.cos(2 * sig1 + sig)
    lat2 = math.atan2(sU * cs + cU * ss * cz, (1 - f) * math.hypot(sa, sU * ss - cU * cs * cz))
    lam = math.atan2(ss * sz, cU * cs - sU * ss * cz)
    C = f / 16 * ca2 * (4 + f * (4 - 3 * ca2))
    return lat2, lam - (1 - C) * f * sa * (sig + C * ss * (cm + C * cs * (2 * cm * cm - 1)))
