"""Independent reference model in 80-bit extended precision (angles in radians, longdouble arrays).

Nothing here is taken from pymap3d; formulas are the textbook definitions.
"""
from __future__ import annotations

import numpy as np

L = np.longdouble
PI = L("3.14159265358979323846264338327950288")
TAU = 2 * PI
EPS = 2.220446049250313e-16


def ld(x):
    return np.asarray(x, dtype=L)


def rad(x):
    return ld(x) * PI / 180


def deg(x):
    return ld(x) * 180 / PI


class El:
    """ellipsoid of revolution"""

    def __init__(self, a, b):
        self.a, self.b = L(a), L(b)
        self.f = (self.a - self.b) / self.a
        self.n = (self.a - self.b) / (self.a + self.b)
        self.e2 = (self.a - self.b) * (self.a + self.b) / self.a ** 2
        self.e = np.sqrt(self.e2)
        self.E = np.sqrt((self.a - self.b) * (self.a + self.b))


# ---------------------------------------------------------------- geodetic, ECEF

def prime_vertical(lat, el):
    return el.a ** 2 / np.hypot(el.a * np.cos(lat), el.b * np.sin(lat))


def geodetic2ecef(lat, lon, alt, el):
    lat, lon, alt = ld(lat), ld(lon), ld(alt)
    N = prime_vertical(lat, el)
    p = (N + alt) * np.cos(lat)
    return p * np.cos(lon), p * np.sin(lon), (N * (el.b / el.a) ** 2 + alt) * np.sin(lat)


def _from_beta(beta, p, z, el):
    sb, cb = np.sin(beta), np.cos(beta)
    lat = np.arctan2(el.a * sb, el.b * cb)
    cl, sl = np.cos(lat), np.sin(lat)
    alt = (p - el.a * cb) * cl + (z - el.b * sb) * sl
    return lat, alt


def _confocal(x, y, z, el):
    x, y, z = ld(x), ld(y), ld(z)
    p = np.hypot(x, y)
    r2 = p * p + z * z
    E2 = el.E ** 2
    t = r2 - E2
    h = np.hypot(t, 2 * el.E * z)
    # u^2 = (t + h)/2, cancellation free for t < 0
    with np.errstate(all="ignore"):
        u2 = np.where(t >= 0, (t + h) / 2, 2 * E2 * z * z / np.where(h - t == 0, 1, h - t))
    u = np.sqrt(u2)
    return p, u, np.hypot(u, el.E), E2


def you_one_step(x, y, z, el):
    """closed form of You (2000) with its single correction: the known approximation (lat, lon, alt)"""
    p, u, hu, E2 = _confocal(x, y, z, el)
    z = ld(z)
    beta = np.arctan2(hu * z, u * p)
    num = (el.b * u - el.a * hu + E2) * np.sin(beta)
    cb = np.cos(beta)
    with np.errstate(all="ignore"):
        d = num * cb / (el.a * hu - E2 * cb * cb)
    beta = beta + np.where(np.isfinite(d), d, 0)
    sb, cb = np.sin(beta), np.cos(beta)
    lat = np.arctan2(el.a * sb, el.b * cb)
    alt = np.hypot(z - el.b * sb, p - el.a * cb)
    inside = (p / el.a) ** 2 + (z / el.b) ** 2 < 1
    return lat, np.arctan2(ld(y), ld(x)), np.where(inside, -alt, alt)


def ecef2geodetic(x, y, z, el):
    """exact: Newton iteration for the parametric latitude of the foot point"""
    p, u, hu, E2 = _confocal(x, y, z, el)
    z = ld(z)
    beta = np.arctan2(hu * z, u * p)
    for _ in range(30):
        sb, cb = np.sin(beta), np.cos(beta)
        g = el.a * p * sb - el.b * z * cb - E2 * sb * cb
        dg = el.a * p * cb + el.b * z * sb - E2 * (cb * cb - sb * sb)
        with np.errstate(all="ignore"):
            d = g / dg
        beta = beta - np.clip(np.where(np.isfinite(d), d, 0), -0.3, 0.3)
    lat, alt = _from_beta(beta, p, z, el)
    return lat, np.arctan2(ld(y), ld(x)), alt


# ---------------------------------------------------------------- local frames

def enu_axes(lat, lon):
    lat, lon = ld(lat), ld(lon)
    sp, cp, sl, cl = np.sin(lat), np.cos(lat), np.sin(lon), np.cos(lon)
    zero = np.zeros_like(sp * sl)
    return ((-sl + zero, cl + zero, zero), (-sp * cl, -sp * sl, cp + zero), (cp * cl, cp * sl, sp + zero))


def ecefv2enu(u, v, w, lat0, lon0):
    ax = enu_axes(lat0, lon0)
    return tuple(a[0] * ld(u) + a[1] * ld(v) + a[2] * ld(w) for a in ax)


def enu2ecefv(e, n, u, lat0, lon0):
    E, N, U = enu_axes(lat0, lon0)
    return tuple(E[k] * ld(e) + N[k] * ld(n) + U[k] * ld(u) for k in range(3))


def enu2frame(fr, e, n, u):
    return {"enu": (e, n, u), "ned": (n, e, -u), "nwu": (n, -e, u), "sez": (-n, e, u)}[fr]


def frame2enu(fr, p, q, r):
    return {"enu": (p, q, r), "ned": (q, p, -r), "nwu": (-q, p, r), "sez": (q, -p, r)}[fr]


def ecef2enu(x, y, z, lat0, lon0, h0, el):
    x0, y0, z0 = geodetic2ecef(lat0, lon0, h0, el)
    return ecefv2enu(ld(x) - x0, ld(y) - y0, ld(z) - z0, lat0, lon0)


def enu2ecef(e, n, u, lat0, lon0, h0, el):
    x0, y0, z0 = geodetic2ecef(lat0, lon0, h0, el)
    dx, dy, dz = enu2ecefv(e, n, u, lat0, lon0)
    return x0 + dx, y0 + dy, z0 + dz


def aer2enu(az, elv, r):
    az, elv, r = ld(az), ld(elv), ld(r)
    return r * np.cos(elv) * np.sin(az), r * np.cos(elv) * np.cos(az), r * np.sin(elv)


def enu2aer(e, n, u):
    e, n, u = ld(e), ld(n), ld(u)
    h = np.hypot(e, n)
    return np.mod(np.arctan2(e, n), TAU), np.arctan2(u, h), np.hypot(h, u)


def ned2body_matrix(yaw, pitch, roll):
    ps, th, ph = ld(yaw), ld(pitch), ld(roll)
    cps, sps, cth, sth, cph, sph = np.cos(ps), np.sin(ps), np.cos(th), np.sin(th), np.cos(ph), np.sin(ph)
    return ((cth * cps, cth * sps, -sth),
            (sph * sth * cps - cph * sps, sph * sth * sps + cph * cps, sph * cth),
            (cph * sth * cps + sph * sps, cph * sth * sps - sph * cps, cph * cth))


def matvec(m, v):
    return tuple(m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] for i in range(3))


def transpose(m):
    return tuple(tuple(m[j][i] for j in range(3)) for i in range(3))


def frame2body(fr, p, q, r, yaw, pitch, roll):
    e, n, u = frame2enu(fr, ld(p), ld(q), ld(r))
    return matvec(ned2body_matrix(yaw, pitch, roll), (n, e, -u))


def body2frame(fr, xb, yb, zb, yaw, pitch, roll):
    n, e, d = matvec(transpose(ned2body_matrix(yaw, pitch, roll)), (ld(xb), ld(yb), ld(zb)))
    return enu2frame(fr, e, n, -d)


def enu2dca(e, n, u, h):
    h = ld(h)
    e, n = ld(e), ld(n)
    return e * np.sin(h) + n * np.cos(h), n * np.sin(h) - e * np.cos(h), ld(u)


def dca2enu(dr, cr, ab, h):
    h = ld(h)
    dr, cr = ld(dr), ld(cr)
    return dr * np.sin(h) - cr * np.cos(h), dr * np.cos(h) + cr * np.sin(h), ld(ab)


# ---------------------------------------------------------------- latitudes, radii, arcs

def meridian_radius(lat, el):
    return el.a * (1 - el.e2) / (1 - el.e2 * np.sin(ld(lat)) ** 2) ** L(1.5)


_GX, _GW = np.polynomial.legendre.leggauss(48)
_GX, _GW = ld(_GX), ld(_GW)


def meridian_arc(lat, el):
    """signed length from the equator"""
    lat = ld(lat)
    half = lat / 2
    t = half[..., None] * (1 + _GX)
    return np.sum(meridian_radius(t, el) * _GW, axis=-1) * half


def rectifying(lat, el):
    return PI / 2 * meridian_arc(lat, el) / meridian_arc(PI / 2, el)


def isometric(lat, el):
    s = np.sin(ld(lat))
    with np.errstate(all="ignore"):
        return np.arcsinh(np.tan(ld(lat))) - el.e * np.arctanh(el.e * s)


def conformal(lat, el):
    lat = ld(lat)
    with np.errstate(all="ignore"):
        return np.where(np.abs(np.abs(lat) - PI / 2) < L(1e-18), np.sign(lat) * PI / 2, np.arctan(np.sinh(isometric(lat, el))))


def authalic(lat, el):
    lat = ld(lat)
    if el.e2 == 0:
        return lat

    def q(s):
        return (1 - el.e2) * (s / (1 - el.e2 * s * s) + np.arctanh(el.e * s) / el.e)
    s = np.sin(lat)
    qp = q(L(1))
    # sin(beta) = q/qp; 1 - q/qp by quadrature for conditioning near the poles
    r = q(s) / qp
    half = (PI / 2 - np.abs(lat)) / 2
    t = np.abs(lat)[..., None] + half[..., None] * (1 + _GX)
    tail = np.sum(2 * (1 - el.e2) * np.cos(t) / (1 - el.e2 * np.sin(t) ** 2) ** 2 * _GW, axis=-1) * half / qp
    near = 2 * np.arcsin(np.sqrt(np.clip(tail / 2, 0, 1)))   # 1 - sin(beta) = tail
    return np.where(np.abs(lat) > 1, np.sign(lat) * (PI / 2 - near), np.arcsin(np.clip(r, -1, 1)))


def parametric(lat, el):
    return np.arctan2(el.b * np.sin(ld(lat)), el.a * np.cos(ld(lat)))


def geocentric(lat, alt, el):
    lat, alt = ld(lat), ld(alt)
    N = prime_vertical(lat, el)
    return np.arctan2((N * (1 - el.e2) + alt) * np.sin(lat), (N + alt) * np.cos(lat))


def invert(fn, y, el, lo=-PI / 2, hi=PI / 2, it=90):
    """geodetic latitude with fn(latitude) = y, for an increasing fn (bisection)"""
    y = ld(y)
    a = np.full(y.shape, lo, L)
    b = np.full(y.shape, hi, L)
    for _ in range(it):
        m = (a + b) / 2
        v = fn(m, el)
        up = v < y
        a = np.where(up, m, a)
        b = np.where(up, b, m)
    return (a + b) / 2


# ---------------------------------------------------------------- helpers

def wrap(d):
    """difference of angles to (-pi, pi]"""
    return np.mod(ld(d) + PI, TAU) - PI


def pos_of_geodetic(lat, lon, alt, el):
    return geodetic2ecef(lat, lon, alt, el)


def dist3(p, q):
    d = [ld(a) - ld(b) for a, b in zip(p, q)]
    m = np.maximum(np.maximum(np.abs(d[0]), np.abs(d[1])), np.abs(d[2]))
    with np.errstate(all="ignore"):
        s = np.where(m == 0, 1, m)
    return m * np.sqrt((d[0] / s) ** 2 + (d[1] / s) ** 2 + (d[2] / s) ** 2)
