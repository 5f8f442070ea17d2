"""lookAtSpheroid on the full product of observers (poles, equator, seam; heights from 0 to beyond geostationary) x azimuths x tilts
(nadir to zenith, and tilts bracketing each observer's own horizon within 1e-9 to 1 degree) x ellipsoids x call modes, against the
quadratic ray equation solved in 80-bit arithmetic: the returned point lies on the surface and on the ray at the returned
distance, at the first root, and NaN is returned exactly for rays that miss (a band of rounding width round the tangent excepted).
State: (ellipsoid, observer, azimuth, tilt); transition: one call; trace: one judged ray."""
import numpy as np

import engine
import lattices as T
import refmodel as R
from api import spec
from checks import common as C

EPS = R.EPS
H = np.array([0.0, 1e-3, 1.0, 200.0, 1e4, 4e5, 2.02e7, 3.6e7, 4e8])
AZ = np.array([0.0, 33.0, 90.0, 180.0, 225.75, 270.0, -45.5, 725.0])
TILT = np.array([0.0, 1e-9, 1e-3, 5.5, 30.0, 60.0, 89.0, 89.999, 90.0, 90.001, 120.0, 180.0])
LATS = np.array([0.0, 90.0, -90.0, 42.0, -33.5, 89.9999, -1e-9, 60.25, -75.5])
LONS = np.array([0.0, -82.0, 180.0, 179.9999, 271.5, -540.25])


def oracle(args, el, o):
    lat, lon, h, az, tilt = args
    x, y, z = R.geodetic2ecef(lat, lon, h, el)
    e, n, u = R.aer2enu(az, tilt - R.PI / 2, np.ones_like(az))
    d = R.enu2ecefv(e, n, u, lat, lon)
    p = [x / el.a, y / el.a, z / el.b]
    q = [d[0] / el.a, d[1] / el.a, d[2] / el.b]
    A = sum(c * c for c in q)
    B = sum(a * b for a, b in zip(p, q))
    # |p|^2 - 1, without cancellation for low observers
    g = h * (2 * (np.cos(lat) ** 2 * R.prime_vertical(lat, el) / el.a ** 2 + np.sin(lat) ** 2 * R.prime_vertical(lat, el) * (1 - el.e2) / el.b ** 2)
             + h * (np.cos(lat) ** 2 / el.a ** 2 + np.sin(lat) ** 2 / el.b ** 2))
    disc = B * B - A * g
    rr = np.asarray(1 + g, float)
    angs = np.maximum.reduce([np.abs(np.asarray(c, float)) for c in (lat, lon, az, tilt)])
    dA = np.asarray(A, float) * rr * EPS * (40 + 8 * angs)           # rounding band of the discriminant
    disc_f = np.asarray(disc, float)
    root = np.sqrt(np.maximum(disc, 0))
    s1 = np.asarray((-B - root) / A, float)
    mid = np.asarray(-B / A, float)
    slack = np.sqrt(np.maximum(disc_f, 0) + dA) / np.asarray(A, float) - np.sqrt(np.maximum(disc_f, 0)) / np.asarray(A, float) \
        + np.asarray(np.sqrt(rr) * el.a, float) * EPS * (40 + 8 * angs)
    eps_d = 1.1e-9 * float(el.a)
    must = (disc_f > dA) & (s1 > slack)
    never = (disc_f < -dA) | ((s1 < -slack - eps_d) & (mid < -np.sqrt(dA) / np.asarray(A, float) - slack))

    def chk(raw, outs, radm):
        glat, glon, dist = outs
        nan = np.isnan(raw[0]) | np.isnan(raw[1]) | np.isnan(raw[2])
        part = nan & ~(np.isnan(raw[0]) & np.isnan(raw[1]) & np.isnan(raw[2]))
        G = R.geodetic2ecef(np.where(nan, 0, glat), np.where(nan, 0, glon), 0 * h, el)
        t = np.where(nan, 0, dist)
        ray = [a + t * b for a, b in zip((x, y, z), d)]
        # the point at the returned distance, seen from the returned position; the distance at the first root
        tol = 2e-8 + 1e-15 * float(el.a) * (10 + 5 * angs) + np.asarray(np.abs(t), float) * EPS * (10 + 5 * angs) \
            + np.asarray(el.a, float) * EPS * rr * 20 + np.where(np.asarray(t, float) < 2 * eps_d, 0, 0)
        off = np.asarray(R.dist3(G, ray), float)
        # snapped to zero within 1e-9 of the semi-major axis
        snap = (np.asarray(t, float) == 0)
        qq = np.maximum(off / np.where(snap, tol + 3 * eps_d, tol), 0)
        low = np.where(snap, s1 - eps_d, s1 - slack)
        high = np.where(snap, eps_d, 0) + s1 + slack
        tf = np.asarray(t, float)
        graz = np.abs(disc_f) <= dA
        near = np.where(graz, np.abs(tf - mid) <= np.sqrt(2 * dA) / np.asarray(A, float) + slack + eps_d * snap, (tf >= low) & (tf <= high))
        qq = np.where(near, qq, np.inf)
        lim, lim2 = (np.pi / 2, np.pi) if radm else (90, 180)
        qq = np.where((np.abs(raw[0]) <= lim * (1 + 2 * EPS)) & (np.abs(raw[1]) <= lim2 * (1 + 2 * EPS)) & (tf >= 0), qq, np.inf)
        qq = np.where(never, np.inf, qq)
        return np.where(nan, np.where(must | part, np.inf, 0), qq)
    return {"kind": "fn", "fn": chk, "ref": [s1]}


def horizon(el):
    """rays bracketing each observer's horizon"""
    rows = []
    for la in LATS:
        for h in H[1:]:
            hh = h * float(el.a) / 6378137.0
            for az in AZ[:6]:
                # tangent tilt by bisection on the discriminant
                lo, hi = R.L(0), R.PI / 2
                for _ in range(70):
                    m = (lo + hi) / 2
                    lo, hi = (m, hi) if hit(la, hh, az, m, el) else (lo, m)
                for dd in T.pm(0, 1e-9, 1e-7, 1e-5, 1e-3, 0.1, 1.0):
                    rows.append((la, LONS[len(rows) % len(LONS)], h, az, float(np.degrees(m)) + dd))
    return T.cols_of(rows)


def hit(la, h, az, tilt, el):
    la, az = R.rad(np.array([la])), R.rad(np.array([az]))
    z0 = np.zeros(1, R.L)
    x = R.geodetic2ecef(la, z0, z0 + h, el)
    d = R.enu2ecefv(*R.aer2enu(az, z0 + tilt - R.PI / 2, z0 + 1), la, z0)
    p = [x[0] / el.a, x[1] / el.a, x[2] / el.b]
    q = [d[0] / el.a, d[1] / el.a, d[2] / el.b]
    A, B, G = sum(c * c for c in q), sum(a * b for a, b in zip(p, q)), sum(c * c for c in p) - 1
    return bool((B * B - A * G)[0] > 0)


def rays(ctx, ells, cols, modes, stride=1):
    engine.run_value(ctx, spec("lookAtSpheroid"), [c[::stride] for c in cols], ells, modes, oracle)


def fill(ctx, n, shift, ells, modes):
    """lattices filling the whole argument space, and the low tilts"""
    for tilt in ((0, 180), (0, 90), (-180, 180)):
        engine.run_value(ctx, spec("lookAtSpheroid"), T.kron(n, ["lat", "lon", ("log", 0, 4e8), "az", tilt], shift), ells, modes, oracle)


def edges(ctx, ell, modes, stride=1):
    engine.run_value(ctx, spec("lookAtSpheroid"), [c[::stride] for c in horizon(engine.el_ref(ell))], [ell], modes, oracle)


def negative(ctx):
    """a negative altitude anywhere raises ValueError, in every layout; others do not"""
    import pymap3d.los as S
    n = 0
    for h in (-1e-300, -1e-9, -0.5, -1e6, 0.0, -0.0, 1e-9, 7.0):
        for deg in (True, False):
            for shape in ((), (1,), (3,), (2, 2)):
                for pos in range(int(np.prod(shape)) if shape else 1):
                    hh = h
                    if shape:
                        hh = np.full(shape, 5.0)
                        hh.flat[pos] = h
                    n += 1
                    try:
                        S.lookAtSpheroid(0.1, 0.2, hh, 0.3, np.full(shape, 0.4) if shape else 0.4, deg=deg)
                        ok = not h < 0
                    except ValueError:
                        ok = h < 0
                    if not ok:
                        ctx.viol(f"lookAtSpheroid with altitude {hh!r} deg={deg}: ValueError exactly for negative altitudes expected")
    ctx.add(states=n, transitions=n, traces=n)


def tasks(tier):
    th = tier == "thorough"
    cols = T.grid(LATS, LONS, H, AZ, TILT)
    every = T.ellipsoids("all")
    thin = [c[::1 if th else 7] for c in cols]
    out = [("negative", negative, {})]
    for j in range(0, len(every), 16):
        out.append((f"grid-{j}", rays, {"ells": every[j:j + 16], "cols": thin, "modes": ("arr", "rad")}))
    for k, e in enumerate((None, "mars")):
        out.append((f"fill-{e}", fill, {"n": 40000 if th else 4000, "shift": k, "ells": [e], "modes": ("arr", "rad")}))
    out.append(("fill-scalars", fill, {"n": 2000 if th else 300, "shift": 2, "ells": [None], "modes": ("py", "pyrad", "std", "stdrad")}))
    for e in T.ellipsoids("some") if th else [None, "saturn"]:
        out.append((f"horizon-{e}", edges, {"ell": e, "modes": ("arr", "rad")}))
        out.append((f"scalar-{e}", rays, {"ells": [e], "cols": cols, "modes": ("py", "pyrad", "std", "stdrad"), "stride": 1 if th else 13}))
        out.append((f"horizon-scalar-{e}", edges, {"ell": e, "modes": ("py", "std", "stdrad"), "stride": 1 if th else 5}))
        out.append((f"full-{e}", rays, {"ells": [e], "cols": cols, "modes": ("arr", "rad", "2d")}))
    return out
