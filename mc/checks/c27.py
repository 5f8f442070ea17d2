"""Exhaustive evaluation of geodetic2spherical, spherical2geodetic and geoc2geod on the product lattice of latitudes x longitudes
x altitudes/radii (from half-way to the centre to beyond geostationary orbit; poles, equator and near-special values) for every
ellipsoid and call mode, against the extended-precision model of the geodetic position; plus the exact round trip.
State: (function, ellipsoid, arguments); transition: one call; trace: one compared position."""
import numpy as np

import engine
import lattices as T
import refmodel as R
from api import spec
from checks.c24 import LADDER

EPS = R.EPS
ALTS = np.array([0.0, 1e-3, -1e-3, 200.0, -5000.0, 1e4, 4e5, -4e5, 2.02e7, 3.6e7, -1.5e6, -3.0e6, 4e8])


def sph(lat, lon, r):
    return r * np.cos(lat) * np.cos(lon), r * np.cos(lat) * np.sin(lon), r * np.sin(lat)


def o_fwd(args, el, o):
    lat, lon, alt = args
    xyz = R.geodetic2ecef(lat, lon, alt, el)
    tol = EPS * np.asarray(el.a + np.abs(alt), float) * (6 + 6 * np.abs(np.asarray(lon, float)))

    def chk(raw, outs, radm):
        lim = np.pi / 2 if radm else 90.0
        bad = ~(np.abs(raw[0]) <= lim * (1 + 2 * EPS)) | ~(raw[2] >= 0)
        # the longitude is returned unchanged
        dl = np.asarray(np.abs(outs[1] - lon), float) / (4 * EPS * (1e-300 + np.abs(np.asarray(lon, float))))
        q = np.maximum(engine.ratio_vec(sph(outs[0], outs[1], outs[2]), xyz, tol), dl)
        return np.where(bad, np.inf, q)
    return {"kind": "fn", "fn": chk, "ref": xyz}


def o_inv(args, el, o):
    lat, lon, r = args
    xyz = sph(lat, lon, r)
    f = float(el.f)
    tol = 1e-9 * float(el.a) / 6.4e6 + EPS * np.asarray(el.a + r, float) * (8 + 200 * f + 4 * np.abs(np.asarray(lon, float)))

    def chk(raw, outs, radm):
        q, _ = engine.ratio_geo([raw[0], np.zeros_like(raw[1]), raw[2]], outs, xyz, el, tol, radm)
        dl = np.asarray(np.abs(outs[1] - lon), float) / (4 * EPS * (1e-300 + np.abs(np.asarray(lon, float))))
        return np.maximum(q, dl)
    return {"kind": "fn", "fn": chk, "ref": xyz}


def o_geoc(args, el, o):
    lat, r = args
    ref = R.ecef2geodetic(r * np.cos(lat), 0 * r, r * np.sin(lat), el)[0]
    f = float(el.f)
    return {"kind": "list", "ref": [ref], "tol": [np.asarray(EPS * (4 + 4 * np.abs(np.asarray(lat, float))) + 1.7 * f ** 3 * np.asarray(el.a / r, float), float)]}


def geodetic(ctx, ells, modes, lats, lons):
    engine.run_value(ctx, spec("geodetic2spherical"), T.grid(lats, lons, ALTS), ells, modes, o_fwd)


def fill(ctx, e, modes, n, shift):
    """lattices filling the whole argument space"""
    el = engine.el_ref(e)
    a = float(el.a)
    engine.run_value(ctx, spec("geodetic2spherical"), T.kron(n, ["lat", "lon", ("log", -1e6, 1e9)], shift), [e], modes, o_fwd)
    lo = max(0.5, 2.2 * float(el.E / el.a))
    for r in ((6378137 * lo, 1.5 * 6378137), (6378137 * lo, 60.0 * 6378137)):
        engine.run_value(ctx, spec("spherical2geodetic"), T.kron(n, ["lat", "lon", r], shift), [e], modes, o_inv)
    for r in ((6378137 * float(1 - el.f), 1.5 * 6378137), (6378137.0, 60.0 * 6378137)):
        engine.run_value(ctx, spec("latitude.geoc2geod"), T.kron(n, ["lat", r], shift), [e], modes, o_geoc)


def radii(el):
    """distances above the core, per unit of the semimajor axis"""
    return np.array([0.6, 0.75, 0.9, 0.95, 1 - float(el.f), 1 - float(el.f) / 2, 1.0, 1.0001, 1.01, 1.1, 2.0, 6.6, 60.0])


def spherical(ctx, ells, modes, lats, lons):
    s = spec("spherical2geodetic")
    for e in ells:
        el = engine.el_ref(e)
        rr = radii(el)
        rr = rr[rr > 2.2 * float(el.E / el.a)]
        c = T.grid(lats, lons, rr * 6378137.0)
        engine.run_value(ctx, s, c, [e], modes, o_inv)


def geoc(ctx, ells, modes, n):
    s = spec("latitude.geoc2geod")
    lat = np.unique(np.concatenate([T.LAT, np.linspace(-90, 90, n)]))
    for e in ells:
        el = engine.el_ref(e)
        rr = np.array([1 - float(el.f), 1 - float(el.f) / 2, 1.0, 1.001, 1.05, 1.5, 2.0, 6.6, 60.0])
        engine.run_value(ctx, s, T.grid(lat, rr * 6378137.0), [e], modes, o_geoc)


def roundtrip(ctx, ells):
    import pymap3d as pm
    for ell in ells:
        e = engine.ellipsoid(ell)
        el = engine.el_ref(ell)
        lat, lon, alt = T.grid(T.LAT, T.LON_S, ALTS[:10] * float(el.a) / 6378137.0)
        s = pm.geodetic2spherical(lat.copy(), lon.copy(), alt.copy(), e)
        g = pm.spherical2geodetic(*s, e)
        ctx.add(states=len(lat), transitions=2, traces=len(lat))
        tol = (1e-9 + 3e-15 * float(el.f) * 6.4e6) * float(el.a) / 6.4e6 + EPS * np.abs(alt) * 10 + EPS * float(el.a) * (10 + 4 * np.radians(np.abs(lon)))
        q = R.dist3(R.geodetic2ecef(R.rad(g[0]), R.rad(g[1]), R.ld(g[2]), el), R.geodetic2ecef(R.rad(lat), R.rad(lon), R.ld(alt), el)).astype(float) / tol
        if not np.all(q <= 1):
            i = int(np.nanargmax(np.where(np.isfinite(q), q, 1e99)))
            ctx.viol(f"spherical2geodetic(geodetic2spherical({lat[i]!r}, {lon[i]!r}, {alt[i]!r})) = {[float(v[i]) for v in g]} ell={ell}")


def tasks(tier):
    th = tier == "thorough"
    ells = T.ellipsoids("all") + LADDER
    some = ells if th else [None, "mars", "moon", "jupiter"] + LADDER[::3]
    lats = np.unique(np.concatenate([T.LAT, np.linspace(-90, 90, 721 if th else 91)]))
    lons = T.LON if th else T.LON_S
    sc = ("py", "pyrad", "std", "stdrad", "np0")
    out = []
    for i, g in enumerate(np.array_split(np.arange(len(some)), 6)):
        es = [some[j] for j in g]
        out.append((f"geodetic-{i}", geodetic, {"ells": es, "modes": ("arr", "rad", "2d", "2drad"), "lats": lats, "lons": lons}))
        out.append((f"spherical-{i}", spherical, {"ells": es, "modes": ("arr", "rad", "2d", "2drad"), "lats": lats, "lons": lons}))
    for k, e in enumerate((None, "mars", "moon")):
        out.append((f"fill-{e}", fill, {"e": e, "modes": ("arr", "rad"), "n": 40000 if th else 4000, "shift": k}))
    out.append(("fill-scalars", fill, {"e": None, "modes": sc, "n": 4000 if th else 500, "shift": 3}))
    out.append(("geodetic-modes", geodetic, {"ells": [None, "jupiter"], "modes": sc, "lats": T.LAT_S, "lons": T.LON_S}))
    out.append(("spherical-modes", spherical, {"ells": [None, "jupiter"], "modes": sc, "lats": T.LAT_S, "lons": T.LON_S}))
    out.append(("geoc2geod", geoc, {"ells": ells, "modes": ("arr", "rad", "2d"), "n": 9001 if th else 361}))
    out.append(("geoc2geod-modes", geoc, {"ells": [None, "jupiter"], "modes": sc, "n": 19}))
    out.append(("roundtrip", roundtrip, {"ells": ells}))
    return out
