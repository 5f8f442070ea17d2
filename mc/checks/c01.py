"""Exhaustive evaluation of geodetic2ecef and ecef2geodetic on the full product lattice of latitudes x longitudes x
altitudes (special values, near-special values, dense grid), for every ellipsoid of the catalogue and custom ones, in
array, 2-D, radian, scalar and NumPy-free call modes, against an extended-precision model of the ellipsoid normal.
State: (function, ellipsoid, input); transition: one library call; trace: one input compared with the model."""
import numpy as np

import engine
import lattices as T
import refmodel as R
from api import spec

ASSUMPTIONS = ["longdouble is 80-bit", "inputs outside the lattices are not explored"]
EPS = R.EPS
POLE = 1.5e-8      # points nearer than 1e-8 m to the axis may be placed on it


def scale_tol(el, alt, lon_like):
    return EPS * (np.asarray(el.a + np.abs(alt), float)) * (4 + 3 * np.abs(np.asarray(lon_like, float)))


def o_fwd(args, el, o):
    lat, lon, alt = args
    return {"kind": "vec", "ref": R.geodetic2ecef(lat, lon, alt, el),
            "tol": scale_tol(el, alt, np.maximum(np.abs(lat), np.abs(lon)))}


def o_inv(args, el, o):
    x, y, z = args
    r = R.dist3((x, y, z), (0, 0, 0))
    f = float(el.f)
    return {"kind": "geo", "ref": (x, y, z), "tol": np.asarray(POLE + EPS * (el.a + r) * (4 + 40 * f), float)}


def positions(lats, lons, alts, el, b=None):
    """ECEF double positions of a lattice, restricted to outside the core"""
    lat, lon, alt = T.grid(lats, lons, alts)
    xyz = R.geodetic2ecef(R.rad(lat), R.rad(lon), R.ld(alt), el)
    keep = R.dist3(xyz, (0, 0, 0)) > 1.25 * el.E
    keep &= R.ld(alt) > -el.b / 2
    return [np.asarray(c, float)[keep] for c in xyz]


def axis_points(el):
    """exact special ECEF positions: on the rotation axis, in the equatorial plane, with signed zeros"""
    a, b = float(el.a), float(el.b)
    pts = []
    for z in (b, b * 1.1, b * 0.7, b * 5, b + 1e-3, b - 1e-3):
        for p in (0.0, -0.0, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1.0):
            for s in (1, -1):
                pts += [(p * a / 6.4e6, 0.0, s * z), (-0.0, p * a / 6.4e6, s * z)]
    for x in (a, a * 1.2, a * 0.95, a * 7, a + 1e-3, a - 1e-3):
        for z in (0.0, -0.0, 1e-12, -1e-9, 1e-7, 1e-5, -1e-3, 1.0):
            for lon in ((1, 0), (-1, 0), (0, 1), (0, -1), (-1, -0.0), (0.6, -0.8)):
                pts.append((x * lon[0], x * lon[1], z * a / 6.4e6))
    p = np.array(pts).T
    keep = R.dist3(p, (0, 0, 0)) > 1.25 * el.E
    return [c[keep] for c in p]


def forward(ctx, ells, dense):
    s = spec("geodetic2ecef")
    thick = T.grid(T.LAT, T.LON, np.concatenate([T.ALT, T.ALT_FAR]))
    engine.run_value(ctx, s, thick, ells, ("arr", "rad", "2d"), o_fwd)
    if dense:
        engine.run_value(ctx, s, T.dense(181, 97), ells[:2], ("arr", "rad"), o_fwd)


def inverse(ctx, ells, far, dense):
    s = spec("ecef2geodetic")
    for e in ells:
        el = engine.el_ref(e)
        sc = float(el.a) / 6378137.0
        alts = (np.concatenate([T.ALT, T.ALT_FAR]) if far else T.ALT) * sc
        pts = T.cat(positions(T.LAT, T.LON, alts, el), axis_points(el))
        # run_value rescales lengths by the ellipsoid: undo
        engine.run_value(ctx, s, [c / sc for c in pts], [e], ("arr", "rad", "2d"), o_inv)
        if dense:
            pts = positions(np.linspace(-90, 90, 181), np.linspace(-180, 180, 97), np.array([0.0, 777.25]) * sc, el)
            engine.run_value(ctx, s, [c / sc for c in pts], [e], ("arr",), o_inv)


def scalars(ctx, ells, modes, full):
    f, g = spec("geodetic2ecef"), spec("ecef2geodetic")
    lats, lons = (T.LAT, T.LON) if full else (T.LAT_S, T.LON_S)
    alts = np.array([0.0, 200.0, -1000.0, 1e4, 3e5, -1e6])
    for e in ells:
        el = engine.el_ref(e)
        sc = float(el.a) / 6378137.0
        engine.run_value(ctx, f, T.grid(lats, lons, alts[[1, 2]] if not full else alts), [e], modes, o_fwd)
        pts = T.cat(positions(lats, lons[::1 if full else 2], alts * sc if full else alts[[0, 1, 2, 5]] * sc, el),
                    axis_points(el))
        engine.run_value(ctx, g, [c / sc for c in pts], [e], modes, o_inv)


def sizes(ctx):
    """every array length up to a bound, so that size-dependent handling is reached"""
    s, g = spec("geodetic2ecef"), spec("ecef2geodetic")
    lat, lon, alt = T.dense(91, 61, (0.0, 1500.0))
    el = engine.el_ref(None)
    pts = [np.asarray(c, float) for c in R.geodetic2ecef(R.rad(lat), R.rad(lon), R.ld(alt), el)]
    ns = list(range(1, 70)) + [99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025,
                               2048, 4096, 4097, 8191, 10000]
    for n in ns:
        engine.run_value(ctx, s, [c[:n] for c in (lat, lon, alt)], [None], ("arr",), o_fwd)
        engine.run_value(ctx, g, [c[:n] for c in pts], [None], ("arr",), o_inv)


def tasks(tier):
    th = tier == "thorough"
    ells = T.ellipsoids("all")
    out = [("sizes", sizes, {})]
    k = 6
    for i in range(0, len(ells), k):
        out.append((f"forward-{i}", forward, {"ells": ells[i:i + k], "dense": th or i == 0}))
        out.append((f"inverse-{i}", inverse, {"ells": ells[i:i + k], "far": True, "dense": th or i == 0}))
    some = T.ellipsoids("all" if th else "few")
    for e in some:
        out.append((f"scalar-{e}", scalars, {"ells": [e], "modes": ("py", "pyrad", "std", "stdrad"), "full": th}))
    out.append(("np0", scalars, {"ells": [None, "mars"], "modes": ("np0", "noastro"), "full": th}))
    return out
