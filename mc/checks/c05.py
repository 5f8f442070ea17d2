"""Exhaustive deviation-bounded exploration and full observer x direction x distance products of all azimuth/elevation/range
conversions, every ellipsoid and call mode, against the line of sight of the extended-precision model (a component below 1 mm
may be zeroed); ranges [0, 360] and [-90, 90] and finiteness checked in every state."""
import numpy as np

import engine
import lattices as T
import refmodel as R
from checks import common as C

FR = ("enu", "ned", "nwu", "sez")
NAMES = [f"{f}2aer" for f in FR] + [f"aer2{f}" for f in FR] + ["ecef2aer", "aer2ecef", "geodetic2aer", "aer2geodetic"]
MAG = np.array([0.0, 1e-9, 1e-4, 9.9e-4, 1.1e-3, 0.05, 1.0, 333.25, 1e6, 1e12])
COMP = np.concatenate([MAG, -MAG[1:]])


def octants(ctx, fr, modes):
    cols = T.grid(COMP, COMP, COMP)
    C.cols_task(ctx, f"{fr}2aer", cols, [None], modes)


def directions(ctx, fr):
    az = np.concatenate([np.linspace(-720, 720, 193), T.pm(1e-9, 359.9999999, 360 - 1e-12, 1e-15)])
    el = np.concatenate([np.linspace(-90, 90, 61), [1e-9, 89.9999999, -89.9999999]])
    C.cols_task(ctx, f"aer2{fr}", T.grid(az, el, [0.0, 1e-3, 1000.0, 1e12]), [None], ("arr", "rad", "2d"))
    C.cols_task(ctx, f"aer2{fr}", T.grid(az[::6], el[::5], [1000.0]), [None], C.SC_MODES)


def prod(ctx, e, k1, k2, modes=("arr", "rad"), rng=None):
    el = engine.el_ref(e)
    sc = float(el.a) / 6378137.0
    lat0, lon0, h0, az, elv, r = C.product(C.obs(k1), C.disp(k2, rng))
    xyz = R.enu2ecef(*R.aer2enu(R.rad(az), R.rad(elv), R.ld(r) * sc), R.rad(lat0), R.rad(lon0), h0 * sc, el)
    o = [lat0, lon0, h0]
    C.cols_task(ctx, "aer2ecef", [az, elv, r] + o, [e], modes)
    C.cols_task(ctx, "ecef2aer", [np.asarray(c, float) / sc for c in xyz] + o, [e], modes)
    ok = np.asarray(R.dist3(xyz, (0, 0, 0)) > 1.3 * el.E + 1e-3 * el.a, bool)
    C.cols_task(ctx, "aer2geodetic", [c[ok] for c in [az, elv, r] + o], [e], modes)
    g = [np.asarray(c, float) for c in R.ecef2geodetic(*xyz, el)]
    ok &= np.isfinite(g[2])
    C.cols_task(ctx, "geodetic2aer", [c[ok] for c in [np.degrees(g[0]), np.degrees(g[1]), g[2] / sc] + o], [e], modes)


def tasks(tier):
    th = tier == "thorough"
    out = []
    for e in (T.ellipsoids("some") if th else [None, "saturn"]):
        out.append((f"product-{e}", prod, {"e": e, "k1": 3 if th else 8, "k2": 1 if th else 2}))
        out.append((f"scalars-{e}", prod, {"e": e, "k1": 9 if th else 37, "k2": 7 if th else 23, "modes": C.SC_MODES, "rng": C.NEAR + list(C.RNG)}))
    for fr in FR:
        out.append((f"octants-{fr}", octants, {"fr": fr, "modes": ("arr", "rad", "2d", "py", "stdrad") + (("std", "pyrad", "np0") if th else ())}))
        out.append((f"directions-{fr}", directions, {"fr": fr}))
    return out + C.family(NAMES, tier)
