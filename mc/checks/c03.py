"""Exhaustive deviation-bounded exploration (every pair, in the thorough tier every triple, of arguments over special-value
alphabets) and full observer x direction x distance products of all position conversions between ECEF/geodetic and
ENU/NED/NWU/SEZ, every ellipsoid, array/2-D/radian/scalar/NumPy-free call modes, against an extended-precision model built
from the physical axes.  State: (function, ellipsoid, arguments); transition: library call; trace: compared input."""
import numpy as np

import engine
import refmodel as R
from api import spec
from checks import common as C
import oracles
import lattices as T

FR = ("enu", "ned", "nwu", "sez")
NAMES = [f"{p}{f}" for f in FR for p in ("ecef2", "geodetic2")] + [f"{f}2{q}" for f in FR for q in ("ecef", "geodetic")]


def prod(ctx, fr, e, k1, k2, modes=("arr", "rad"), rng=None):
    """every observer with every displacement"""
    el = engine.el_ref(e)
    sc = float(el.a) / 6378137.0
    lat0, lon0, h0, az, elv, r = C.product(C.obs(k1), C.disp(k2, rng))
    enu = R.aer2enu(R.rad(az), R.rad(elv), R.ld(r))
    loc = [np.asarray(c, float) for c in R.enu2frame(fr, *enu)]
    xyz = R.enu2ecef(*[c * sc for c in enu], R.rad(lat0), R.rad(lon0), h0 * sc, el)
    x = [np.asarray(c, float) / sc for c in xyz]
    o = [lat0, lon0, h0]
    C.cols_task(ctx, f"{fr}2ecef", loc + o, [e], modes)
    C.cols_task(ctx, f"ecef2{fr}", x + o, [e], modes)
    core = R.dist3(xyz, (0, 0, 0)) < 1.3 * el.E + 1e-3 * el.a
    ok = ~np.asarray(core, bool)
    C.cols_task(ctx, f"{fr}2geodetic", [c[ok] for c in loc + o], [e], modes)
    g = [np.asarray(c, float) for c in R.ecef2geodetic(*xyz, el)]
    ok &= np.isfinite(g[2])
    C.cols_task(ctx, f"geodetic2{fr}", [c[ok] for c in [np.degrees(g[0]), np.degrees(g[1]), g[2] / sc] + o], [e], modes)


def tasks(tier):
    th = tier == "thorough"
    out = []
    for fr in FR:
        for e in (T.ellipsoids("some") if th else [None, "saturn"]):
            out.append((f"product-{fr}-{e}", prod, {"fr": fr, "e": e, "k1": 3 if th else 12, "k2": 1 if th else 3}))
            # plain numbers, with and without NumPy: targets from closer than a millimetre to far away
            out.append((f"scalars-{fr}-{e}", prod, {"fr": fr, "e": e, "k1": 9 if th else 37, "k2": 7 if th else 23, "modes": C.SC_MODES,
                                                    "rng": C.NEAR + list(C.RNG)}))
    return out + C.family(NAMES, tier)
