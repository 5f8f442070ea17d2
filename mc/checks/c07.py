"""Exhaustive deviation-bounded and full-product exploration of the downrange/crossrange/above conversions, every ellipsoid and
call mode, against the heading-rotated local frame of the extended-precision model."""
import numpy as np

import engine
import lattices as T
import refmodel as R
from checks import common as C

NAMES = ["enu2dca", "dca2enu", "dca2ned", "ned2dca", "ecef2dca", "dca2ecef", "geodetic2dca", "dca2geodetic", "aer2dca", "dca2aer"]
V = np.array([0.0, 5e-4, -2e-3, 1.0, -333.25, 1e6, -4e8])
HEAD = np.array([0.0, 45.0, 90.0, 135.5, 180.0, 225.0, 270.0, 359.9999, 360.0, -1e-9, -90.0, -200.25, 400.0, 1085.0])


def local(ctx, name):
    cols = T.grid(V, V, V, HEAD)
    C.cols_task(ctx, name, cols, [None], ("arr", "rad", "2d", "np0", "py", "stdrad"))


def aer(ctx):
    C.cols_task(ctx, "aer2dca", T.grid(C.AZ, C.ELV, C.RNG, HEAD), [None], ("arr", "rad", "2d", "std"))


def prod(ctx, e, k1, k2, modes=("arr", "rad"), rng=None):
    el = engine.el_ref(e)
    sc = float(el.a) / 6378137.0
    lat0, lon0, h0, az, elv, r, hd = C.product(C.obs(k1), C.disp(k2, rng), [HEAD[[1, 4, 6, 11]]])
    enu = R.aer2enu(R.rad(az), R.rad(elv), R.ld(r))
    d = [np.asarray(c, float) for c in R.enu2dca(*enu, R.rad(hd))]
    xyz = R.enu2ecef(*[c * sc for c in enu], R.rad(lat0), R.rad(lon0), h0 * sc, el)
    o = [lat0, lon0, h0, hd]
    C.cols_task(ctx, "dca2ecef", d + o, [e], modes)
    C.cols_task(ctx, "ecef2dca", [np.asarray(c, float) / sc for c in xyz] + o, [e], modes)
    ok = np.asarray(R.dist3(xyz, (0, 0, 0)) > 1.3 * el.E + 1e-3 * el.a, bool)
    C.cols_task(ctx, "dca2geodetic", [c[ok] for c in d + o], [e], modes)
    g = [np.asarray(c, float) for c in R.ecef2geodetic(*xyz, el)]
    ok &= np.isfinite(g[2])
    C.cols_task(ctx, "geodetic2dca", [c[ok] for c in [np.degrees(g[0]), np.degrees(g[1]), g[2] / sc] + o], [e], modes)


def tasks(tier):
    th = tier == "thorough"
    out = [(f"local-{n}", local, {"name": n}) for n in ("enu2dca", "dca2enu", "dca2ned", "ned2dca", "dca2aer")] + [("aer", aer, {})]
    for e in (T.ellipsoids("some") if th else [None, "saturn"]):
        out.append((f"product-{e}", prod, {"e": e, "k1": 4 if th else 16, "k2": 1 if th else 4}))
        out.append((f"scalars-{e}", prod, {"e": e, "k1": 14 if th else 53, "k2": 11 if th else 31, "modes": C.SC_MODES, "rng": C.NEAR + list(C.RNG)}))
    return out + C.family(NAMES, tier)
