"""Exhaustive evaluation of geodetic2nvector, nvector2geodetic, ecef2nvector and nvector2ecef on the product lattice of latitudes
(to the poles) x longitudes x heights x ellipsoids x call modes, against the outward normal and the geodetic position in 80-bit
arithmetic; n-vectors given to the inverse functions also one rounding step off (every sign pattern).
State: (function, ellipsoid, arguments); transition: one call; trace: one compared vector or position."""
import numpy as np

import engine
import lattices as T
import refmodel as R
from api import spec

EPS = R.EPS
ALTS = [0.0, 1e-3, -1.0, 200.0, -5000.0, 1e4, 1e5, -4e5, 2.02e7, 3.6e7, -1.5e6, 4e8]


def normal(lat, lon):
    return np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)


def o_g2n(args, el, o):
    lat, lon = args
    n = normal(lat, lon)
    tol = EPS * (3 + np.abs(np.asarray(lon, float)) + np.abs(np.asarray(lat, float)))

    def chk(raw, outs, radm):
        ln = np.abs(np.sqrt(sum(R.ld(x) ** 2 for x in raw)) - 1).astype(float) / (4 * EPS)
        return np.maximum(engine.ratio_vec(outs, n, tol), ln)
    return {"kind": "fn", "fn": chk, "ref": n}


def o_n2g(args, el, o):
    r = np.sqrt(sum(x * x for x in args))
    n = [x / r for x in args]

    def chk(raw, outs, radm):
        lim, l2 = (np.pi / 2, np.pi) if radm else (90.0, 180.0)
        bad = ~(np.abs(raw[0]) <= lim) | ~(np.abs(raw[1]) <= l2)
        return np.where(bad, np.inf, engine.ratio_vec(normal(outs[0], outs[1]), n, 6 * EPS))
    return {"kind": "fn", "fn": chk, "ref": n}


def o_e2n(args, el, o):
    lat, lon, alt = R.ecef2geodetic(*args, el)
    n = normal(lat, lon)
    you = R.you_one_step(*args, el)
    ny = normal(you[0], you[1])
    tol = np.asarray(1.5e-8 / np.maximum(el.a + alt, el.a / 10) + EPS * (10 + 60 * el.f), float)

    def chk(raw, outs, radm):
        ln = np.abs(np.sqrt(sum(R.ld(x) ** 2 for x in raw)) - 1).astype(float) / (4 * EPS)
        return np.maximum(engine.ratio_vec(outs, n, tol), ln), np.maximum(engine.ratio_vec(outs, ny, tol), ln)
    return {"kind": "fn2", "fn": chk, "ref": n}


def o_n2e(args, el, o):
    r = np.sqrt(sum(x * x for x in args[:3]))
    n = [x / r for x in args[:3]]
    lat = np.arctan2(n[2], np.hypot(n[0], n[1]))
    lon = np.arctan2(n[1], n[0])
    ref = R.geodetic2ecef(lat, lon, args[3], el)
    return {"kind": "vec", "ref": ref, "tol": EPS * np.asarray(el.a + np.abs(args[3]), float) * 12}


def vectors(lats, lons, wiggle):
    """unit vectors in double precision, optionally one step off in each component"""
    la, lo = T.grid(lats, lons)
    n = [np.asarray(x, float) for x in normal(R.rad(la), R.rad(lo))]
    if not wiggle:
        return n
    out = []
    for s1 in (-1, 0, 1):
        for s2 in (-1, 0, 1):
            for s3 in (-1, 0, 1):
                out.append([np.where(s == 0, x, np.nextafter(x, x + s)) for x, s in zip(n, (s1, s2, s3))])
    return T.cat(*out)


def g2n(ctx, lats, lons, modes):
    engine.run_value(ctx, spec("geodetic2nvector"), T.grid(lats, lons), [None], modes, o_g2n)


def n2g(ctx, lats, lons, wiggle, modes):
    engine.run_value(ctx, spec("nvector2geodetic"), vectors(lats, lons, wiggle), [None], modes, o_n2g)


def e2n(ctx, lats, lons, alts, ells, modes):
    for e in ells:
        a, b = engine.el_axes(e)
        el = engine.el_ref(e)
        la, lo, h = T.grid(lats, lons, np.array(alts) * a / 6378137.0)
        x = [np.asarray(v, float) * 6378137.0 / a for v in R.geodetic2ecef(R.rad(la), R.rad(lo), h, el)]
        engine.run_value(ctx, spec("ecef2nvector"), x, [e], modes, o_e2n)


def n2e(ctx, lats, lons, alts, ells, modes):
    n = vectors(lats, lons, False)
    k = len(alts)
    cols = [np.repeat(x, k) for x in n] + [np.tile(np.array(alts, float), len(n[0]))]
    engine.run_value(ctx, spec("nvector2ecef"), cols, ells, modes, o_n2e)


def fill(ctx, e, modes, n, shift):
    """lattices filling the whole argument space"""
    la, lo, h = T.kron(n, ["lat", "lon", ("log", -1e6, 1e9)], shift)
    el = engine.el_ref(e)
    engine.run_value(ctx, spec("geodetic2nvector"), [la, lo], [None], modes, o_g2n)
    v = [np.asarray(x, float) for x in normal(R.rad(la), R.rad(lo))]
    engine.run_value(ctx, spec("nvector2geodetic"), v, [None], modes, o_n2g)
    engine.run_value(ctx, spec("nvector2ecef"), v + [h], [e], modes, o_n2e)
    a = float(el.a) / 6378137.0
    x = [np.asarray(c, float) / a for c in R.geodetic2ecef(R.rad(la), R.rad(lo), h * a, el)]
    engine.run_value(ctx, spec("ecef2nvector"), x, [e], modes, o_e2n)


def defaults(ctx):
    """nvector2ecef without a height is at height zero, and the four functions chain back to the start"""
    import pymap3d as pm
    la, lo = T.grid(T.LAT, T.LON_S)
    n = [np.asarray(x, float) for x in normal(R.rad(la), R.rad(lo))]
    for e in T.ellipsoids("all"):
        E = engine.ellipsoid(e)
        a = pm.nvector2ecef(*n, ell=E)
        b = pm.nvector2ecef(*n, 0.0, ell=E)
        ctx.add(states=len(la), transitions=2, traces=len(la))
        if not all(np.array_equal(p, q) for p, q in zip(a, b)):
            ctx.viol(f"nvector2ecef without alt differs from alt=0, ell={e}")
        m = pm.ecef2nvector(*a, ell=E)
        d = R.dist3(m, n).astype(float)
        t = 1.6e-8 / engine.el_axes(e)[0] + EPS * (20 + 60 * float(engine.el_ref(e).f))
        i = int(np.argmax(d))
        if not d[i] <= t:
            ctx.viol(f"ecef2nvector(nvector2ecef) moves the n-vector at ({la[i]}, {lo[i]}) by {d[i]:.3g}, ell={e}")


def tasks(tier):
    th = tier == "thorough"
    M, S = ("arr", "rad", "2d"), ("py", "pyrad", "std", "stdrad", "np0", "2drad")
    alle = T.ellipsoids("all")
    LA, LO = (T.LAT, T.LON) if th else (T.LAT, T.LON_S)
    out = [("g2n", g2n, {"lats": T.LAT, "lons": T.LON, "modes": M}), ("g2n-s", g2n, {"lats": T.LAT, "lons": T.LON_S, "modes": S}),
           ("n2g", n2g, {"lats": T.LAT, "lons": T.LON, "wiggle": True, "modes": M}), ("n2g-s", n2g, {"lats": T.LAT_S, "lons": T.LON_S, "wiggle": True, "modes": S}),
           ("g2n-dense", g2n, {"lats": np.linspace(-90, 90, 361), "lons": np.linspace(-180, 180, 145), "modes": M[:2]}),
           ("n2g-dense", n2g, {"lats": np.linspace(-90, 90, 181), "lons": np.linspace(-180, 180, 145), "wiggle": False, "modes": M[:2]}),
           ("e2n-s", e2n, {"lats": T.LAT_S, "lons": T.LON_S, "alts": ALTS[::2], "ells": [None, "mars"], "modes": S}),
           ("n2e-s", n2e, {"lats": T.LAT_S, "lons": T.LON_S, "alts": ALTS[::2], "ells": [None, "mars"], "modes": S}), ("defaults", defaults, {})]
    for k, e in enumerate((None, "mars", "jupiter")):
        out.append((f"fill-{e}", fill, {"e": e, "modes": ("arr", "rad"), "n": 60000 if th else 6000, "shift": k}))
    out.append(("fill-scalars", fill, {"e": None, "modes": S, "n": 4000 if th else 500, "shift": 3}))
    for i in range(7):
        out.append((f"e2n-{i}", e2n, {"lats": LA, "lons": LO, "alts": ALTS, "ells": alle[i::7], "modes": M if th else M[:2]}))
        out.append((f"n2e-{i}", n2e, {"lats": LA, "lons": LO, "alts": ALTS, "ells": alle[i::7], "modes": M if th else M[:2]}))
    return out
