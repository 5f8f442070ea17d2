"""Exhaustive evaluation of every mean-radius function over every ellipsoid (catalogue, custom, and a ladder of flattenings in
which each order of a series is distinguishable) x methods x latitudes x point pairs x call modes against the definitions in
extended precision (meridian quadrature, authalic closed form, geodesic azimuth of geographiclib).  State: (function, method,
ellipsoid, arguments); transition: one call; trace: one compared value."""
import math

import numpy as np

import engine
import lattices as T
import refmodel as R
from api import spec
from checks.c24 import LADDER
from checks.c25 import LATS

EPS = R.EPS
SMALL = [(6378137.0, 6378137.0 * (1 - f)) for f in (1e-14, 1e-12, 1e-9, 3e-8, 3e-6, 1e-4, 1 / 400, 1 / 200, 1 / 120, 0.013, 0.05, 0.097, 0.15)]
NOARG = [("eqavol", {}), ("authalic", {}), ("rectifying", {})] + [(n, {"method": m}) for n in ("triaxial", "biaxial") for m in ("mean", "norm")] + [
    ("triaxial", {}), ("biaxial", {})]


def reference(name, o, el):
    """(value, tolerance relative)"""
    a, b, f = el.a, el.b, float(el.f)
    m = o.get("method", "mean")
    if name == "eqavol":
        return (a * a * b) ** (R.L(1) / 3), 0.12 * f ** 3
    if name == "authalic":
        if el.e2 == 0:
            return a, 0
        if el.e2 < 1e-6:
            v = a * np.sqrt(1 - el.e2 / 3 - el.e2 ** 2 / 15 - el.e2 ** 3 / 35)
        else:
            v = np.sqrt(a * a / 2 + b * b / 2 * np.arctanh(el.e) / el.e)
        return v, 2 * EPS / float(el.e)
    if name == "rectifying":
        return R.meridian_arc(R.PI / 2, el) / (R.PI / 2), 0.002 * f ** 4
    if name == "triaxial":
        return ((2 * a + b) / 3 if m == "mean" else (a * a * b) ** (R.L(1) / 3)), 0
    if name == "biaxial":
        return ((a + b) / 2 if m == "mean" else np.sqrt(a * b)), 0
    raise KeyError(name)


def constants(ctx, ells):
    import pymap3d.rsphere as RS
    for ell in ells:
        el = engine.el_ref(ell)
        e = engine.ellipsoid(ell)
        for name, o in NOARG:
            ref, rel = reference(name, o, el)
            got = [getattr(RS, name)(e, **o), getattr(RS, name)(ell=e, **o)]
            if ell is None:
                got.append(getattr(RS, name)(**o))
            r = engine.remote("std", [("pymap3d.rsphere", name, (), o, ell)])[0]
            got.append(float("nan") if isinstance(r, tuple) and r[0] == "!exc" else r)
            ctx.add(states=1, transitions=len(got), traces=len(got))
            for g in got:
                q = abs(float(g - ref)) / (float(ref) * (rel + 8 * EPS))
                ctx.extra["worst_ratio"] = max(ctx.extra.get("worst_ratio", 0), round(q, 4) if q == q else 0)
                if not q <= 1:
                    ctx.viol(f"rsphere.{name}({o}) ell={ell} = {g!r}, expected {float(ref)!r}", result=[float(v) for v in got])
                lim = 1e-15 + (2 * EPS / float(el.e) if el.e2 else 0)
                if not float(el.b) * (1 - lim) <= g <= float(el.a) * (1 + lim):
                    ctx.viol(f"rsphere.{name}({o}) ell={ell} = {g!r} is not between the semiaxes")
    ctx.sample({"ells": len(ells), "functions": [n for n, _ in NOARG]})


def o_curve(args, el, o):
    x = args[0]
    M, N = R.meridian_radius(x, el), R.prime_vertical(x, el)
    ref = (M + N) / 2 if o.get("method", "mean") == "mean" else np.sqrt(M * N)
    return {"kind": "list", "ref": [ref], "tol": [np.asarray(ref * EPS * 12 / float(1 - el.e2) ** 2, float)]}


def curve(ctx, ells, modes, n):
    s = spec("rsphere.curve")
    engine.run_value(ctx, s, [LATS(n)], ells, modes, o_curve, opts=[{}, {"method": "mean"}, {"method": "norm"}])


PLAT = np.array([0.0, 1e-6, 33.5, -42.25, 60.0, 89.0, -89.9, 90.0, -90.0, 0.75])
PLON = np.array([0.0, -82.0, 13.7, 91.5, 179.5, -170.0, 1e-5])


def pairs(limit=178.0):
    la1, lo1, la2, lo2 = T.grid(PLAT, [0.0, -82.0, 179.5], PLAT, PLON)
    u = [np.array([np.cos(np.radians(a)) * np.cos(np.radians(o)), np.cos(np.radians(a)) * np.sin(np.radians(o)), np.sin(np.radians(a))])
         for a, o in ((la1, lo1), (la2, lo2))]
    ang = np.degrees(np.arctan2(np.linalg.norm(np.cross(u[0].T, u[1].T), axis=1), np.sum(u[0] * u[1], axis=0)))
    k = (ang < limit)
    return [c[k] for c in (la1, lo1, la2, lo2)], ang[k]


def o_euler(args, el, o):
    import pyproj
    la1, lo1, la2, lo2 = args
    d = [np.asarray(R.deg(v), float) for v in args]
    g = pyproj.Geod(a=float(el.a), b=float(el.b))
    az, _, s = g.inv(d[1], d[0], d[3], d[2])
    s = np.asarray(s)
    az = R.rad(np.asarray(az))
    mid = la1 + (la2 - la1) / 2
    M, N = R.meridian_radius(mid, el), R.prime_vertical(mid, el)
    ref = M * N / (M * np.sin(az) ** 2 + N * np.cos(az) ** 2)
    # azimuth error of the vincenty iteration and of tiny separations
    f = float(el.f)
    daz = 1e-9 + f ** 3 * 30 + 3e-16 * float(el.a) * 10 / np.maximum(s, 1e-9)
    tol = np.asarray(ref, float) * (1e-14 + 3 * f * np.minimum(1, daz))
    # no direction between coincident points, and any direction at a pole
    skip = (s < 1e-6 * float(el.a) / 6.4e6) | (np.abs(np.asarray(la1, float)) > np.pi / 2 - 1e-12)
    # vincenty's method does not serve nearly antipodal points
    from checks.c16 import limit, separation
    skip |= separation(*d) >= limit(f)
    lo_r = np.asarray(np.minimum(M, N), float) * (1 - 1e-14)
    hi_r = np.asarray(np.maximum(M, N), float) * (1 + 1e-14)

    def chk(raw, outs, radm):
        q = np.asarray(np.abs(outs[0] - ref), float) / tol
        ok = (raw[0] >= lo_r) & (raw[0] <= hi_r)
        return np.where(ok, np.where(skip, 0, q), np.inf)
    return {"kind": "fn", "fn": chk, "ref": [ref]}


def euler(ctx, ells, modes, stride):
    c, _ = pairs(175.0)
    engine.run_value(ctx, spec("rsphere.euler"), [x[::stride] for x in c], ells, modes, o_euler)


def euler_fill(ctx, ells, modes, n, shift):
    c = T.kron(n, ["lat", "lon", "lat", "lon"], shift)
    from checks.c16 import separation
    k = separation(*c) < 174
    engine.run_value(ctx, spec("rsphere.euler"), [x[k] for x in c], ells, modes, o_euler)


def tasks(tier):
    th = tier == "thorough"
    ells = T.ellipsoids("all")
    out = [("constants", constants, {"ells": ells + LADDER + SMALL}),
           ("curve", curve, {"ells": ells + LADDER, "modes": ("arr", "rad", "2d"), "n": 18001 if th else 721}),
           ("curve-modes", curve, {"ells": ells if th else [None, "saturn"], "modes": ("py", "pyrad", "std", "stdrad"), "n": 181}),
           ("euler", euler, {"ells": ells if th else [None, "mars", "moon", "clarke1866", (6371000.0, 6371000.0), (6.4e6, 6.272e6)], "modes": ("arr", "rad", "2d"), "stride": 1}),
           ("euler-fill", euler_fill, {"ells": [None, "mars", "clarke1866"], "modes": ("arr", "rad"), "n": 100000 if th else 10000, "shift": 0}),
           ("euler-fill-scalars", euler_fill, {"ells": [None], "modes": ("py", "pyrad", "std"), "n": 5000 if th else 1000, "shift": 1}),
           ("euler-modes", euler, {"ells": [None, "mars"], "modes": ("py", "pyrad", "std", "stdrad"), "stride": 1 if th else 3})]
    return out
