"""Exhaustive evaluation of the radii of curvature and the geocentric radius on the full lattice of latitudes (special,
near-special, dense) x every ellipsoid incl. a ladder of flattenings, in all call modes, against the definitions in extended
precision; evenness; and consistency with finite displacements of geodetic2ecef positions.  State: (function, ellipsoid, latitude);
transition: one call; trace: one compared value."""
import numpy as np

import engine
import lattices as T
import refmodel as R
from api import spec
from checks.c24 import LADDER

EPS = R.EPS


def LATS(n):
    return np.unique(np.concatenate([T.LAT, np.linspace(-90, 90, n), [120.0, -135.5, 180.0, 270.0, 400.25]]))


def oracle(name):
    def f(args, el, o):
        x = args[0]
        N = R.prime_vertical(x, el)
        ref = {"meridian": lambda: R.meridian_radius(x, el), "transverse": lambda: N, "parallel": lambda: N * np.cos(x),
               "geocentric_radius": lambda: np.hypot(N * np.cos(x), N * (el.b / el.a) ** 2 * np.sin(x))}[name]()
        # 1 - e^2 is computed with an absolute error eps: relative error eps/(1 - e^2)
        tol = np.asarray(np.abs(ref) * EPS * 10 / float(1 - el.e2) ** 2, float)
        if name == "parallel":
            tol = tol + np.asarray(el.a * EPS * (2 + 2 * np.abs(x)), float)
        return {"kind": "list", "ref": [ref], "tol": [tol]}
    return f


NAMES = ["meridian", "transverse", "parallel", "geocentric_radius"]


def value(ctx, name, ells, modes, n):
    engine.run_value(ctx, spec("rcurve." + name), [LATS(n)], ells, modes, oracle(name))


def even(ctx, ells):
    for name in NAMES:
        f = spec("rcurve." + name).fn()
        for ell in ells:
            e = engine.ellipsoid(ell)
            for deg in (True, False):
                x = LATS(361) if deg else np.radians(LATS(361))
                a, b = f(x.copy(), ell=e, deg=deg), f(-x, ell=e, deg=deg)
                ctx.add(states=len(x), transitions=2, traces=len(x))
                if not np.all(np.abs(a - b) <= 1e-15 * np.abs(a)):
                    i = int(np.argmax(np.abs(a - b)))
                    ctx.viol(f"{name} differs between latitudes {x[i]!r} and {-x[i]!r}: {a[i]!r}, {b[i]!r} ell={ell}")


def positions(ctx, ells):
    """meridian and parallel radii are the speeds of the position with latitude and longitude; the geocentric radius its length"""
    import pymap3d as pm
    lat = np.linspace(-89.5, 89.5, 180)
    lon = np.linspace(-180, 180, 180)
    for ell in ells:
        e = engine.ellipsoid(ell)
        h = 1e-4

        def pos(la, lo):
            return np.array(pm.geodetic2ecef(la, lo, np.zeros_like(la), e, deg=False))
        la, lo = np.radians(lat), np.radians(lon)
        dm = np.linalg.norm(pos(la + h, lo) - pos(la - h, lo), axis=0) / (2 * h)
        dp = np.linalg.norm(pos(la, lo + h) - pos(la, lo - h), axis=0) / (2 * h)
        r = np.linalg.norm(pos(la, lo), axis=0)
        ctx.add(states=len(lat), transitions=8, traces=3 * len(lat))
        for what, got, want, t in (("meridian", spec("rcurve.meridian").fn()(lat, e), dm, 1e-7), ("parallel", spec("rcurve.parallel").fn()(lat, e), dp, 1e-7),
                                   ("geocentric_radius", spec("rcurve.geocentric_radius").fn()(lat, e), r, 1e-14)):
            q = np.abs(got - want) / want
            if not np.all(q <= t):
                i = int(np.nanargmax(q))
                ctx.viol(f"{what}({lat[i]!r}) = {got[i]!r}, positions of geodetic2ecef give {want[i]!r}, ell={ell}")


def tasks(tier):
    th = tier == "thorough"
    ells = T.ellipsoids("all") + LADDER
    out = []
    for n in NAMES:
        out.append((f"value-{n}", value, {"name": n, "ells": ells, "modes": ("arr", "rad", "2d"), "n": 36001 if th else 1801}))
        out.append((f"modes-{n}", value, {"name": n, "ells": ells if th else [None, "jupiter", (6378137.0, 6378137.0)], "modes": ("py", "pyrad", "std", "stdrad", "np0"),
                                          "n": 181}))
    out.append(("even", even, {"ells": ells}))
    out.append(("positions", positions, {"ells": ells}))
    return out
