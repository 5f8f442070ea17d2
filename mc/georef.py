"""Geodesic reference: geographiclib (C) through pyproj, used as an independent oracle; surface points in extended precision."""
from __future__ import annotations

import numpy as np
import pyproj

import engine
import refmodel as R

_g = {}


def geod(ell):
    a, b = engine.el_axes(ell)
    if (a, b) not in _g:
        _g[(a, b)] = pyproj.Geod(a=a, b=b) if a != b else pyproj.Geod(a=a, f=0.0)
    return _g[(a, b)]


def inv(ell, la1, lo1, la2, lo2):
    """distance, azimuth at 1, forward azimuth at 2 (degrees)"""
    az1, az2, s = geod(ell).inv(np.array(lo1, float), np.array(la1, float), np.array(lo2, float), np.array(la2, float))
    return np.asarray(s), np.asarray(az1), np.asarray(az2) + 180.0


def fwd(ell, la, lo, az, s):
    lo2, la2, baz = geod(ell).fwd(np.array(lo, float), np.array(la, float), np.array(az, float), np.array(s, float))
    return np.asarray(la2), np.asarray(lo2), np.asarray(baz) + 180.0


def pos(ell, la, lo):
    return R.geodetic2ecef(R.rad(la), R.rad(lo), 0 * R.ld(la), engine.el_ref(ell))


def gap(ell, la1, lo1, la2, lo2):
    """distance in metres between two surface points given in degrees"""
    return R.dist3(pos(ell, la1, lo1), pos(ell, la2, lo2)).astype(float)


def direction(la, lo, az):
    """unit vector in space of an azimuth at a point (degrees)"""
    return R.enu2ecefv(np.sin(R.rad(az)), np.cos(R.rad(az)), 0 * R.ld(az), R.rad(la), R.rad(lo))


def turn(la1, lo1, az1, la2, lo2, az2):
    """angle between two directions"""
    return R.dist3(direction(la1, lo1, az1), direction(la2, lo2, az2)).astype(float)


def rows(cols):
    return list(zip(*[np.asarray(c, float).tolist() for c in cols]))


def call(mod, name, rr, kw, ell, mode):
    """scalar calls; angles given and returned in degrees whatever the mode ('py', 'pyrad', 'std', 'stdrad')"""
    import importlib
    import math
    ang, lens, outs = SHAPES[name]
    if mode.endswith("rad"):
        kw = dict(kw, deg=False)
        rr = [tuple(math.radians(v) if i in ang else v for i, v in enumerate(r)) for r in rr]
    if mode.startswith("std"):
        res = engine.remote("std", [(mod, name, r, kw, ell) for r in rr])
        for r, g in zip(rr, res):
            if isinstance(g, tuple) and g and isinstance(g[0], str):
                raise engine.Bad(f"{name}{r} raised {g[1:]} without NumPy")
    else:
        f = getattr(importlib.import_module(mod), name)
        e = engine.ellipsoid(ell)
        res = [f(*r, ell=e, **kw) for r in rr]
    a = np.array(res, dtype=float)
    if mode.endswith("rad"):
        d = np.array(rr, float)
        given = [np.asarray(R.deg(d[:, i]), float) if i in ang else d[:, i] for i in range(d.shape[1])]
        a = np.column_stack([np.asarray(R.deg(a[:, i]), float) if k else a[:, i] for i, k in enumerate(outs)])
    else:
        given = list(np.array(rr, float).T)
    return given, [a[:, i] for i in range(a.shape[1])]


# argument positions that are angles; ...; which outputs are angles
SHAPES = {"geodesic_inverse": ({0, 1, 2, 3}, (), (0, 1, 1)), "geodesic_direct": ({0, 1, 2}, (), (1, 1, 1)),
          "vdist": ({0, 1, 2, 3}, (), (0, 1)), "vreckon": ({0, 1, 3}, (), (1, 1))}


def note(ctx, key, q):
    q = np.asarray(q, float)
    q = q[np.isfinite(q)]
    if q.size:
        ctx.extra[key] = max(ctx.extra.get(key, 0), round(float(q.max()), 4))


def worst(q):
    q = np.where(np.isnan(q), np.inf, q)
    return int(np.argmax(np.where(np.isfinite(q), q, 1e300))), int(np.sum(~(q <= 1)))
