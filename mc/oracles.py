"""Reference results and tolerances per public conversion function (reference model of refmodel.py)."""
from __future__ import annotations

import numpy as np

import refmodel as R

EPS = R.EPS
POLE = 1.5e-8


def _maxang(*angs):
    m = 0.0
    for a in angs:
        m = np.maximum(m, np.abs(np.asarray(a, float)))
    return m


def _vec(v, scale, angs=()):
    return {"kind": "vec", "ref": v, "tol": EPS * np.asarray(scale, float) * (8 + 4 * _maxang(*angs))}


def _geo(xyz, scale, el, angs=()):
    # geodetic positions inside the evolute have no unique height
    return {"kind": "geo", "ref": xyz, "skip": np.asarray(norm(xyz) <= 1.3 * el.E + 1e-3 * el.a, bool), "tol": POLE + EPS * np.asarray(scale, float) * (8 + 40 * float(el.f) + 4 * _maxang(*angs))}


def _aer(enu, scale, angs=()):
    return {"kind": "aer", "ref": enu, "tol": EPS * np.asarray(scale, float) * (10 + 4 * _maxang(*angs))}


def norm(v):
    return R.dist3(v, (0 * v[0], 0 * v[1], 0 * v[2]))


FR = ("enu", "ned", "nwu", "sez")


def oracle(name):
    """oracle(ref_args, el, opts) for the public function `name`"""
    # ---- frame to/from position
    for fr in FR:
        if name == f"ecef2{fr}":
            def f(a, el, o, fr=fr):
                x, y, z, lat0, lon0, h0 = a
                e, n, u = R.ecef2enu(x, y, z, lat0, lon0, h0, el)
                return _vec(R.enu2frame(fr, e, n, u), norm((x, y, z)) + el.a + np.abs(h0), (lat0, lon0))
            return f
        if name == f"{fr}2ecef":
            def f(a, el, o, fr=fr):
                p, q, r, lat0, lon0, h0 = a
                enu = R.frame2enu(fr, p, q, r)
                return _vec(R.enu2ecef(*enu, lat0, lon0, h0, el), norm(enu) + el.a + np.abs(h0), (lat0, lon0))
            return f
        if name == f"{fr}2geodetic":
            def f(a, el, o, fr=fr):
                p, q, r, lat0, lon0, h0 = a
                enu = R.frame2enu(fr, p, q, r)
                return _geo(R.enu2ecef(*enu, lat0, lon0, h0, el), norm(enu) + el.a + np.abs(h0), el, (lat0, lon0))
            return f
        if name == f"geodetic2{fr}":
            def f(a, el, o, fr=fr):
                lat, lon, h, lat0, lon0, h0 = a
                x = R.geodetic2ecef(lat, lon, h, el)
                e, n, u = R.ecef2enu(*x, lat0, lon0, h0, el)
                return _vec(R.enu2frame(fr, e, n, u), 2 * el.a + np.abs(h0) + np.abs(h), (lat0, lon0, lat, lon))
            return f
        if name == f"ecef2{fr}v":
            def f(a, el, o, fr=fr):
                u, v, w, lat0, lon0 = a
                return _vec(R.enu2frame(fr, *R.ecefv2enu(u, v, w, lat0, lon0)), norm((u, v, w)) + 1e-300, (lat0, lon0))
            return f
        if name == f"{fr}2ecefv":
            def f(a, el, o, fr=fr):
                p, q, r, lat0, lon0 = a
                enu = R.frame2enu(fr, p, q, r)
                return _vec(R.enu2ecefv(*enu, lat0, lon0), norm(enu) + 1e-300, (lat0, lon0))
            return f
        if name in (f"ecef2{fr}_matrix", f"{fr}2ecef_matrix"):
            def f(a, el, o, fr=fr, inv=name.startswith(fr)):
                E, N, U = R.enu_axes(*a)
                neg = [tuple(-c for c in v) for v in (E, N, U)]
                rows = {"enu": (E, N, U), "ned": (N, E, neg[2]), "nwu": (N, neg[0], U), "sez": (neg[1], E, U)}[fr]
                m = R.transpose(rows) if inv else rows
                t = EPS * (4 + 4 * _maxang(*a))
                return {"kind": "list", "ref": [x for r in m for x in r], "tol": [t] * 9}
            return f
        # ---- line of sight
        if name == f"{fr}2aer":
            def f(a, el, o, fr=fr):
                enu = R.frame2enu(fr, *a)
                return _aer(enu, norm(enu) + 1e-300)
            return f
        if name == f"aer2{fr}":
            def f(a, el, o, fr=fr):
                az, elv, r = a
                return _vec(R.enu2frame(fr, *R.aer2enu(az, elv, r)), np.abs(r) + 1e-300, (az, elv))
            return f
        # ---- body
        if name == f"{fr}2body":
            def f(a, el, o, fr=fr):
                return _vec(R.frame2body(fr, *a), norm(a[:3]) * 2 + 1e-300, a[3:])
            return f
        if name == f"body2{fr}":
            def f(a, el, o, fr=fr):
                return _vec(R.body2frame(fr, *a), norm(a[:3]) * 2 + 1e-300, a[3:])
            return f
        if name in (f"{fr}2body_matrix", f"body2{fr}_matrix"):
            def f(a, el, o, fr=fr, inv=name.startswith("body2")):
                one, zero = np.ones_like(a[0]), np.zeros_like(a[0])
                cols = [R.frame2body(fr, *[one if i == j else zero for i in range(3)], *a) for j in range(3)]
                m = cols if inv else R.transpose(cols)    # column j is the image of axis j
                t = EPS * (8 + 4 * _maxang(*a))
                return {"kind": "list", "ref": [x for r in m for x in r], "tol": [t] * 9}
            return f
    if name == "body_matrix":
        return oracle("ned2body_matrix")
    if name == "uvw2enu":
        return oracle("ecef2enuv")
    if name == "enu2uvw":
        return oracle("enu2ecefv")
    if name == "ecef2aer":
        def f(a, el, o):
            x, y, z, lat0, lon0, h0 = a
            return _aer(R.ecef2enu(*a, el), norm((x, y, z)) + el.a + np.abs(h0), (lat0, lon0))
        return f
    if name == "geodetic2aer":
        def f(a, el, o):
            lat, lon, h, lat0, lon0, h0 = a
            x = R.geodetic2ecef(lat, lon, h, el)
            return _aer(R.ecef2enu(*x, lat0, lon0, h0, el), 2 * el.a + np.abs(h0) + np.abs(h), (lat0, lon0, lat, lon))
        return f
    if name in ("aer2ecef", "aer2geodetic"):
        def f(a, el, o, geo=name.endswith("geodetic")):
            az, elv, r, lat0, lon0, h0 = a
            x = R.enu2ecef(*R.aer2enu(az, elv, r), lat0, lon0, h0, el)
            sc = np.abs(r) + el.a + np.abs(h0)
            angs = (az, elv, lat0, lon0)
            return _geo(x, sc, el, angs) if geo else _vec(x, sc, angs)
        return f
    # ---- body with observer
    if name in ("ecef2body", "geodetic2body"):
        def f(a, el, o, geo=name.startswith("geodetic")):
            x = R.geodetic2ecef(*a[:3], el) if geo else a[:3]
            lat0, lon0, h0 = a[3:6]
            e, n, u = R.ecef2enu(*x, lat0, lon0, h0, el)
            angs = (lat0, lon0) + tuple(a[6:]) + (tuple(a[:2]) if geo else ())
            return _vec(R.frame2body("enu", e, n, u, *a[6:]), 2 * (norm(x) + el.a + np.abs(h0)), angs)
        return f
    if name in ("body2ecef", "body2geodetic"):
        def f(a, el, o, geo=name.endswith("geodetic")):
            lat0, lon0, h0 = a[3:6]
            enu = R.body2frame("enu", *a[:3], *a[6:])
            x = R.enu2ecef(*enu, lat0, lon0, h0, el)
            sc = 2 * norm(enu) + el.a + np.abs(h0)
            angs = (lat0, lon0) + tuple(a[6:])
            return _geo(x, sc, el, angs) if geo else _vec(x, sc, angs)
        return f
    if name == "ecef2bodyv":
        def f(a, el, o):
            enu = R.ecefv2enu(*a[:5])
            return _vec(R.frame2body("enu", *enu, *a[5:]), 2 * norm(a[:3]) + 1e-300, a[3:])
        return f
    if name == "body2ecefv":
        def f(a, el, o):
            enu = R.body2frame("enu", *a[:3], *a[5:])
            return _vec(R.enu2ecefv(*enu, *a[3:5]), 2 * norm(a[:3]) + 1e-300, a[3:])
        return f
    # ---- downrange, crossrange, above
    if name in ("enu2dca", "ned2dca"):
        def f(a, el, o, fr=name[:3]):
            enu = R.frame2enu(fr, *a[:3])
            return _vec(R.enu2dca(*enu, a[3]), norm(enu) + 1e-300, a[3:])
        return f
    if name in ("dca2enu", "dca2ned"):
        def f(a, el, o, fr=name[-3:]):
            return _vec(R.enu2frame(fr, *R.dca2enu(*a)), norm(a[:3]) + 1e-300, a[3:])
        return f
    if name in ("ecef2dca", "geodetic2dca"):
        def f(a, el, o, geo=name.startswith("geodetic")):
            x = R.geodetic2ecef(*a[:3], el) if geo else a[:3]
            e = R.ecef2enu(*x, *a[3:6], el)
            angs = tuple(a[3:5]) + (a[6],) + (tuple(a[:2]) if geo else ())
            return _vec(R.enu2dca(*e, a[6]), norm(x) + el.a + np.abs(a[5]), angs)
        return f
    if name in ("dca2ecef", "dca2geodetic"):
        def f(a, el, o, geo=name.endswith("geodetic")):
            enu = R.dca2enu(*a[:3], a[6])
            x = R.enu2ecef(*enu, *a[3:6], el)
            sc = norm(enu) + el.a + np.abs(a[5])
            angs = tuple(a[3:5]) + (a[6],)
            return _geo(x, sc, el, angs) if geo else _vec(x, sc, angs)
        return f
    if name == "aer2dca":
        def f(a, el, o):
            return _vec(R.enu2dca(*R.aer2enu(*a[:3]), a[3]), np.abs(a[2]) + 1e-300, (a[0], a[1], a[3]))
        return f
    if name == "dca2aer":
        def f(a, el, o):
            enu = R.dca2enu(*a)
            return _aer(enu, norm(enu) + 1e-300, (a[3],))
        return f
    raise KeyError(name)
