"""For every public function with a deg flag: exhaustive deviation-bounded exploration (every pair of argument values) of calls in
degrees and the corresponding calls in radians, differentially: lengths, vectors and matrices must agree and angles must agree
after conversion; omitting the flag must equal deg=True bit for bit.  State: (function, options, ellipsoid, arguments);
transition: one call; trace: one compared pair."""
import math

import numpy as np

import api
import engine
import lattices as T
from api import spec
from checks import common as C

NAMES = [s.key for s in api.SPECS + api.ASTRO if s.deg]
# degree-native functions: the radian call converts to degrees and back, one more rounding of each angle
NATIVE = {"geodesic_inverse", "geodesic_direct", "geodesic_line", "euler"}
# ill-conditioned by nature: cancellation of the ray equation
LOOSE = {"lookAtSpheroid": 500}


def angle_tol(s, radvals):
    return 8e-16 * (1 + np.abs(radvals)) if s.name not in NATIVE else 1e-14 * (1 + np.abs(radvals))


def close(s, kinds, dd, rr, cols, el):
    """error over tolerance of one result row set; dd in degrees, rr in radians"""
    q = np.zeros(np.shape(dd[0]))
    # longitudes count by the distance they stand for
    lat = [np.radians(d) for k, d in zip(kinds, dd) if k == "lat"]
    lon_i = [i for i, k in enumerate(kinds) if k == "lon"]
    shrink = {i: np.abs(np.cos(la)) for i, la in zip(lon_i, lat)} if s.name in NATIVE or s.name in LOOSE else {}
    f = LOOSE.get(s.name, 1)
    big = sum(np.abs(np.radians(c)) for c, (_, k) in zip(cols, s.args) if k in api.ANGLES) if s.angle_args() else 0
    # the azimuth from one point to another close by depends on the last digits of the angles
    near = 1.0
    c4 = {a: np.radians(c) for c, (a, _) in zip(cols, s.args)} if {"lat1", "lon1", "lat2", "lon2"} <= {a for a, _ in s.args} else None
    if c4 and s.key != "lox.departure":
        with np.errstate(all="ignore"):
            dl = np.remainder(c4["lon2"] - c4["lon1"] + np.pi, 2 * np.pi) - np.pi
            sep = np.hypot(c4["lat2"] - c4["lat1"], np.cos(c4["lat1"]) * dl)
            near = np.where(sep < 1e-3, 0.2 / np.maximum(sep, 1e-300), 1.0)
    scale = sum(np.abs(c) for c, (_, k) in zip(cols, s.args) if k in api.LENGTHS or k in ("x", "y", "z")) + float(el.a)
    for i, (k, d, r) in enumerate(zip(kinds, dd, rr)):
        with np.errstate(all="ignore"):
            if k in api.ANGLES:
                t = angle_tol(s, np.abs(r) + big) * (near if k == "az" else 1)
                e = np.abs(np.radians(d) - r)
                e = np.where(np.isinf(d) & np.isinf(r) & (d == r), 0, e)
                e = np.minimum(e, np.abs(e - 2 * np.pi))
                if i in shrink:
                    e = e * shrink[i]
            elif k in ("unit", "u1"):
                t = 1e-15 * (4 + big)
                e = np.abs(d - r)
            else:
                t = (4e-16 if s.name not in NATIVE else 1e-14) * (scale + np.abs(d)) * (2 + big)
                e = np.abs(d - r)
            v = e / (t * f * (near if s.name == "euler" else 1))
        both = np.isnan(d) & np.isnan(r)
        v = np.where(both, 0, np.where(np.isnan(v), np.inf, v))
        q = np.maximum(q, v)
    return q


def valid(s, row):
    """excludes only documented invalid inputs"""
    return True


def rowmode(f, rows, kw, ell, s):
    out = []
    for row in rows:
        try:
            r = engine.flat(f(*row, **kw), 0)
            r = [x for v in r for x in np.atleast_1d(np.asarray(v, float)).ravel()]
        except (ValueError, ArithmeticError) as e:
            r = type(e).__name__
        out.append(r)
    return out


def explore(ctx, name, d, ells, scalar):
    s = spec(name)
    tup = s.tuples(d)
    for ell in (ells if s.ell else [None]):
        el = engine.el_ref(ell)
        sc = float(el.a) / api.A0 if s.ell else 1.0
        kinds = [k for _, k in s.args]
        rows = [tuple(v * sc if k in api.LENGTHS else v for v, k in zip(t, kinds)) for t in tup]
        rrows = [tuple(math.radians(v) if k in api.ANGLES else v for v, k in zip(t, kinds)) for t in rows]
        for o in s.opt_combos():
            kw = dict(o)
            if s.ell:
                kw["ell"] = engine.ellipsoid(ell)
            ctx.add(states=len(rows))
            f = s.fn()
            nt = [i for i, k in enumerate(kinds) if k == "t"]
            if s.arr and not scalar and not nt:
                cols = T.cols_of(rows)
                dd = [np.asarray(x, float) for x in engine.flat(f(*[c.copy() for c in cols], deg=True, **kw), 0)]
                df = [np.asarray(x, float) for x in engine.flat(f(*[c.copy() for c in cols], **kw), 0)]
                rr = [np.asarray(x, float) for x in engine.flat(f(*[np.radians(c) if k in api.ANGLES else c.copy() for c, k in zip(cols, kinds)],
                                                                 deg=False, **kw), 0)]
                ctx.add(transitions=3, traces=len(rows))
                if any(not np.array_equal(a, b, equal_nan=True) for a, b in zip(dd, df)):
                    ctx.viol(f"{name} {o} ell={ell}: omitting deg differs from deg=True")
                ok = engine.out_kinds(s)
                q = close(s, ok, [np.broadcast_to(x, cols[0].shape) for x in dd], [np.broadcast_to(x, cols[0].shape) for x in rr], cols, el)
            else:
                D = rowmode(f, rows, {**kw, "deg": True}, ell, s)
                F = rowmode(f, rows, kw, ell, s)
                X = rowmode(f, rrows, {**kw, "deg": False}, ell, s)
                ctx.add(transitions=3 * len(rows), traces=len(rows))
                q = np.zeros(len(rows))
                for i, (a, b, c) in enumerate(zip(D, F, X)):
                    if not (a == b or (len(a) == len(b) and all(u == v or (u != u and v != v) for u, v in zip(a, b)))):
                        ctx.viol(f"{name}{rows[i]} {o}: omitting deg gives {b}, deg=True gives {a}")
                    if isinstance(a, str) or isinstance(c, str):
                        q[i] = 0 if a == c else np.inf
                        continue
                    if len(a) != len(c):
                        q[i] = np.inf
                        continue
                    ok = engine.out_kinds(s)
                    if len(ok) != len(a):
                        ok = [k for k in ok for _ in range(len(a) // len(ok))]
                    cc = [np.float64(v) if k != "t" else 0.0 for v, k in zip(rows[i], kinds)]
                    q[i] = float(np.max(close(s, ok, [np.float64(v) for v in a], [np.float64(v) for v in c], cc, el)))
            w = q[np.isfinite(q)]
            if w.size:
                ctx.extra["worst_ratio"] = max(ctx.extra.get("worst_ratio", 0), round(float(w.max()), 4))
            for i in np.flatnonzero(q > 1)[:3]:
                dv = f(*rows[i], deg=True, **kw) if True else None
                rv = f(*rrows[i], deg=False, **kw)
                ctx.viol(f"{name}{rows[i]} {o} ell={ell}: degrees {dv}, radians {rv} (error {q[i]:.3g} tolerances, {int((q > 1).sum())} cases)")
            ctx.sample({"call": name, "args": rows[len(rows) // 2][:8] if not nt else str(rows[len(rows) // 2]), "opts": o})


def std(ctx, names):
    """same comparison in the installation without NumPy"""
    for name in names:
        s = spec(name)
        if not s.std or s in api.ASTRO:
            continue
        kinds = [k for _, k in s.args]
        rows = s.tuples(1)
        ok = engine.out_kinds(s)
        for o in s.opt_combos():
            for ell in (None, "mars") if s.ell else ("none",):
                D = engine.remote("std", [(s.mod, s.name, r, {**o, "deg": True}, ell) for r in rows])
                F = engine.remote("std", [(s.mod, s.name, r, o, ell) for r in rows])
                X = engine.remote("std", [(s.mod, s.name, tuple(math.radians(v) if k in api.ANGLES else v for v, k in zip(r, kinds)),
                                           {**o, "deg": False}, ell) for r in rows])
                ctx.add(states=len(rows), transitions=3 * len(rows), traces=len(rows))
                el = engine.el_ref(ell if ell != "none" else None)
                for r, a, b, c in zip(rows, D, F, X):
                    if a != b and repr(a) != repr(b):
                        ctx.viol(f"{name}{r} {o} without NumPy: omitting deg gives {b}, deg=True {a}")
                    if isinstance(a, tuple) and a and a[0] == "!exc":
                        if not (isinstance(c, tuple) and c and c[:2] == a[:2]):
                            ctx.viol(f"{name}{r} {o} without NumPy: {a} in degrees but {c} in radians")
                        continue
                    a2, c2 = engine.flat(a, 0), engine.flat(c, 0)
                    a2 = [x for v in a2 for x in np.atleast_1d(v).ravel()]
                    c2 = [x for v in c2 for x in np.atleast_1d(v).ravel()] if not (c2 and c2[0] == "!exc") else []
                    k2 = ok if len(ok) == len(a2) else [k for k in ok for _ in range(len(a2) // len(ok))]
                    if len(a2) != len(c2) or not float(np.max(close(s, k2, [np.float64(v) for v in a2], [np.float64(v) for v in c2],
                                                                    [np.float64(v) if k != "t" else 0.0 for v, k in zip(r, kinds)], el))) <= 1:
                        ctx.viol(f"{name}{r} {o} ell={ell} without NumPy: degrees {a}, radians {c}")


def aggregate(ctx):
    """functions of whole point sets"""
    import pymap3d.karney as K
    import pymap3d.lox as X
    polys = []
    al = [(0.0, 0.0), (10.0, 5.0), (-33.5, 179.0), (60.25, -82.0), (42.0, 13.7), (89.0, 120.0), (-1e-3, 1e-3)]
    import itertools
    for k in (3, 4):
        polys += list(itertools.permutations(al, k))
    for p in polys:
        la, lo = [float(a) for a, _ in p], [float(b) for _, b in p]
        for ell in (None, "mars"):
            kw = {} if ell is None else {"ell": engine.ellipsoid(ell)}
            A, P = K.geodesic_area(la, lo, **kw)
            rla, rlo = [math.radians(v) for v in la], [math.radians(v) for v in lo]
            B, Q = K.geodesic_area(rla, rlo, deg=False, **kw)
            ctx.add(states=1, transitions=2, traces=2)
            if not abs(P - Q) <= 1e-7:
                ctx.viol(f"geodesic_area({la}, {lo}): perimeter {P} in degrees, {Q} in radians")
            el = engine.el_ref(ell)
            tot = 4 * math.pi * float(el.a) ** 2
            if not (abs(A - B) <= 1e-14 * tot):
                ctx.viol(f"geodesic_area({la}, {lo}) ell={ell}: area {A} in degrees, {B} in radians")
        la, lo = np.array(la), np.array(lo)
        a = X.meanm(la, lo)
        b = X.meanm(np.radians(la), np.radians(lo), deg=False)
        ctx.add(states=1, transitions=2, traces=1)
        if not (abs(math.radians(a[0]) - b[0]) < 1e-14 and abs(math.radians(a[1]) - b[1]) < 1e-13):
            ctx.viol(f"meanm({la.tolist()}, {lo.tolist()}): {a} in degrees, {b} in radians")


def tasks(tier):
    th = tier == "thorough"
    out = [("aggregate", aggregate, {})]
    ells = T.ellipsoids("some") if th else [None, "saturn", "mars"]
    for n in NAMES:
        s = spec(n)
        heavy = s in api.ASTRO
        d = (3 if not heavy and len(s.args) < 8 else 2) if th else (2 if not heavy else 1)
        out.append((f"array-{n}", explore, {"name": n, "d": d, "ells": ells, "scalar": False}))
        if s.arr and not heavy:
            out.append((f"scalar-{n}", explore, {"name": n, "d": 2 if len(s.args) < 7 else (2 if th else 1), "ells": ells[:1], "scalar": True}))
    for g in C.chunks(NAMES, 20):
        out.append((f"std-{g[0]}", std, {"names": g}))
    return out
