"""Exhaustive evaluation of geodesic_line and track2 on the product of end-point pairs (special latitudes x longitude differences,
antimeridian, polar, meridional, equatorial, coincident, tiny, nearly antipodal for geodesic_line) x point counts x ellipsoids x
units x installations; every returned point is compared with the exact geodesic, or - where the shortest path is not unique - the
spacing of all neighbours is.  State: (ellipsoid, pair, count); transition: one call; trace: one compared point."""
import math

import numpy as np

import engine
import georef as G
import lattices as T
import refmodel as R
from checks import c18
from checks.c16 import LADDER, limit, separation, tol_of

ASSUMPTIONS = ["pyproj's geographiclib is right to 15 nm on Earth"]
LATS = [0.0, 1e-9, -0.5, 33.0, -45.0, 60.25, 85.0, -89.99999, 90.0, -90.0]
DL = [0.0, 1e-9, -1e-3, 20.0, -90.0, 120.0, 170.0, -175.0, 179.7, 180.0, -400.0]
NP = [2, 3, 4, 5, 10]


def pairs(kind):
    if kind == "special":
        return G.rows(c18.special(LATS, DL, (0.0, 179.5)))
    if kind == "some":
        return G.rows(c18.special(LATS[::2], DL[::2], (-82.0,)))
    if kind == "near":
        return G.rows(c18.near([0.0, 45.0, -89.9999999, 90.0], c18.TINY[::3]))
    if kind == "antipodal":
        return G.rows(c18.antipodal([0.0, 1e-7, 30.0, 80.0, 89.99, 90.0], c18.TINY[::3]))
    if kind == "default":
        return [(42.0, -82.0, -33.5, 151.0), (0.0, 0.0, 0.0, 90.0), (80.0, 10.0, 80.0, -170.0), (-90.0, 5.0, 42.0, 13.0), (10.0, 179.0, -10.0, -179.0)]
    if kind.startswith("fill"):
        return G.rows(c18.fill(*[int(v) for v in kind.split("-")[1:]]))
    raise KeyError(kind)


def expand(c, npts):
    """all pairs repeated npts times, and the fractions"""
    n = len(c[0])
    return [np.repeat(x, npts) for x in c], np.tile(np.arange(npts) / (npts - 1), n)


def run(ctx, name, kind, counts, ells, mode):
    import importlib
    mod = {"geodesic_line": "pymap3d.karney", "track2": "pymap3d.vincenty"}[name]
    f = getattr(importlib.import_module(mod), name)
    rr = pairs(kind)
    rad = mode.endswith("rad")
    for ell in ells:
        el = engine.el_ref(ell)
        a, fl = float(el.a), float(el.f)
        E = engine.ellipsoid(ell)
        rows = [r for r in rr if name != "track2" or separation(*np.array([r]).T)[0] < limit(fl)]
        for npts in counts:
            kw = {} if npts is None else {"npts": npts}
            k = npts or 100
            given = [tuple(math.radians(v) for v in r) for r in rows] if rad else rows
            if rad:
                kw["deg"] = False
            if mode.startswith("std"):
                res = engine.remote("std", [(mod, name, r, kw, ell) for r in given])
            else:
                res = []
                for r in given:
                    try:
                        res.append(f(*r, **kw) if ell is None else f(*r, ell=E, **kw))
                    except Exception as e:  # noqa: BLE001
                        res.append(("!exc", type(e).__name__, str(e)))
            P = np.full((len(rows), 2, k), np.nan)
            for i, g in enumerate(res):
                try:
                    la, lo = [np.asarray(v, float) for v in g]
                    assert la.shape == (k,) and lo.shape == (k,)
                    P[i, 0], P[i, 1] = la, lo
                except Exception:
                    ctx.viol(f"{name}{given[i]} {kw} ell={ell} {mode}: {str(g)[:200]}, expected two sequences of {k}")
            ctx.add(states=len(rows), transitions=len(rows), traces=len(rows) * k)
            la, lo = P[:, 0].ravel(), P[:, 1].ravel()
            lim = math.pi / 2 if rad else 90.0
            if not np.all(np.abs(np.nan_to_num(la)) <= lim * (1 + 1e-15)):
                ctx.viol(f"{name} ell={ell} {kw}: latitude beyond a pole")
            if rad:
                la, lo = np.asarray(R.deg(la), float), np.asarray(R.deg(lo), float)
            la, lo = np.nan_to_num(la), np.nan_to_num(lo)
            c = list(np.array(given, float).T)
            if rad:
                c = [np.asarray(R.deg(x), float) for x in c]
            full, fr = expand(c, k)
            rs, ra, _ = G.inv(ell, *c)
            if name == "track2":
                # near the antipode a change of the end moves the middle more
                sep = np.radians(separation(*c))
                tol = np.repeat(2 * tol_of(el, c[0], c[2]) * np.where(sep > 1.5, 1 / np.maximum(np.sin(sep), 0.01), 1), k)
            else:
                tol = np.repeat(0 * rs + 1e-7 * a / 6.4e6 * (1 + 10 * fl), k)
            ea, eo, _ = G.fwd(ell, full[0], full[1], np.repeat(ra, k), np.repeat(rs, k) * fr)
            q = G.gap(ell, la, lo, ea, eo) / tol
            # not unique or ill conditioned: end points, and equal spacing adding up to the shortest distance
            amb = np.repeat(separation(*c) > 178.0 - 320 * fl, k)
            ends = G.gap(ell, la, lo, np.where(fr == 0, full[0], full[2]), np.where(fr == 0, full[1], full[3])) / tol
            lm = la.reshape(-1, k)
            om = lo.reshape(-1, k)
            if k > 2:
                st = G.inv(ell, lm[:, :-1].ravel(), om[:, :-1].ravel(), lm[:, 1:].ravel(), om[:, 1:].ravel())[0].reshape(-1, k - 1)
                sp = np.abs(st - rs[:, None] / (k - 1)).max(axis=1)
                sp = np.repeat(sp, k) / (2 * tol)
            else:
                sp = 0 * q
            q = np.where((fr == 0) | (fr == 1), np.maximum(np.where(amb, 0, q), ends), np.where(amb, 0, q))
            q = np.maximum(q, sp)
            G.note(ctx, "worst_ratio_" + name, q)
            i, n = G.worst(q)
            if n:
                ctx.viol(f"{name}{given[i // k]} {kw} ell={ell} {mode}: point {i % k} is ({la[i]!r}, {lo[i]!r}) degrees, expected ({ea[i]!r}, {eo[i]!r}); "
                         f"{q[i]:.3g} tolerances, spacing {sp[i]:.3g} ({n} points)")


def one(ctx):
    """a single point (allowed by geodesic_line) is the start"""
    from pymap3d.karney import geodesic_line
    for r in pairs("some"):
        la, lo = geodesic_line(*r, npts=1)
        ctx.add(states=1, transitions=1, traces=1)
        if len(la) != 1 or len(lo) != 1 or G.gap(None, la, lo, [r[0]], [r[1]])[0] > 1e-7:
            ctx.viol(f"geodesic_line{r} npts=1: {la}, {lo}")


def tasks(tier):
    th = tier == "thorough"
    alle = T.ellipsoids("all") + LADDER
    four = [None, "mars", "jupiter", (6371000.0, 6371000.0)]
    every = list(range(2, 41)) + [50, 99, 100, 101]
    out = [("one", one, {})]
    for n in ("geodesic_line", "track2"):
        for e in (alle if th else four):
            out.append((f"{n}-special-{e}", run, {"name": n, "kind": "special", "counts": NP if th or n == "track2" else [2, 3, 5], "ells": [e], "mode": "py"}))
        out.append((f"{n}-rad", run, {"name": n, "kind": "special" if th else "some", "counts": NP + [None], "ells": [None, "moon"], "mode": "pyrad"}))
        out.append((f"{n}-all", run, {"name": n, "kind": "some", "counts": [3, 6], "ells": alle, "mode": "py"}))
        out.append((f"{n}-counts", run, {"name": n, "kind": "default", "counts": every + [None], "ells": [None, "mars"], "mode": "py"}))
        out.append((f"{n}-near", run, {"name": n, "kind": "near", "counts": [2, 3, 7], "ells": [None, "mars"], "mode": "py"}))
    for k, (n, e, m) in enumerate(((n, e, m) for n in ("geodesic_line", "track2") for e in (None, "mars") for m in ("py", "pyrad"))):
        out.append((f"{n}-fill-{e}-{m}", run, {"name": n, "kind": f"fill-{4000 if th else 400}-{k}", "counts": [3, 7] if th else [5], "ells": [e], "mode": m}))
    out.append(("geodesic_line-antipodal", run, {"name": "geodesic_line", "kind": "antipodal", "counts": [2, 3, 4, 9] if th else [2, 4], "ells": [None, "mars"], "mode": "py"}))
    for m in ("std", "stdrad"):
        out.append((f"geodesic_line-{m}", run, {"name": "geodesic_line", "kind": "special" if th else "some", "counts": [2, 3, 6, None], "ells": [None, "mars"], "mode": m}))
    return out
