"""Exhaustive evaluation of meridian_arc, meridian_dist and departure on the products of all latitude pairs (to the poles, coincident,
tiny differences) and of all longitude pairs (incl. full turns, half turns, antimeridian) with latitudes x ellipsoids incl. a ladder of
flattenings x call modes, against quadrature of the meridian radius and the exact parallel in 80-bit arithmetic; additivity over all
triples, symmetry and full-turn invariance.  State: (ellipsoid, arguments); transition: one call; trace: one compared length."""
import itertools

import numpy as np

import engine
import lattices as T
import refmodel as R
from api import spec

A = 6378137.0
LADDER = [(A, A), (A, A * (1 - 1e-6)), (A, A * 0.999), (A, A * (1 - 1 / 170)), (A, A * 0.99), (A, A * 0.98)]
EPSL = T.pm(1e-13, 1e-10, 1e-7, 1e-4, 0.01)


def arc_tol(el, s):
    a, f = float(el.a), float(el.f)
    return a * (1.2e-15 + 0.013 * f ** 4 * np.minimum(1, 0.3 + s / a)) + 1.2e-15 * s


def arc(args, el, o):
    p = [R.ld(v) for v in args]
    if len(p) == 1:
        p = [0 * p[0], p[0]]
    # quadrature over the interval itself keeps tiny arcs exact
    half = (p[1] - p[0]) / 2
    t = p[0][..., None] + half[..., None] * (1 + R._GX)
    s = np.abs(np.sum(R.meridian_radius(t, el) * R._GW, axis=-1) * half)
    return {"kind": "list", "ref": [s], "tol": [arc_tol(el, s.astype(float))]}


def dep(args, el, o):
    l1, l2, p = [R.ld(v) for v in args]
    r = el.a * np.cos(p) / np.sqrt(1 - el.e2 * np.sin(p) ** 2)
    d = np.abs(R.wrap(l2 - l1)) * r
    m = np.abs(l1).astype(float) + np.abs(l2).astype(float)
    return {"kind": "list", "ref": [d], "tol": [r.astype(float) * (2e-15 + 5e-16 * m) + 7e-16 * float(el.a)]}


ORACLE = {"meridian_arc": arc, "meridian_dist": arc, "departure": dep}


def run(ctx, name, axes, ells, modes):
    engine.run_value(ctx, spec("lox." + name), T.grid(*axes) if isinstance(axes, tuple) else T.kron(*axes), ells, modes, ORACLE[name])


def near(ctx, ells, modes):
    p, e = T.grid(T.LAT, EPSL)
    q = np.clip(p + e, -90, 90)
    engine.run_value(ctx, spec("lox.meridian_arc"), [p, q], ells, modes, arc, label="tiny")


def laws(ctx, lats, lons, ells):
    """additivity, symmetry, evenness, order and full turns on the real code"""
    import pymap3d.lox as X
    for e in ells:
        E, el = engine.ellipsoid(e), engine.el_ref(e)
        a, f = float(el.a), float(el.f)
        x = np.array(sorted(lats))
        i, j = np.meshgrid(np.arange(len(x)), np.arange(len(x)), indexing="ij")
        m = X.meridian_arc(x[i.ravel()], x[j.ravel()], E).reshape(i.shape)
        d = X.meridian_dist(x, E)
        ctx.add(states=m.size + x.size, transitions=2)
        bad = []
        tol = a * 3e-15
        if not np.all(m >= 0):
            bad.append("negative")
        if not np.all(np.abs(m - m.T) <= tol):
            bad.append("not symmetric")
        if not np.all(np.abs(m - m[::-1, ::-1]) <= tol) and np.all(x == -x[::-1]):
            bad.append("differs in the other hemisphere")
        if not np.all(np.abs(np.where(np.sign(x[i]) * np.sign(x[j]) < 0, d[i] + d[j], np.abs(d[i] - d[j])) - m) <= tol):
            bad.append("meridian_arc is not the sum or difference of meridian_dist")
        n = 0
        for p, q, r in itertools.combinations(range(len(x)), 3):
            n += 1
            if not abs(m[p, q] + m[q, r] - m[p, r]) <= tol:
                bad.append(f"arcs {x[p]}..{x[q]}..{x[r]} add to {m[p, q] + m[q, r]!r}, not {m[p, r]!r}")
                break
        ctx.add(traces=n)
        l1, l2, la = T.grid(lons, lons, lats[::3])
        D = X.departure(l1, l2, la, E)
        tol = a * 1e-14
        for what, v in (("order", X.departure(l2, l1, la, E)), ("turn of the first", X.departure(l1 + 360, l2, la, E)), ("turns of the second", X.departure(l1, l2 - 720, la, E)),
                        ("reflection", X.departure(-l1, -l2, la, E)), ("hemisphere", X.departure(l1, l2, -la, E)), ("shift", X.departure(l1 + 64, l2 + 64, la, E))):
            ctx.add(states=l1.size, transitions=1, traces=l1.size)
            k = int(np.argmax(np.abs(v - D)))
            if not abs(v[k] - D[k]) <= tol:
                bad.append(f"departure({l1[k]!r}, {l2[k]!r}, {la[k]!r}) = {D[k]!r} but {v[k]!r} under {what}")
        for b in bad:
            ctx.viol(f"ell={e}: {b}")


def tasks(tier):
    th = tier == "thorough"
    M = ("arr", "rad", "2d")
    S = ("py", "pyrad", "std", "stdrad", "np0", "2drad")
    alle = T.ellipsoids("all") + LADDER
    dense = np.linspace(-90, 90, 181 if not th else 721)
    out = []
    for i in range(4):
        out.append((f"arc-{i}", run, {"name": "meridian_arc", "axes": (T.LAT, T.LAT), "ells": alle[i::4], "modes": M}))
        out.append((f"dist-{i}", run, {"name": "meridian_dist", "axes": (np.concatenate([T.LAT, dense]),), "ells": alle[i::4], "modes": M + S}))
        out.append((f"departure-{i}", run, {"name": "departure", "axes": (T.LON, T.LON, T.LAT if th else T.LAT_S), "ells": alle[i::4], "modes": M}))
        out.append((f"tiny-{i}", near, {"ells": alle[i::4], "modes": M}))
    for i in range(8):
        out.append((f"arc-dense-{i}", run, {"name": "meridian_arc", "axes": (dense[::2], dense[::2]), "ells": ([None, "mars", "saturn"] if not th else alle)[i::8], "modes": ("arr",)}))
    out.append(("arc-scalars", run, {"name": "meridian_arc", "axes": (T.LAT_S, T.LAT_S), "ells": [None, "mars", "jupiter"], "modes": S}))
    out.append(("departure-scalars", run, {"name": "departure", "axes": (T.LON_S, T.LON_S, T.LAT_S[::2]), "ells": [None, "mars"], "modes": S}))
    for n, k in (("meridian_arc", ["lat", "lat"]), ("departure", ["lon", "lon", "lat"])):
        out.append((f"{n}-fill", run, {"name": n, "axes": [60000 if th else 6000, k], "ells": [None, "mars", "moon", "saturn"], "modes": M[:2]}))
        out.append((f"{n}-fill-scalars", run, {"name": n, "axes": [6000 if th else 1000, k, 1], "ells": [None], "modes": S}))
    out.append(("laws", laws, {"lats": list(T.LAT_S), "lons": list(T.LON), "ells": alle}))
    return out
