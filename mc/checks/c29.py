"""Exhaustive evaluation of the n-vector navigation functions on all ordered pairs, triples and quadruples of an alphabet of unit
vectors (axes, diagonals, poles, opposite, nearly equal and nearly opposite ones) x fractions x radii x (float, NumPy scalar, array
and NumPy-free calls), against great-circle geometry in 80-bit arithmetic.
State: tuple of vectors; transition: one call; trace: one compared result."""
import importlib
import itertools

import numpy as np

import engine
import lattices as T
import refmodel as R

L = R.L
EPS = R.EPS
M = "pymap3d"


def alphabet(k):
    out = []
    for la, lo in [(0, 0), (90, 0), (0, 90), (-90, 33), (42, -82), (-33.5, 151.25), (0, 180), (42, 98), (60.25, -179.9), (0, -90), (-42, 98), (10, 10), (10.000001, 10),
                   (89.9999, 120), (-60, 30), (0, 1e-9), (35.2643896, 45), (0, 179.9999), (42 + 1e-10, -82), (-1e-6, 1e-6), (75, 75), (-15, 15), (1, 91), (20, 181), (-89.999999, 10), (33.3, 209.9), (-42.0000001, 98),
                   (5, 5), (50, -50), (-70, 170), (45, 135), (23.4, 270.01)][:k]:
        a, o = R.rad(la), R.rad(lo)
        v = [np.cos(a) * np.cos(o), np.cos(a) * np.sin(o), np.sin(a)]
        out.append(tuple(0.0 if abs(x) < L(1e-18) else float(x) for x in v))
    return out


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def norm(a):
    return np.sqrt(dot(a, a))


def unit(a):
    r = norm(a)
    with np.errstate(all="ignore"):
        return [x / r for x in a]


def radius_of(r):
    if r is not None:
        return L(r)
    el = engine.el_ref(None)
    return (el.a * el.a * el.b) ** (L(1) / 3)


def calls(name, cols, kw, mode):
    """list of result columns"""
    f = getattr(importlib.import_module(M), name)
    if mode == "arr":
        r = f(*[c.copy() for c in cols], **kw)
        return [np.asarray(x, float) for x in (r if isinstance(r, tuple) else (r,))]
    rows = list(zip(*[c.tolist() for c in cols]))
    if mode == "std":
        res = engine.remote("std", [(M, name, r, kw, "none") for r in rows])
        for r, g in zip(rows, res):
            if isinstance(g, tuple) and g and isinstance(g[0], str):
                raise engine.Bad(f"{name}{r} {kw} without NumPy: {g[1:]}")
    elif mode == "np0":
        res = [f(*[np.float64(v) for v in r], **kw) for r in rows]
    else:
        res = [f(*r, **kw) for r in rows]
    res = [r if isinstance(r, tuple) else (r,) for r in res]
    return list(np.array(res, float).T)


def tuples(k, n):
    """columns of all ordered n-tuples of the first k vectors"""
    return [np.array(c, float) for c in zip(*[sum(t, ()) for t in itertools.product(alphabet(k), repeat=n)])]


def space(n, extra=0, shift=0):
    """columns of n pairs of vectors (and `extra` further ones) filling the space of all of them"""
    c = T.kron(n, [(-1, 1), (-np.pi, np.pi)] * (2 + extra), shift)
    out = []
    for z, t in zip(c[::2], c[1::2]):
        z, t = R.ld(z), R.ld(t)
        h = np.sqrt(1 - z * z)
        out += [np.asarray(x, float) for x in (h * np.cos(t), h * np.sin(t), z)]
    return out


LADDER = [m * 10.0 ** -e for e in range(0, 10) for m in (1, 3, 6)]


def ladder(k, extra=0):
    """columns of pairs (a, b) with b at every separation of a ladder from a, or from the point opposite to a, in four directions, followed by
    `extra` further vectors of the alphabet"""
    al = alphabet(k)
    rows = []
    for j, v in enumerate(al):
        a = unit([R.ld(x) for x in v])
        e = unit(cross([L(0), L(0), L(1)], a)) if abs(v[2]) < 0.999999 else [L(1), L(0), L(0)]
        e = unit([x - dot(e, a) * y for x, y in zip(e, a)])
        n = cross(a, e)
        for i, w in enumerate(LADDER):
            for q in range(4):
                az = R.rad(90 * q + (37 if (i + j) % 2 else 0))
                for side in (1, -1):
                    t = [np.cos(az) * x + np.sin(az) * y for x, y in zip(n, e)]
                    b = unit([side * np.cos(L(w)) * x + np.sin(L(w)) * y for x, y in zip(a, t)])
                    r = v + tuple(float(x) for x in b)
                    if not extra:
                        rows.append(r)
                    else:
                        rows += [r + sum(p, ()) for p in itertools.product(al[(i + j) % 5::5], repeat=extra)]
    return [np.array(c, float) for c in zip(*rows)]


def triple(cols, i):
    return [R.ld(c) for c in cols[3 * i:3 * i + 3]]


def report(ctx, name, cols, kw, mode, out, q, ref):
    q = np.where(np.isnan(q), np.inf, q)
    ctx.add(states=len(q) if mode == "py" else 0, transitions=1 if mode == "arr" else len(q), traces=len(q))
    f = q[np.isfinite(q)]
    ctx.extra["worst_" + name] = max(ctx.extra.get("worst_" + name, 0), round(float(f.max()), 3) if f.size else 0)
    i = int(np.argmax(q))
    if not q[i] <= 1:
        ctx.viol(f"{name}({', '.join(repr(float(c[i])) for c in cols)}) {kw} {mode}: {[float(o[i]) for o in out]}, expected {[float(np.broadcast_to(r, q.shape)[i]) for r in ref]} "
                 f"({q[i]:.3g} tolerances; {int((q > 1).sum())} cases)", function=name)


def distance(ctx, k, modes, radii, source=tuples):
    cols = source(k, 2) if source is tuples else source(k)
    a, b = triple(cols, 0), triple(cols, 1)
    w = np.arctan2(norm(cross(a, b)), dot(a, b))
    for r in radii:
        for m in modes:
            kw = {} if r is None else {"radius": r}
            out = calls("nvector_distance", cols, kw, m)
            d = radius_of(r) * w
            tol = float(radius_of(r)) * (6e-16 + 6e-16 * w.astype(float) + (1e-8 * w.astype(float) if r is None else 0))
            q = np.abs(out[0] - d).astype(float) / tol
            q = np.where(out[0] >= 0, q, np.inf)
            report(ctx, "nvector_distance", cols, kw, m, out, q, [d])
            if source is not tuples:
                continue
            n = len(alphabet(k))
            D = out[0].reshape(n, n)
            if not np.array_equal(D, D.T) and not np.all(np.abs(D - D.T) <= 4e-16 * float(radius_of(r))):
                ctx.viol(f"nvector_distance is not symmetric {kw} {m}")
    from pymap3d import rsphere
    d0 = calls("nvector_distance", cols, {}, "py")[0]
    d1 = calls("nvector_distance", cols, {"radius": rsphere.eqavol()}, "py")[0]
    ctx.add(transitions=2 * len(d0), traces=len(d0))
    if not np.allclose(d0, d1, rtol=1e-14, atol=0):
        ctx.viol("nvector_distance: the default radius is not rsphere.eqavol()")


FR = [0.0, 1e-12, 0.1, 0.25, 1 / 3, 0.5, 0.75, 0.999999, 1.0]


def interpolate(ctx, k, modes, fr, source=tuples):
    base = source(k, 2) if source is tuples else source(k)
    cols = [np.tile(c, len(fr)) for c in base] + [np.repeat(np.array(fr), len(base[0]))]
    a, b, t = triple(cols, 0), triple(cols, 1), R.ld(cols[6])
    w = np.arctan2(norm(cross(a, b)), dot(a, b))
    keep = np.asarray(R.PI - w > 1e-3)
    cols = [c[keep] for c in cols]
    a, b, t, w = triple(cols, 0), triple(cols, 1), t[keep], w[keep]
    s = np.sin(w)
    with np.errstate(all="ignore"):
        ref = [np.where(w < 1e-15, p, (np.sin((1 - t) * w) * p + np.sin(t * w) * q) / np.where(s == 0, 1, s)) for p, q in zip(a, b)]
    ref = unit(ref)
    tol = EPS * (6 + 4 / np.maximum(np.sin(np.maximum(w, R.PI / 2)).astype(float), 1e-6) ** 2)
    for m in modes:
        out = calls("nvector_interpolate", cols, {}, m)
        q = R.dist3(out, ref).astype(float) / tol
        q = np.maximum(q, np.abs(norm([R.ld(o) for o in out]) - 1).astype(float) / (4 * EPS))
        report(ctx, "nvector_interpolate", cols, {}, m, out, q, ref)


def cross_track(ctx, k, modes, radii, source=tuples):
    cols = source(k, 3) if source is tuples else source(k, 1)
    a, b, p = (triple(cols, i) for i in range(3))
    c = cross(a, b)
    ok = np.asarray(norm(c) > 1e-7)
    cols = [x[ok] for x in cols]
    a, b, p = (triple(cols, i) for i in range(3))
    c = cross(a, b)
    nc = norm(c)
    c = unit(c)
    w = np.arctan2(dot(c, p), norm(cross(c, p)))
    for r in radii:
        for m in modes:
            kw = {} if r is None else {"radius": r}
            out = calls("nvector_cross_track_distance", cols, kw, m)
            R0 = float(radius_of(r))
            d = radius_of(r) * w
            tol = R0 * (8e-16 + 6e-16 / nc.astype(float) + (1e-8 * np.abs(w).astype(float) if r is None else 0))
            report(ctx, "nvector_cross_track_distance", cols, kw, m, out, np.abs(out[0] - d).astype(float) / tol, [d])


def intersection(ctx, k, modes, part, parts, source=tuples):
    cols = [c[part::parts] for c in (source(k, 4) if source is tuples else source(k, 2))]
    v = [triple(cols, i) for i in range(4)]
    c1, c2 = cross(v[0], v[1]), cross(v[2], v[3])
    n1, n2 = norm(c1), norm(c2)
    x = cross(unit(c1), unit(c2))
    ok = np.asarray((n1 > 1e-7) & (n2 > 1e-7) & (np.nan_to_num(norm(x).astype(float)) > 1e-7))
    cols = [c[ok] for c in cols]
    v = [triple(cols, i) for i in range(4)]
    c1, c2 = cross(v[0], v[1]), cross(v[2], v[3])
    n1, n2 = norm(c1), norm(c2)
    x = cross(unit(c1), unit(c2))
    nx = norm(x)
    s = [sum(p[i] for p in v) for i in range(3)]
    u = unit(x)
    side = dot(u, s)
    ref = [np.where(side < 0, -p, p) for p in u]
    tol = (EPS * 8 * (1 + 1 / n1 + 1 / n2) / nx).astype(float)
    amb = np.abs(side).astype(float) < 1e-12 + 10 * tol
    for m in modes:
        out = calls("nvector_intersection", cols, {}, m)
        q = R.dist3(out, ref).astype(float)
        q = np.where(amb, np.minimum(q, R.dist3(out, [-p for p in ref]).astype(float)), q) / tol
        q = np.maximum(q, np.abs(norm([R.ld(o) for o in out]) - 1).astype(float) / (4 * EPS))
        report(ctx, "nvector_intersection", cols, {}, m, out, q, ref)


def mean(ctx, k, size):
    from pymap3d import nvector_mean
    al = alphabet(k)
    n = 0
    std = []
    for j in range(1, size + 1):
        for s in itertools.combinations_with_replacement(al, j):
            S = [sum(R.ld([v[i] for v in s])) for i in range(3)]
            r = norm(S)
            if r < 1e-3:
                continue
            ref = [x / r for x in S]
            tol = 6e-16 * (1 + j / float(r))
            orders = [s, s[::-1], s[1:] + s[:1]] if j > 1 else [s]
            for o in orders:
                c = [list(x) for x in zip(*o)]
                for kind, arg in (("list", c), ("tuple", [tuple(x) for x in c]), ("array", [np.array(x) for x in c])):
                    if kind != "list" and o is not s:
                        continue
                    out = nvector_mean(*arg)
                    n += 1
                    d = float(R.dist3(out, ref))
                    if not d <= tol:
                        ctx.viol(f"nvector_mean({c}) as {kind}: {[float(x) for x in out]}, expected {[float(x) for x in ref]} ({d / tol:.3g} tolerances)")
            std.append((c, ref, tol))
    for (c, ref, tol), g in zip(std, engine.remote("std", [(M, "nvector_mean", tuple(c), {}, "none") for c, _, _ in std])):
        n += 1
        try:
            d = float(R.dist3(g, ref))
        except Exception:
            d = np.inf
        if not d <= tol:
            ctx.viol(f"nvector_mean({c}) without NumPy: {g}")
    ctx.add(states=len(std), transitions=n, traces=n)


def tasks(tier):
    th = tier == "thorough"
    MO = ("py", "np0", "arr", "std")
    K = 20
    rad = [None, 1.0, 6371000.0, 3389500.0]
    out = [("distance", distance, {"k": 32, "modes": MO, "radii": rad}), ("interpolate", interpolate, {"k": 32 if th else K, "modes": ("py", "np0", "std"), "fr": FR}),
           ("mean", mean, {"k": 14 if th else 11, "size": 5 if th else 4})]
    lk = 12 if th else 6
    out += [("distance-ladder", distance, {"k": lk, "modes": MO, "radii": rad[:2], "source": ladder}),
            ("interpolate-ladder", interpolate, {"k": lk, "modes": ("py", "np0", "std"), "fr": FR, "source": ladder}),
            ("cross-track-ladder", cross_track, {"k": lk, "modes": MO, "radii": rad[:2], "source": ladder})]
    n = 30000 if th else 3000
    out += [("distance-fill", distance, {"k": n, "modes": MO, "radii": rad, "source": space}),
            ("interpolate-fill", interpolate, {"k": n // 3, "modes": ("py", "np0", "std"), "fr": FR + [float(v) for v in T.kron(20, [(0, 1)])[0]] if th else FR[2:7] + [0.9, 0.04, 0.61],
                                               "source": space}),
            ("cross-track-fill", cross_track, {"k": n, "modes": MO, "radii": rad, "source": space}),
            ("intersection-fill", intersection, {"k": n, "modes": ("py", "std"), "part": 0, "parts": 1, "source": space})]
    out += [(f"intersection-ladder-{i}", intersection, {"k": lk, "modes": ("py", "std"), "part": i, "parts": 2, "source": ladder}) for i in range(2)]
    for r in rad:
        out.append((f"cross-track-{r}", cross_track, {"k": 32 if th else K, "modes": MO if r in (None, 1.0) else ("arr", "py"), "radii": [r]}))
    P = 8
    for i in range(P):
        out.append((f"intersection-{i}", intersection, {"k": 22 if th else 15, "modes": ("py", "std") if not th else ("py", "np0", "std"), "part": i, "parts": P}))
    return out
