"""Exhaustive evaluation of geodesic_area on all ordered polygons of 3 and 4 vertices over point alphabets (poles, equator,
antimeridian, both hemispheres, same meridian), all small polygons at a ladder of scales and places, pole-enclosing and degenerate
polygons, x ellipsoids x container types x units x installations, against geographiclib, plus rotation, reversal, reflection and
full turns of every polygon.  State: (ellipsoid, polygon); transition: one call; trace: one compared area and perimeter."""
import itertools
import math

import numpy as np

import engine
import georef as G
import lattices as T

ASSUMPTIONS = ["pyproj's geographiclib is right to 15 nm and 0.05 m^2 per edge on Earth"]
PTS = [(0.0, 0.0), (10.0, 5.0), (-33.5, 179.0), (60.25, -82.0), (42.0, 13.7), (89.0, 120.0), (-1e-3, 1e-3), (-90.0, 10.0), (0.0, 91.0), (42.0, -166.2), (-60.0, -150.0)]
SHAPES = [[(0, 0), (1, 0), (0, 1)], [(0, 0), (0, 1), (1, 1), (1, 0)], [(0, 0), (1, 0.5), (2, 0)], [(0, 0), (1e-3, 1), (0, 2)], [(-1, -1), (-1, 1), (1, 1), (1, -1)],
          [(0, 0), (0, 3), (1, 1), (3, 0)], [(1, 0), (0, 1), (-1, 0), (0, -1)], [(0, 0), (1, 2), (1, 2), (2, 0)], [(0, 0), (0, 1), (0, 3)],
          [(2, 0), (1, 2), (-1, 2), (-2, 0), (-1, -2), (1, -2)]]
CENTRES = [(0.0, 0.0), (42.0, -82.0), (-33.5, 179.9999), (89.0, 13.0), (-75.0, -180.0), (1e-5, 90.0), (60.0, 359.5)]


def total(ell):
    a, b = engine.el_axes(ell)
    e2 = 1 - (b / a) ** 2
    e = math.sqrt(e2)
    return 2 * math.pi * (a * a + b * b * (math.atanh(e) / e if e else 1.0))


def ref(ell, la, lo):
    """area (clockwise positive), perimeter, whether some edge is nearly antipodal"""
    A, P = G.geod(ell).polygon_area_perimeter(list(lo), list(la))
    if any((lo[i - 1] - lo[i]) % 360 == 180 for i in range(len(la))):
        # half a turn of longitude has two directions, which PROJ mixes up: go over the pole by vertices there
        x, y = [], []
        for i in range(len(la)):
            if (lo[i - 1] - lo[i]) % 360 == 180 and la[i - 1] + la[i]:
                x += [math.copysign(90.0, la[i - 1] + la[i])] * 3
                y += [lo[i - 1], lo[i - 1] + 90.0, lo[i - 1] + 180.0]
            x.append(la[i])
            y.append(lo[i])
        A = G.geod(ell).polygon_area_perimeter(y, x)[0]
    far = False
    for i in range(len(la)):
        j = (i + 1) % len(la)
        p, q = ([math.cos(math.radians(a)) * math.cos(math.radians(b)), math.cos(math.radians(a)) * math.sin(math.radians(b)), math.sin(math.radians(a))]
                for a, b in ((la[i], lo[i]), (la[j], lo[j])))
        far = far or sum(x * y for x, y in zip(p, q)) < -0.98
    return -A, P, far


def diff(x, y, tot):
    d = abs(x - y) % tot
    return min(d, tot - d)


def judge(ctx, ell, la, lo, got, what, r=None):
    A, P, far = r or ref(ell, la, lo)
    n = len(la)
    a = engine.el_axes(ell)[0] / 6378137.0
    tot = total(ell)
    ctx.add(states=1, transitions=1, traces=1)
    try:
        B, Q = float(got[0]), float(got[1])
    except Exception:
        B = Q = math.nan
    dp = abs(P - Q) / (n * max(a, 0.0) * 1.5e-8 + 4e-15 * abs(P))
    ctx.extra["worst_perimeter"] = max(ctx.extra.get("worst_perimeter", 0), round(dp, 3)) if dp == dp else 1e9
    if not dp <= 1:
        ctx.viol(f"geodesic_area {what} ({list(la)}, {list(lo)}) ell={ell}: perimeter {Q!r}, expected {P!r}")
    if far:
        if not abs(B) <= tot / 2 * (1 + 1e-12):
            ctx.viol(f"geodesic_area {what} ({list(la)}, {list(lo)}) ell={ell}: area {B!r}")
        return
    # long edges amplify rounding
    da = diff(A, B, tot) / (n * (0.1 + 0.3 * min(1, P / a / 3e7)) * a * a)
    ctx.extra["worst_area"] = max(ctx.extra.get("worst_area", 0), round(da, 3)) if da == da else 1e9
    if not (da <= 1 and abs(B) <= tot / 2 * (1 + 1e-12)):
        ctx.viol(f"geodesic_area {what} ({list(la)}, {list(lo)}) ell={ell}: area {B!r}, expected {A!r}")


def polygons(kind, part=0, parts=1):
    if kind.startswith("perm"):
        out = list(itertools.permutations(PTS, int(kind[4:])))
    elif kind == "comb5":
        # all 5-subsets, in the order round their mean direction and in list order
        out = list(itertools.combinations(PTS, 5))
    elif kind == "small":
        out = []
        for c in CENTRES:
            for s in SHAPES:
                for k in (1e-7, 1e-5, 1e-3, 0.3, 5.0):
                    m = max(math.cos(math.radians(c[0])), 0.05)
                    out.append([(max(-90.0, min(90.0, c[0] + k * y)), c[1] + k * x / m) for x, y in s])
    elif kind.startswith("fill"):
        # corners anywhere: lattices filling the space of all triangles, quadrilaterals and hexagons
        n = int(kind[4:])
        out = []
        for k in (3, 4, 6):
            c = T.kron(n, ["lat", "lon"] * k)
            out += [list(zip(r[::2], r[1::2])) for r in zip(*[v.tolist() for v in c])]
    elif kind == "polar":
        out = []
        for la in (90.0, 89.999999, 85.0, 60.0, 1.0, 0.0, -30.0, -88.0):
            for n in (3, 4, 5, 8):
                for o in (0.0, 33.0, 180.0):
                    for s in (1, -1):
                        out.append([(la + (0.5 * (i % 2) if abs(la) < 89 else 0), s * 360.0 * i / n + o) for i in range(n)])
        # edges crossing a pole, vertices at the poles
        for x in (90.0, -90.0):
            for la in (x / 2, x / 90, x / 1.01):
                for l0 in (0.0, 77.0, 180.0):
                    out += [[(x, l0), (la, l0), (la, l0 + 90)], [(x, 0.0), (la, l0 + 90), (la, l0)], [(la, l0), (la / 2, l0 + 180), (la / 3, l0 + 200)],
                            [(la, l0), (la / 2, l0 - 180), (la / 3, l0 - 200)], [(la, l0), (la, l0 + 90), (la, l0 + 180)], [(la, l0), (la, l0 - 100), (la, l0 - 180)]]
    return out[part::parts]


def run(ctx, kind, ells, modes, part=0, parts=1, symmetry=True):
    from pymap3d.karney import geodesic_area
    for ell in ells:
        E = engine.ellipsoid(ell)
        kw = {"ell": E} if ell is not None else {}
        for p in polygons(kind, part, parts):
            la, lo = [a for a, _ in p], [b for _, b in p]
            r = ref(ell, la, lo)
            for m in modes:
                if m == "list":
                    got = geodesic_area(la, lo, **kw)
                elif m == "tuple":
                    got = geodesic_area(tuple(la), tuple(lo), **kw)
                elif m == "arr":
                    got = geodesic_area(np.array(la), np.array(lo), **kw)
                elif m == "rad":
                    rla, rlo = [math.radians(x) for x in la], [math.radians(x) for x in lo]
                    dla, dlo = [math.degrees(x) for x in rla], [math.degrees(x) for x in rlo]
                    judge(ctx, ell, dla, dlo, geodesic_area(rla, rlo, deg=False, **kw), m)
                    continue
                judge(ctx, ell, la, lo, got, m, r)
            if symmetry:
                A, P, far = r
                n = len(la)
                for k in range(1, n):
                    judge(ctx, ell, la, lo, geodesic_area(la[k:] + la[:k], lo[k:] + lo[:k], **kw), f"rotated by {k}", r)
                judge(ctx, ell, la, lo, geodesic_area(la[::-1], lo[::-1], **kw), "reversed", (-A, P, far))
                judge(ctx, ell, la, lo, geodesic_area([-x for x in la], lo, **kw), "mirrored north-south", (-A, P, far))
                judge(ctx, ell, la, lo, geodesic_area(la, [-x for x in lo], **kw), "mirrored east-west", (-A, P, far))
                judge(ctx, ell, la, lo, geodesic_area(la, [x + 360 * (i % 3 - 1) for i, x in enumerate(lo)], **kw), "with turns of longitude", r)
                judge(ctx, ell, la, lo, geodesic_area(la, [x + 64.0 for x in lo], **kw), "shifted in longitude", (A, P, far))


def std(ctx, kind, part, parts, ell):
    ps = polygons(kind, part, parts)
    for rad in (False, True):
        kw = {"deg": False} if rad else {}
        rows = []
        for p in ps:
            la, lo = [a for a, _ in p], [b for _, b in p]
            rows.append(([math.radians(x) for x in la], [math.radians(x) for x in lo]) if rad else (la, lo))
        for r, g in zip(rows, engine.remote("std", [("pymap3d.karney", "geodesic_area", r, kw, ell) for r in rows])):
            la, lo = [[math.degrees(x) for x in v] if rad else v for v in r]
            judge(ctx, ell, la, lo, g, "without NumPy", None)


def tasks(tier):
    th = tier == "thorough"
    out = []
    alle = T.ellipsoids("all")
    P = 8
    M = ("list", "rad", "arr", "tuple")
    for i in range(P):
        out.append((f"perm3-{i}", run, {"kind": "perm3", "ells": [None, "mars", "moon", "jupiter", (1000.0, 900.0)], "modes": M[:2], "part": i, "parts": P, "symmetry": True}))
        out.append((f"perm4-{i}", run, {"kind": "perm4", "ells": alle if th else [None], "modes": M[:2] if th else M[:1], "part": i, "parts": P, "symmetry": False}))
        out.append((f"small-{i}", run, {"kind": "small", "ells": alle if th else [None, "mars", "moon", "saturn", (6378137.0, 6378137.0)], "modes": M, "part": i, "parts": P}))
        out.append((f"polar-{i}", run, {"kind": "polar", "ells": alle if th else T.ellipsoids("some"), "modes": M, "part": i, "parts": P}))
        out.append((f"fill-{i}", run, {"kind": f"fill{4000 if th else 400}", "ells": [None, "mars"], "modes": M, "part": i, "parts": P, "symmetry": False}))
        if th:
            out.append((f"comb5-{i}", run, {"kind": "comb5", "ells": alle, "modes": M, "part": i, "parts": P}))
            out.append((f"perm5-{i}", run, {"kind": "perm5", "ells": [None], "modes": M[:1], "part": i, "parts": P, "symmetry": False}))
    for k in ("perm3", "small", "polar", "fill100"):
        for e in (None, "mars"):
            out.append((f"std-{k}-{e}", std, {"kind": k, "part": 0, "parts": 1, "ell": e}))
    return out
