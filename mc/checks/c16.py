"""Exhaustive evaluation of vdist on lattices of point pairs (all combinations of special latitudes and longitude differences, a dense
product grid, tiny separations, antimeridian, polar, equatorial and nearly antipodal pairs) x ellipsoids incl. a ladder of
flattenings x call modes, against geographiclib; the azimuth is judged by following it; plus symmetry and full turns.
State: (ellipsoid, pair); transition: one call; trace: one compared pair."""
import numpy as np

import engine
import georef as G
import lattices as T
import refmodel as R
from api import spec
from checks import c18

ASSUMPTIONS = ["pyproj's geographiclib is right to 15 nm on Earth"]
A = 6378137.0
LADDER = [(A, A), (A, A * (1 - 1e-6)), (A, A * (1 - 1e-4)), (A, A * 0.999), (A, A * (1 - 1 / 170)), (A, A * 0.99), (A, A * 0.98)]


def separation(la1, lo1, la2, lo2):
    a, b = ([np.cos(np.radians(la)) * np.cos(np.radians(lo)), np.cos(np.radians(la)) * np.sin(np.radians(lo)), np.sin(np.radians(la))]
            for la, lo in ((la1, lo1), (la2, lo2)))
    c = np.cross(np.array(a).T, np.array(b).T)
    return np.degrees(np.arctan2(np.linalg.norm(c, axis=1), sum(p * q for p, q in zip(a, b))))


def limit(f):
    """separations for which the iteration is documented to converge"""
    return 178.5 - 320.0 * f


def tol_of(el, la1, la2):
    """moving a pole by 1e-10 rad, and the order of the series"""
    a, f = float(el.a), float(el.f)
    poles = sum((np.abs(np.abs(x) - 90) < 6e-9).astype(float) for x in (la1, la2))
    return a * (1.05e-10 * poles + 0.3 * f ** 4 + 2e-12 * (f > 0) + 3e-15)


def oracle(ell):
    def f(args, el, o):
        c = [np.asarray(R.deg(v), float) for v in args]
        rs, _, _ = G.inv(ell, *c)
        sep = separation(*c)
        fl = float(el.f)
        tol = tol_of(el, c[0], c[2])
        far = sep >= limit(fl)

        def chk(raw, outs, radm):
            s, az = raw
            full = 2 * np.pi if radm else 360.0
            bad = ~((s >= 0) & (az >= 0) & (az <= full))
            d = np.degrees(az) if radm else az
            d = np.where(np.isfinite(d), d, 0)
            fa, fo, _ = G.fwd(ell, c[0], c[1], d, np.where(np.isfinite(s), s, 0))
            q = np.maximum(np.abs(s - rs), G.gap(ell, fa, fo, c[2], c[3]) / 1.5) / tol
            # nearly antipodal: finite and near half a turn
            qf = np.where(np.isfinite(s) & np.isfinite(az) & (s <= np.pi * float(el.a) * 1.01) & (s > 2.5 * float(el.b)), 0, np.inf) if fl < 0.0065 else np.where(np.isfinite(s), 0, np.inf)
            return np.where(bad, np.inf, np.where(far, qf, q))
        return {"kind": "fn", "fn": chk, "ref": [rs]}
    return f


def cols_of(kind, kw):
    return {"dense": c18.dense, "special": c18.special, "antipodal": c18.antipodal, "near": c18.near, "fill": c18.fill, "grid": T.grid}[kind](**kw) if kind != "grid" else T.grid(*kw)


def run(ctx, kind, kw, ells, modes, stride=1):
    s = spec("vincenty.vdist")
    c = [x[::stride] for x in cols_of(kind, kw)]
    for e in ells:
        engine.run_value(ctx, s, c, [e], modes, oracle(e), label=kind)


def symmetry(ctx, kind, kw, ells):
    """swap, reflection and full turns leave the distance; mirrored azimuths"""
    from pymap3d.vincenty import vdist
    c = cols_of(kind, kw)
    la1, lo1, la2, lo2 = c
    maps = {"swap": ([la2, lo2, la1, lo1], None), "north-south": ([-la1, lo1, -la2, lo2], lambda z: 180 - z), "east-west": ([la1, -lo1, la2, -lo2], lambda z: -z),
            "turn of the first longitude": ([la1, lo1 + 360, la2, lo2], lambda z: z), "turns of the second longitude": ([la1, lo1, la2, lo2 - 720], lambda z: z),
            "common shift": ([la1, lo1 + 77, la2, lo2 + 77], lambda z: z)}
    for e in ells:
        el = engine.el_ref(e)
        E = engine.ellipsoid(e)
        ok = separation(*c) < limit(float(el.f))
        s, z = vdist(*[x.copy() for x in c], ell=E)
        a = float(el.a)
        for k, (m, az) in maps.items():
            t, w = vdist(*[x.copy() for x in m], ell=E)
            ctx.add(states=len(s), transitions=1, traces=int(ok.sum()))
            tol = a * (2e-14 + (2e-10 if k == "swap" else 0) * ((np.abs(np.abs(la1) - 90) < 6e-9) | (np.abs(np.abs(la2) - 90) < 6e-9))) + (
                tol_of(el, la1, la2) if k == "swap" else a * 4e-12 * (float(el.f) > 0))
            q = np.where(ok, np.abs(s - t) / tol, 0)
            if az is not None:
                d = np.abs(((az(w) - z + 180) % 360) - 180)
                d = np.where((s < 1e-9 * a) , 0, d)
                q = np.maximum(q, np.where(ok, np.radians(d) * np.maximum(a * np.sin(np.minimum(s / a, np.pi)), 0) / (a * (3e-14 + 4e-12 * (float(el.f) > 0))), 0))
            i, n = G.worst(q)
            if n:
                ctx.viol(f"vdist under {k}: {[float(x[i]) for x in c]} gives ({s[i]!r}, {z[i]!r}), transformed ({t[i]!r}, {w[i]!r}) ell={e} ({q[i]:.3g} tolerances, {n} cases)")


def tasks(tier):
    th = tier == "thorough"
    out = []
    alle = T.ellipsoids("all") + LADDER
    sp = {"lats": c18.LATS, "dl": c18.DLON, "lon0": (0.0, -82.0, 179.5) if th else (0.0, 179.5)}
    de = {"n1": 61, "n2": 121} if th else {"n1": 37, "n2": 49}
    an = {"lat1": c18.LAT1, "tiny": c18.TINY}
    M = ("arr", "rad", "2d")
    sc = ("py", "pyrad", "std", "stdrad")
    groups = [alle[i::7] for i in range(7)]
    for i, g in enumerate(groups):
        out.append((f"special-{i}", run, {"kind": "special", "kw": sp, "ells": g, "modes": ("arr", "rad")}))
        out.append((f"dense-{i}", run, {"kind": "dense", "kw": de, "ells": g if th else g[:2], "modes": ("arr",)}))
        out.append((f"antipodal-{i}", run, {"kind": "antipodal", "kw": an, "ells": g if th else g[:3], "modes": ("arr",)}))
    out.append(("modes", run, {"kind": "special", "kw": {"lats": c18.LATS[::2], "dl": c18.DLON[::2]}, "ells": [None, "mars"], "modes": ("2d", "2drad", "np0") + sc}))
    out.append(("modes-near", run, {"kind": "near", "kw": {"lat1": c18.LAT1[::2], "tiny": c18.TINY[::3]}, "ells": [None], "modes": sc}))
    out.append(("modes-anti", run, {"kind": "antipodal", "kw": {"lat1": c18.LAT1[::2], "tiny": c18.TINY[::3]}, "ells": [None], "modes": sc}))
    out.append(("near", run, {"kind": "near", "kw": {"lat1": c18.LAT1 + [-33.5, -90.0], "tiny": c18.TINY}, "ells": alle if th else [None, "mars", "moon"] + LADDER, "modes": ("arr", "rad")}))
    out.append(("lons", run, {"kind": "grid", "kw": [[0.0, 42.0, -60.0, 90.0], T.LON, [0.0, -33.0, 60.0, -90.0], T.LON], "ells": [None, "moon"], "modes": M}))
    out.append(("fill", run, {"kind": "fill", "kw": {"n": 200000 if th else 20000}, "ells": [None, "mars"], "modes": ("arr", "rad")}))
    out.append(("fill-scalars", run, {"kind": "fill", "kw": {"n": 5000 if th else 1000, "shift": 1}, "ells": [None, "moon"], "modes": sc}))
    out.append(("symmetry", symmetry, {"kind": "special", "kw": {"lats": c18.LATS, "dl": c18.DLON, "lon0": (10.0,)}, "ells": [None, "mars", (A, A)]}))
    out.append(("symmetry-dense", symmetry, {"kind": "dense", "kw": {"n1": 25, "n2": 25}, "ells": [None, "moon"]}))
    return out
