"""Exhaustive evaluation of geodesic_inverse on lattices of point pairs (all combinations of special latitudes and longitude
differences; fine lattices around the antipode covering the astroid; coincident, tiny, equatorial, meridional, polar and
antimeridian pairs) for every ellipsoid, in degrees, radians and without NumPy, against geographiclib; the returned azimuths are
judged by following them (geographiclib's direct solution must arrive at the second point with the second azimuth).  Swap, reflection
and full-turn symmetry are enumerated too.  State: (ellipsoid, pair); transition: one call; trace: one compared pair."""
import numpy as np

import engine
import georef as G
import lattices as T
import refmodel as R

ASSUMPTIONS = ["pyproj's geographiclib is right to 15 nm on Earth"]
TINY = [0.0, 1e-14, 1e-12, 1e-10, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.9, 1.2]
LAT1 = [0.0, 1e-12, 1e-7, 0.3, 5.25, 30.0, 45.0, 60.5, 80.0, 89.0, 89.99, 89.9999999, 90.0]
LATS = sorted(set(T.pm(0, 1e-12, 1e-6, 0.5, 10, 30, 45, 60.25, 85, 89.5, 89.99999, 89.9999999999, 90)))
DLON = [0.0, 1e-12, 1e-9, 1e-6, 1e-3, 0.1, 1.0, 15.0, 45.0, 89.0, 90.0, 91.0, 120.0, 150.0, 170.0, 178.0, 179.0, 179.3, 179.5, 179.7, 179.9,
        179.99, 179.9999, 179.9999999, 179.9999999999, 180.0]


def dense(n1, n2):
    la1, la2, d = T.grid(np.linspace(-90, 90, n1), np.linspace(-90, 90, n1), np.linspace(0, 180, n2))
    return [la1, 0 * la1 - 82.0, la2, d - 82.0]


def special(lats, dl, lon0=(0.0,)):
    la1, lo1, la2, d = T.grid(lats, lon0, lats, dl)
    return [la1, lo1, la2, lo1 + d]


def antipodal(lat1, tiny):
    la1, d, e, s = T.grid(lat1, tiny, tiny, [1.0, -1.0])
    la2 = np.clip(-la1 + s * d, -90, 90)
    return [la1, 0 * la1, la2, 180.0 - e]


def near(lat1, tiny):
    la1, d, e, s = T.grid(lat1, tiny, tiny, [1.0, -1.0])
    return [la1, 0 * la1 + 13.0, np.clip(la1 + s * d, -90, 90), 13.0 + e]


def fill(n, shift=0):
    return T.kron(n, ["lat", "lon", "lat", "lon"], shift)


def judge(ctx, given, res, ell, what):
    la1, lo1, la2, lo2 = given
    s, a1, a2 = res
    sc = float(engine.el_ref(ell).a) / 6.4e6
    f = float(engine.el_ref(ell).f)
    rs, _, _ = G.inv(ell, la1, lo1, la2, lo2)
    tol = (2.5e-8 + 2e-7 * f) * sc
    bad = ~((s >= 0) & (np.abs(a1) <= 180) & (np.abs(a2) <= 180))
    qs = np.abs(s - rs) / tol
    fl, fo, fa = G.fwd(ell, la1, lo1, np.where(np.isfinite(a1), a1, 0), np.where(np.isfinite(s), s, 0))
    qp = G.gap(ell, fl, fo, la2, lo2) / (2 * tol)
    # 1e-7 m of slack in where the end is seen from: near a pole directions turn quickly
    qa = G.turn(fl, fo, fa, la2, lo2, a2) / (1e-12 + 4 * tol / np.maximum(s, tol))
    G.note(ctx, "worst_distance", qs)
    G.note(ctx, "worst_endpoint", qp)
    G.note(ctx, "worst_azimuth", qa)
    q = np.where(bad, np.inf, np.maximum(np.maximum(qs, qp), qa))
    i, n = G.worst(q)
    if n:
        ctx.viol(f"geodesic_inverse({la1[i]!r}, {lo1[i]!r}, {la2[i]!r}, {lo2[i]!r}) ell={ell} {what}: ({s[i]!r}, {a1[i]!r}, {a2[i]!r}); "
                 f"distance {rs[i]!r} expected; errors in tolerances: distance {qs[i]:.3g}, end point {qp[i]:.3g}, second azimuth {qa[i]:.3g} ({n} cases)")


def run(ctx, kind, kw, ells, modes):
    cols = {"dense": dense, "special": special, "antipodal": antipodal, "near": near, "fill": fill}[kind](**kw)
    rr = G.rows(cols)
    for ell in ells:
        for m in modes:
            try:
                given, res = G.call("pymap3d.karney", "geodesic_inverse", rr, {}, ell, m)
            except Exception as e:  # noqa: BLE001
                ctx.viol(f"geodesic_inverse over {kind} ell={ell} mode={m}: {type(e).__name__}: {e}")
                continue
            ctx.add(states=len(rr), transitions=len(rr), traces=len(rr))
            judge(ctx, given, res, ell, m)
    ctx.sample({"kind": kind, "pairs": len(rr), "ells": [str(e) for e in ells]})


def symmetry(ctx, lats, dl, ells):
    cols = special(lats, dl, (10.0,))
    ref = None
    for ell in ells:
        sc = float(engine.el_ref(ell).a) / 6.4e6
        la1, lo1, la2, lo2 = cols
        maps = {"": cols, "swap": [la2, lo2, la1, lo1], "north-south": [-la1, lo1, -la2, lo2], "east-west": [la1, -lo1, la2, -lo2],
                "turn 1": [la1, lo1 + 360, la2, lo2], "turn 2": [la1, lo1, la2, lo2 - 720], "shift": [la1, lo1 + 77, la2, lo2 + 77]}
        for k, c in maps.items():
            _, (s, a, b) = G.call("pymap3d.karney", "geodesic_inverse", G.rows(c), {}, ell, "py")
            ctx.add(states=len(s), transitions=len(s), traces=len(s))
            if k == "":
                ref = s
                continue
            q = np.abs(s - ref) / (2.5e-8 * sc * (1 + 10 * float(engine.el_ref(ell).f)))
            i, n = G.worst(q)
            if n:
                ctx.viol(f"geodesic_inverse distance changes under {k}: ({[float(v[i]) for v in c]}) {s[i]!r} against {ref[i]!r} ell={ell}")


def tasks(tier):
    th = tier == "thorough"
    out = []
    allells = T.ellipsoids("all")
    four = [None, "mars", "jupiter", (6371000.0, 6371000.0), (6.4e6, 6.272e6)]
    for e in (four if not th else allells):
        out.append((f"special-{e}", run, {"kind": "special", "kw": {"lats": LATS, "dl": DLON if th else DLON[::1]}, "ells": [e], "modes": ("py", "pyrad") if th else ("py",)}))
        out.append((f"antipodal-{e}", run, {"kind": "antipodal", "kw": {"lat1": LAT1 if th else LAT1[::1], "tiny": TINY}, "ells": [e], "modes": ("py",)}))
    if th:
        for e in four:
            out.append((f"dense-{e}", run, {"kind": "dense", "kw": {"n1": 37, "n2": 73}, "ells": [e], "modes": ("py",)}))
            out.append((f"near-{e}", run, {"kind": "near", "kw": {"lat1": LAT1 + [-33.0], "tiny": TINY}, "ells": [e], "modes": ("py",)}))
    out.append(("dense", run, {"kind": "dense", "kw": {"n1": 25, "n2": 25}, "ells": [None], "modes": ("py",)}))
    out.append(("near", run, {"kind": "near", "kw": {"lat1": LAT1[::2], "tiny": TINY[::2]}, "ells": [None, "mars"], "modes": ("py",)}))
    out.append(("rad", run, {"kind": "special", "kw": {"lats": LATS[::2], "dl": DLON}, "ells": [None, "jupiter"], "modes": ("pyrad",)}))
    out.append(("antirad", run, {"kind": "antipodal", "kw": {"lat1": LAT1[::3], "tiny": TINY[::2]}, "ells": [None], "modes": ("pyrad",)}))
    out.append(("std", run, {"kind": "special", "kw": {"lats": LATS if th else LATS[::2], "dl": DLON if th else DLON[::2]}, "ells": [None, "moon"], "modes": ("std", "stdrad")}))
    out.append(("antistd", run, {"kind": "antipodal", "kw": {"lat1": LAT1[::3], "tiny": TINY[::2]}, "ells": [None], "modes": ("std",)}))
    out.append(("all-ellipsoids", run, {"kind": "special", "kw": {"lats": [-90.0, -33.5, 0.0, 1e-6, 60.25], "dl": [0.0, 1e-3, 45.0, 120.0, 179.5, 180.0]},
                                        "ells": allells, "modes": ("py",)}))
    for k, (e, m) in enumerate(((None, "py"), ("mars", "py"), (None, "pyrad"), (None, "std"), ("jupiter", "py"))):
        out.append((f"fill-{e}-{m}", run, {"kind": "fill", "kw": {"n": 40000 if th else 3000, "shift": k}, "ells": [e], "modes": (m,)}))
    out.append(("symmetry", symmetry, {"lats": LATS if th else LATS[1::2], "dl": DLON if th else DLON[::3], "ells": [None, "jupiter"]}))
    return out
