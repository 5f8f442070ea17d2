"""Exhaustive evaluation of geodesic_direct on the product of start latitudes x azimuths (all octants, cardinal and near-cardinal,
beyond one turn) x distances (zero, negative, tiny, to several circumferences) for every ellipsoid, in degrees, radians and without
NumPy, against geographiclib (end point and direction in space); plus enumerated relations: two legs equal one, reversal, full turns
and reflections.  State: (ellipsoid, start, azimuth, distance); transition: one call; trace: one compared end point."""
import numpy as np

import engine
import georef as G
import lattices as T
import refmodel as R

ASSUMPTIONS = ["pyproj's geographiclib is right to 15 nm on Earth"]
LAT = T.pm(0, 1e-12, 1e-6, 0.5, 30, 45, 60.25, 85, 89.9999, 89.9999999999, 90)
AZ = T.pm(0, 1e-12, 1e-6, 1.0, 33, 45, 89.0, 89.999999, 90, 90.000001, 120, 179.0, 179.999999999, 180, 270, 359.9, 360, 725)
DIST = T.pm(0, 1e-9, 1e-3, 1.0, 1e3, 1e6, 5e6, 1.0001e7, 1.5e7, 1.95e7, 2.0e7, 2.00039e7, 2.5e7, 4.0e7, 4.00078e7, 1.3e8)


def tolerance(ell, s):
    el = engine.el_ref(ell)
    sc = float(el.a) / 6.4e6
    return (2.5e-8 + 2e-7 * float(el.f)) * sc * (1 + np.abs(s) / (2e7 * sc))


def check(ctx, cols, ell, mode):
    sc = float(engine.el_ref(ell).a) / 6378137.0
    cols = list(cols[:3]) + [cols[3] * sc]
    rr = G.rows(cols)
    try:
        given, (la, lo, az) = G.call("pymap3d.karney", "geodesic_direct", rr, {}, ell, mode)
    except Exception as e:  # noqa: BLE001
        ctx.viol(f"geodesic_direct ell={ell} mode={mode}: {type(e).__name__}: {e}")
        return None
    ctx.add(states=len(rr), transitions=len(rr), traces=len(rr))
    rla, rlo, raz = G.fwd(ell, *given)
    tol = tolerance(ell, given[3])
    lim = 1 + 4e-16
    bad = ~((np.abs(la) <= 90 * lim) & (np.abs(lo) <= 180 * lim) & (np.abs(az) <= 360))
    qp = G.gap(ell, la, lo, rla, rlo) / tol
    qa = G.turn(la, lo, az, rla, rlo, raz) / (1e-12 + 2 * tol / float(engine.el_ref(ell).a))
    G.note(ctx, "worst_position", qp)
    G.note(ctx, "worst_azimuth", qa)
    q = np.where(bad, np.inf, np.maximum(qp, qa))
    i, n = G.worst(q)
    if n:
        ctx.viol(f"geodesic_direct({', '.join(repr(float(g[i])) for g in given)}) ell={ell} {mode}: ({la[i]!r}, {lo[i]!r}, {az[i]!r}), expected "
                 f"({rla[i]!r}, {rlo[i]!r}, {raz[i]!r}): position off {qp[i]:.3g}, azimuth off {qa[i]:.3g} tolerances ({n} cases)")
    ctx.sample({"ell": str(ell), "mode": mode, "inputs": [float(g[0]) for g in given]})
    return given, (la, lo, az)


def run(ctx, lats, lons, azs, dists, ells, modes):
    for e in ells:
        for m in modes:
            check(ctx, T.grid(lats, lons, azs, dists), e, m)


def fill(ctx, n, shift, e, mode):
    for rng in ((-1e8, 1e8), ("log", -1e8, 1e8)):
        check(ctx, T.kron(n, ["lat", "lon", "az", rng], shift), e, mode)


def relations(ctx, lats, azs, dists, ells):
    """legs, reversal, turns, reflections - between calls of the library only"""
    f = lambda c, e: G.call("pymap3d.karney", "geodesic_direct", G.rows(c), {}, e, "py")[1]  # noqa: E731
    for e in ells:
        sc = float(engine.el_ref(e).a) / 6378137.0
        la, az, s = T.grid(lats, azs, np.array(dists) * sc)
        lo = 0 * la + 15.0
        one = f([la, lo, az, s], e)
        tol = 3 * tolerance(e, s)
        half = f([la, lo, az, s * 0.375], e)
        two = f([half[0], half[1], half[2], s - s * 0.375], e)
        back = f([one[0], one[1], one[2], -s], e)
        other = {"two legs": (two, one), "reversal": ((back[0], back[1], back[2]), (la, lo, az)),
                 "opposite azimuth": ((lambda r: (r[0], r[1], r[2] + 180.0))(f([la, lo, az + 180, -s], e)), one),
                 "full turn of azimuth": (f([la, lo, az - 360, s], e), one), "full turn of longitude": (f([la, lo + 360, az, s], e), one),
                 "north-south": ((lambda r: (-r[0], r[1], 180 - r[2]))(f([-la, lo, 180 - az, s], e)), one),
                 "east-west": ((lambda r: (r[0], -r[1], -r[2]))(f([la, -lo, -az, s], e)), one)}
        ctx.add(states=len(la) * len(other), transitions=len(la) * 8, traces=len(la) * len(other))
        for k, (p, q0) in other.items():
            q = np.maximum(G.gap(e, p[0], p[1], q0[0], q0[1]) / tol,
                           G.turn(p[0], p[1], p[2], q0[0], q0[1], q0[2]) / (1e-12 + 4 * tol / float(engine.el_ref(e).a)))
            if k in ("two legs", "reversal"):
                # the longitude of a point within a micrometre of a pole is not determined by its position
                pole = np.minimum(np.abs(np.abs(half[0]) - 90), np.abs(np.abs(one[0]) - 90)) < 1e-11
                q = np.where(pole, 0, q)
            G.note(ctx, "worst_relation", q)
            i, n = G.worst(q)
            if n:
                ctx.viol(f"geodesic_direct({la[i]!r}, {lo[i]!r}, {az[i]!r}, {s[i]!r}) ell={e}: {k} gives ({p[0][i]!r}, {p[1][i]!r}, {p[2][i]!r}) instead of "
                         f"({q0[0][i]!r}, {q0[1][i]!r}, {q0[2][i]!r}) ({n} cases)")


def tasks(tier):
    th = tier == "thorough"
    out = []
    alle = T.ellipsoids("all")
    big = alle if th else [None, "jupiter", (6.4e6, 6.272e6)]
    for e in big:
        for i, la in enumerate(np.array_split(np.array(LAT), 3)):
            out.append((f"product-{e}-{i}", run, {"lats": la, "lons": [-82.0, 179.5] if th else [-82.0], "azs": AZ, "dists": DIST, "ells": [e], "modes": ("py",)}))
    out.append(("rad", run, {"lats": LAT[::2], "lons": [0.0, 400.0, -180.0], "azs": AZ[::2], "dists": DIST[::2], "ells": [None, "mars"], "modes": ("pyrad",)}))
    out.append(("std", run, {"lats": LAT[::2], "lons": [0.0, 400.0, -180.0], "azs": AZ[::2], "dists": DIST[::2], "ells": [None], "modes": ("std", "stdrad")}))
    out.append(("ellipsoids", run, {"lats": LAT[::5], "lons": [12.0], "azs": AZ[::4], "dists": DIST[::3], "ells": alle, "modes": ("py",)}))
    out.append(("dense", run, {"lats": np.linspace(-90, 90, 37 if th else 13), "lons": [0.0], "azs": np.linspace(-180, 180, 73 if th else 25),
                               "dists": np.linspace(-4.1e7, 4.1e7, 42 if th else 21), "ells": [None] + (["saturn"] if th else []), "modes": ("py",)}))
    out.append(("lons", run, {"lats": [0.0, 42.0, -89.999], "lons": T.LON, "azs": [0.0, 90.0, -90.0, 217.0], "dists": [0.0, 1.0, 1e7, 3e7], "ells": [None], "modes": ("py", "pyrad")}))
    for k, (e, m) in enumerate(((None, "py"), ("mars", "py"), (None, "pyrad"), (None, "std"), ("jupiter", "py"))):
        out.append((f"fill-{e}-{m}", fill, {"n": 20000 if th else 2000, "shift": k, "e": e, "mode": m}))
    out.append(("relations", relations, {"lats": LAT if th else LAT[::2], "azs": AZ if th else AZ[::3], "dists": DIST if th else DIST[::3], "ells": [None, "jupiter"]}))
    return out
