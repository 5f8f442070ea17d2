"""Exhaustive evaluation of vreckon on the product of start latitudes x longitudes x distances (0 to two turns, whole and half
turns of the auxiliary sphere) x azimuths (any real) x ellipsoids incl. a ladder of flattenings x call modes, against
geographiclib; and of the round trip vdist -> vreckon over all non-antipodal pairs of the lattice.
State: (ellipsoid, start, distance, azimuth); transition: one call; trace: one compared end point."""
import numpy as np

import engine
import georef as G
import lattices as T
import refmodel as R
from api import spec
from checks import c18
from checks.c16 import LADDER, limit, separation, tol_of

ASSUMPTIONS = ["pyproj's geographiclib is right to 15 nm on Earth"]
A = 6378137.0
AZ = T.pm(0, 1e-12, 1e-6, 1, 33, 45, 89, 89.999999, 90, 90.000001, 120, 179.0, 179.9999999, 180, 225, 270, 315, 359.9999, 360, 725.5)
RNG = [0.0, 1e-9, 1e-6, 1e-3, 1.0, 500.0, 1e5, 1e6, 5e6, 1.0001965729e7, 1.2e7, 1.9e7, 2.0003931459e7, 2.003750834e7, 2.5e7, 3.3e7, 4.0007862917e7, 4.0075016686e7, 6e7, 7.9e7]


def oracle(ell):
    def f(args, el, o):
        la, lo, s, az = args
        c = [np.asarray(R.deg(v), float) for v in (la, lo, az)]
        s = np.asarray(s, float)
        ra, ro, _ = G.fwd(ell, c[0], c[1], c[2], s)
        a, fl = float(el.a), float(el.f)
        pole = (np.abs(np.abs(c[0]) - 90) < 6e-9).astype(float)
        tol = a * (1.05e-10 * pole + 0.3 * fl ** 4 * (1 + s / (np.pi * a)) + 2e-12 * (fl > 0) + 4e-16 * (4 + np.abs(np.asarray(lo, float)) + np.abs(np.asarray(az, float)) + s / a))

        def chk(raw, outs, radm):
            lim, full = (np.pi / 2, 2 * np.pi) if radm else (90.0, 360.0)
            bad = ~((np.abs(raw[0]) <= lim * (1 + 4e-16)) & (raw[1] >= 0) & (raw[1] <= full))
            p = R.geodetic2ecef(outs[0], outs[1], 0 * outs[0], el)
            q = R.dist3(p, G.pos(ell, ra, ro)).astype(float) / tol
            return np.where(bad, np.inf, q)
        return {"kind": "fn", "fn": chk, "ref": [ra, ro]}
    return f


def run(ctx, cols, ells, modes):
    s = spec("vincenty.vreckon")
    for e in ells:
        engine.run_value(ctx, s, T.grid(*cols), [e], modes, oracle(e))


def fill(ctx, n, shift, ells, modes):
    for rng in ((0, 8e7), ("log", 0, 4e7)):
        engine.run_value(ctx, spec("vincenty.vreckon"), T.kron(n, ["lat", "lon", rng, "az"], shift), ells, modes, oracle(ells[0]))


def roundtrip(ctx, kind, kw, ells):
    from pymap3d.vincenty import vdist, vreckon
    from checks.c16 import cols_of
    c = cols_of(kind, kw)
    for e in ells:
        el = engine.el_ref(e)
        E = engine.ellipsoid(e)
        k = separation(*c) < limit(float(el.f))
        d = [x[k] for x in c]
        s, az = vdist(*[x.copy() for x in d], ell=E)
        la, lo = vreckon(d[0].copy(), d[1].copy(), s, az, ell=E)
        tol = 2 * tol_of(el, d[0], d[2])
        q = G.gap(e, la, lo, d[2], d[3]) / tol
        ctx.add(states=len(s), transitions=2, traces=len(s))
        G.note(ctx, "worst_round_trip", q)
        i, n = G.worst(q)
        if n:
            ctx.viol(f"vreckon of vdist{tuple(float(x[i]) for x in d)} = ({s[i]!r}, {az[i]!r}) arrives at ({la[i]!r}, {lo[i]!r}) ell={e}: {q[i]:.3g} tolerances ({n} cases)")


def tasks(tier):
    th = tier == "thorough"
    out = []
    alle = T.ellipsoids("all") + LADDER
    lats = c18.LATS if th else c18.LATS[::2] + [0.0]
    for i in range(7):
        out.append((f"product-{i}", run, {"cols": (lats, [0.0, -82.0, 540.0] if th else [-82.0], RNG, AZ), "ells": alle[i::7], "modes": ("arr", "rad")}))
    if th:
        for i in range(7):
            out.append((f"dense-{i}", run, {"cols": (np.linspace(-90, 90, 61), [10.0], np.linspace(0, 8e7, 61), np.linspace(-180, 180, 73)), "ells": alle[i::7], "modes": ("arr",)}))
    sc = ("py", "pyrad", "std", "stdrad", "np0", "2d", "2drad")
    out.append(("modes", run, {"cols": (c18.LATS[::4], [179.5], RNG[::2], AZ[::3]), "ells": [None, "mars"], "modes": sc}))
    out.append(("modes2", run, {"cols": ([-90.0, 90.0, 0.0], [0.0, -30.0], RNG, AZ), "ells": [None], "modes": sc}))
    out.append(("lons", run, {"cols": ([0.0, 42.0, -60.0, 90.0], T.LON, [0.0, 1.0, 1e6, 1.5e7, 3.3e7], AZ[::3]), "ells": [None, "moon"], "modes": ("arr", "rad", "2d")}))
    out.append(("dense", run, {"cols": (np.linspace(-90, 90, 25), [10.0], np.linspace(0, 4.1e7, 42), np.linspace(-180, 180, 49)), "ells": [None, "mars"], "modes": ("arr",)}))
    for e in (None, "mars"):
        out.append((f"fill-{e}", fill, {"n": 100000 if th else 10000, "shift": 0, "ells": [e], "modes": ("arr", "rad")}))
    out.append(("fill-scalars", fill, {"n": 3000 if th else 500, "shift": 1, "ells": [None], "modes": sc}))
    out.append(("roundtrip", roundtrip, {"kind": "special", "kw": {"lats": c18.LATS, "dl": c18.DLON, "lon0": (0.0, 179.5)}, "ells": alle if th else [None, "mars", "moon", "jupiter"] + LADDER}))
    out.append(("roundtrip-dense", roundtrip, {"kind": "dense", "kw": {"n1": 49, "n2": 49} if th else {"n1": 25, "n2": 25}, "ells": [None, "clarke1866", "mars"]}))
    return out
