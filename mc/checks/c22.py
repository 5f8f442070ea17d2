"""Exhaustive evaluation of loxodrome_inverse and loxodrome_direct on the product of latitudes below 89.5 degrees x longitudes and
longitude differences (all quadrants, half turn, antimeridian, coincident, nearly east-west) x azimuths (any real, incl. within
1e-12 of east-west) x distances x ellipsoids incl. a ladder of flattenings x call modes, against the exact rhumb line in 80-bit
arithmetic (isometric latitude and meridian arc by quadrature); and of the round trip over all pairs.
State: (ellipsoid, pair or start); transition: one call; trace: one compared result."""
import numpy as np

import engine
import lattices as T
import refmodel as R
from api import spec

A = 6378137.0
LADDER = [(A, A), (A, A * (1 - 1e-6)), (A, A * 0.999), (A, A * (1 - 1 / 170)), (A, A * 0.99)]
LATS = T.pm(0, 1e-9, 1e-4, 0.75, 12.5, 33.0, 45, 60.25, 75, 85, 88.9)
DLON = T.pm(0, 1e-9, 1e-5, 0.01, 1, 30, 89, 90, 91, 150, 179, 179.9999, 180, 200, 359.5, 361, 500)
AZ = T.pm(0, 1e-9, 1, 33, 45, 80, 89.9, 89.99999, 89.9999999, 89.99999999, 90 - 1e-12, 90, 90 + 1e-11, 90.0000001, 90.001, 120, 179, 180, 200, 269.9999, 270, 270.0001, 300, 359.9, 360, 725.5)
RNG = [0.0, 1e-3, 1.0, 5e3, 2e5, 3e6, 9e6, 3.1e7]
L = R.L


def arc_ratio(p1, p2, el):
    """mean meridian arc per isometric latitude between two latitudes (the parallel radius when they coincide)"""
    mid = (p1 + p2) / 2
    with np.errstate(all="ignore"):
        par = el.a * np.cos(mid) / np.sqrt(1 - el.e2 * np.sin(mid) ** 2)
        q = (R.meridian_arc(p2, el) - R.meridian_arc(p1, el)) / (R.isometric(p2, el) - R.isometric(p1, el))
    return np.where(np.abs(p2 - p1) < L(1e-7), par, q)


def base(el, *deg_):
    """smallest position error to allow: rounding of angles of this size, and of the published series"""
    a, f = float(el.a), float(el.f)
    return a * (1e-15 + 2.3e-16 * sum(np.abs(np.radians(np.asarray(R.deg(v), float))) for v in deg_)), a * 0.02 * f ** 4


def ref_inverse(args, el):
    p1, l1, p2, l2 = [R.ld(v) for v in args]
    psi = R.isometric(p2, el) - R.isometric(p1, el)
    lam = R.wrap(l2 - l1)
    d = np.sqrt(psi ** 2 + lam ** 2) * arc_ratio(p1, p2, el)
    return d, np.arctan2(lam, psi), lam, psi


def inverse(args, el, o):
    d, az, lam, psi = ref_inverse(args, el)
    b, t = base(el, *args)
    df = d.astype(float)
    P = b + t * df / float(el.a)
    # the azimuth lies in the isometric plane; rounding there is that of the angles times the isometric scale
    cosaz = np.maximum(np.abs(np.cos(az)).astype(float), 1e-9)
    half = np.abs(np.abs(lam) - R.PI).astype(float) < 1e-12

    def chk(raw, outs, radm):
        s, z = raw
        zd = np.asarray(outs[1], dtype=L)
        bad = ~((s >= 0) & ((z > -np.pi - 1e-15) & (z <= np.pi + 1e-15) if radm else (z >= 0) & (z <= 360)))
        e = np.abs(R.wrap(zd - az)).astype(float)
        e = np.where(half, np.minimum(e, np.abs(R.wrap(zd + az)).astype(float)), e)
        q = np.maximum(np.abs(s - df) * cosaz / P, np.where(df > 1e-7 * float(el.a) / A, df * e / P, 0))
        return np.where(bad, np.inf, q / 2)
    return {"kind": "fn", "fn": chk, "ref": [d, az]}


def ref_direct(args, el):
    p1, l1, s, z = [R.ld(v) for v in args]
    m = R.meridian_arc(p1, el) + s * np.cos(z)
    p2 = m / (R.meridian_arc(R.PI / 2, el) * 2 / R.PI)
    ok = np.abs(p2) < L(1.57)
    p2 = np.where(ok, p2, 0)
    for _ in range(5):
        p2 = p2 - (R.meridian_arc(p2, el) - np.where(ok, m, 0)) / R.meridian_radius(p2, el)
    p2 = np.where(np.cos(z) == 0, p1, p2)
    lam = s * np.sin(z) / arc_ratio(p1, p2, el)
    return p2, l1 + lam, lam, ok & (np.abs(p2) < L(1.5621))


def direct(args, el, o):
    p2, l2, lam, ok = ref_direct(args, el)
    b, t = base(el, *args)
    s = np.asarray(args[2], float)
    cosaz = np.maximum(np.abs(np.cos(R.ld(args[3]))).astype(float), 1e-9)
    f = float(el.f)
    P = b + t + np.abs(lam).astype(float) * float(el.a) * 3e-16
    par = (el.a * np.cos(p2)).astype(float)
    # azimuth rounding moves the end across the course; east-west it moves the latitude and with it the circle of latitude
    Pe = (P + s * 2.3e-16 * (2 + np.abs(np.asarray(args[3], float)))) * (1 + np.abs(lam).astype(float) * np.abs(np.sin(p2)).astype(float)) + (b + float(el.a) * 3 * f ** 5) / cosaz
    Pn = P + s * 2.3e-16 * (2 + np.abs(np.asarray(args[3], float)))

    def chk(raw, outs, radm):
        en = np.abs(np.asarray(outs[0], L) - p2).astype(float) * float(el.a)
        ee = np.abs(R.wrap(np.asarray(outs[1], L) - l2)).astype(float) * par
        q = np.maximum(en / Pn, ee / Pe) / 2
        return np.where(ok, q, 0)
    return {"kind": "fn", "fn": chk, "ref": [p2, l2]}


def pairs(lats1, lon1, lats2, dlon):
    p1, l1, p2, d = T.grid(lats1, lon1, lats2, dlon)
    return [p1, l1, p2, l1 + d]


def nearly(lats, eps):
    """nearly east-west courses"""
    p1, l1, e, d = T.grid(lats, [10.0], eps, [1e-3, -1.0, 30.0, -150.0])
    return [p1, l1, p1 + e, l1 + d]


def fill(n, shift):
    return T.kron(n, [(-89.4, 89.4), "lon", (-89.4, 89.4), "lon"], shift)


def fill_direct(n, shift):
    return T.cat(T.kron(n, [(-89.4, 89.4), "lon", (0, 1e7), "az"], shift), T.kron(n, [(-89.4, 89.4), "lon", ("log", 0, 1e7), "az"], shift + 1))


EPS = T.pm(1e-13, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-3, 0.1)


def run(ctx, kind, kw, ells, modes):
    if kind == "direct":
        engine.run_value(ctx, spec("lox.loxodrome_direct"), fill_direct(**kw) if "n" in kw else T.grid(*kw["axes"]), ells, modes, direct)
    else:
        c = {"pairs": pairs, "nearly": nearly, "fill": fill}[kind](**kw)
        engine.run_value(ctx, spec("lox.loxodrome_inverse"), c, ells, modes, inverse, label=kind)


def roundtrip(ctx, kind, kw, ells):
    import pymap3d.lox as X
    c = {"pairs": pairs, "nearly": nearly, "fill": fill}[kind](**kw)
    for e in ells:
        E, el = engine.ellipsoid(e), engine.el_ref(e)
        for rad in (False, True):
            g = [np.radians(x) for x in c] if rad else c
            s, az = X.loxodrome_inverse(*[x.copy() for x in g], ell=E, deg=not rad)
            la, lo = X.loxodrome_direct(g[0].copy(), g[1].copy(), s, az, ell=E, deg=not rad)
            args = [R.ld(x) if rad else R.rad(x) for x in g]
            d, z, lam, psi = ref_inverse(args, el)
            b, t = base(el, *args)
            f = float(el.f)
            cosaz = np.maximum(np.abs(np.cos(z)).astype(float), 1e-9)
            P = 4 * (b + t) + 4 * (b + float(el.a) * 3 * f ** 5) / cosaz + d.astype(float) * 1e-15
            lr, lor = (R.ld(la), R.ld(lo)) if rad else (R.rad(la), R.rad(lo))
            en = np.abs(lr - args[2]).astype(float) * float(el.a)
            # half a turn east or west arrives at the same meridian
            ee = np.abs(R.wrap(lor - args[3])).astype(float) * (el.a * np.cos(args[2])).astype(float)
            q = np.maximum(en / (4 * (b + t)), ee / P)
            ctx.add(states=len(s), transitions=2, traces=len(s))
            ctx.extra["worst_round_trip"] = max(ctx.extra.get("worst_round_trip", 0), round(float(np.nanmax(q)), 3))
            q = np.where(np.isnan(q), np.inf, q)
            i = int(np.argmax(q))
            if not q[i] <= 1:
                ctx.viol(f"loxodrome_direct of loxodrome_inverse{tuple(float(x[i]) for x in g)} = ({s[i]!r}, {az[i]!r}) arrives at ({la[i]!r}, {lo[i]!r}) ell={e} "
                         f"{'radians' if rad else ''} ({q[i]:.3g} tolerances; {int((q > 1).sum())} cases)")


def tasks(tier):
    th = tier == "thorough"
    M = ("arr", "rad", "2d")
    S = ("py", "pyrad", "std", "stdrad", "np0", "2drad")
    alle = T.ellipsoids("all") + LADDER
    earth = [None, "clarke1866", "mars", "moon", "jupiter"] + LADDER
    out = []
    P1 = {"lats1": LATS, "lon1": [0.0, -82.0, 179.5] if th else [-82.0, 179.5], "lats2": LATS, "dlon": DLON}
    P2 = {"lats1": LATS[::3], "lon1": [179.5, -300.0], "lats2": LATS[1::3], "dlon": DLON[::2]}
    for i in range(7):
        out.append((f"pairs-{i}", run, {"kind": "pairs", "kw": P1, "ells": (alle if th else earth)[i::7], "modes": M if th else M[:2]}))
        out.append((f"direct-{i}", run, {"kind": "direct", "kw": {"axes": (LATS if th else LATS[::2], [0.0, -82.0, 540.0] if th else [-82.0], RNG, AZ)}, "ells": (alle if th else earth)[i::7], "modes": M if th else M[:2]}))
        out.append((f"nearly-{i}", run, {"kind": "nearly", "kw": {"lats": LATS, "eps": EPS}, "ells": alle[i::7], "modes": M}))
    out.append(("scalars", run, {"kind": "pairs", "kw": P2, "ells": [None, "mars"], "modes": S}))
    out.append(("scalars-nearly", run, {"kind": "nearly", "kw": {"lats": LATS[::3], "eps": EPS[::2]}, "ells": [None], "modes": S}))
    out.append(("scalars-direct", run, {"kind": "direct", "kw": {"axes": (LATS[::3], [0.0, 170.0], RNG[::2], AZ[::2])}, "ells": [None, "mars"], "modes": S}))
    out.append(("lons", run, {"kind": "pairs", "kw": {"lats1": [42.0, -33.5], "lon1": T.LON, "lats2": [-10.0, 42.0, 60.0], "dlon": DLON}, "ells": [None], "modes": M}))
    out.append(("dense", run, {"kind": "pairs", "kw": {"lats1": np.linspace(-88, 88, 45 if th else 23), "lon1": [-82.0], "lats2": np.linspace(-88, 88, 45 if th else 23), "dlon": np.linspace(-180, 180, 73)}, "ells": [None, "mars"] if th else [None], "modes": ("arr",)}))
    out.append(("dense-direct", run, {"kind": "direct", "kw": {"axes": (np.linspace(-88, 88, 45 if th else 23), [10.0], np.linspace(0, 2e7, 41 if th else 21), np.linspace(-180, 180, 73))}, "ells": [None, "mars"] if th else [None], "modes": ("arr",)}))
    for kind in ("fill", "direct"):
        for k, e in enumerate((None, "mars")):
            out.append((f"fill-{kind}-{e}", run, {"kind": kind, "kw": {"n": 50000 if th else 10000, "shift": k}, "ells": [e], "modes": M[:2]}))
        out.append((f"fill-{kind}-scalars", run, {"kind": kind, "kw": {"n": 4000 if th else 1000, "shift": 2}, "ells": [None], "modes": S}))
    out.append(("roundtrip-fill", roundtrip, {"kind": "fill", "kw": {"n": 50000 if th else 10000, "shift": 3}, "ells": [None, "moon"]}))
    out.append(("roundtrip", roundtrip, {"kind": "pairs", "kw": P1, "ells": alle if th else [None, "mars", "moon", (A, A)]}))
    out.append(("roundtrip-nearly", roundtrip, {"kind": "nearly", "kw": {"lats": LATS, "eps": EPS}, "ells": alle if th else [None, "mars"]}))
    return out
