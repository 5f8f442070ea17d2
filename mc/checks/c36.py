"""anglesep (Astropy and fallback) and anglesep_meeus on the full product of direction pairs from a lattice of latitudes and longitudes
holding poles, equator, seam, full turns and near-coincident / near-antipodal offsets down to 1e-12 degree, in all call modes
and installations, against the great-circle angle in 80-bit arithmetic (atan2 form); symmetry, full-turn and mirror invariance bit
by bit or to rounding on every pair; haversine on a dense lattice of angles.
State: (function, pair); transition: one call; trace: one compared angle."""
import numpy as np

import engine
import lattices as T
import refmodel as R
from api import spec
from checks import common as C

EPS = R.EPS
LATS = np.array(T.pm(0, 1e-9, 0.5, 30.0, 42.0, 66.6, 89.9, 89.9999999, 90))
LONS = np.array([0.0, -82.0, 90.0, 179.9999, 180.0, -180.0, 200.0, 359.999, 400.25, -725.0, 1e-9])
OFF = np.array(T.pm(0, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 0.1, 1.0))


def angle(lo0, la0, lo1, la1):
    d = lo1 - lo0
    a = np.cos(la1) * np.sin(d)
    b = np.cos(la0) * np.sin(la1) - np.sin(la0) * np.cos(la1) * np.cos(d)
    c = np.sin(la0) * np.sin(la1) + np.cos(la0) * np.cos(la1) * np.cos(d)
    return np.arctan2(np.hypot(a, b), c)


def oracle(exact):
    def f(args, el, o):
        ref = angle(*args)
        r = np.asarray(ref, float)
        big = np.maximum.reduce([np.abs(np.asarray(a, float)) for a in args])
        inp = EPS * (4 + 3 * big)                                         # rounding of the arguments
        # rounding of hav = sin(s/2)**2 by up to dh
        dh = 3 * EPS + inp * np.sin(r) / 2 + inp ** 2
        h = np.sin(r / 2) ** 2
        up = 2 * np.arcsin(np.sqrt(np.minimum(h + dh, 1))) - r
        dn = r - 2 * np.arcsin(np.sqrt(np.maximum(h - dh, 0)))
        tol = 4 * EPS + (inp if exact else np.maximum(up, dn))

        def chk(raw, outs, radm):
            lim = np.pi if radm else 180.0
            bad = ~((raw[0] >= 0) & (raw[0] <= lim * (1 + 2 * EPS)))
            return np.where(bad, np.inf, engine.ratio_list(outs, [ref], [tol]))
        return {"kind": "fn", "fn": chk, "ref": [ref]}
    return f


def pairs(th):
    lats = LATS if th else LATS[::1]
    full = T.grid(LONS[::1 if th else 2], lats, LONS[1::1 if th else 3], lats)
    lo, la, dlo, dla = T.grid(LONS[::2], LATS, OFF, OFF)
    near = [lo, la, lo + dlo, np.clip(la + dla, -90, 90)]
    anti = [lo, la, lo + 180 + dlo, np.clip(-la + dla, -90, 90)]
    return T.cat(full, near, anti)


def value(ctx, name, cols, modes, opts, exact):
    engine.run_value(ctx, spec(name), cols, [None], modes, oracle(exact), opts=opts)


def invariant(ctx, name, cols, kw):
    f = spec(name).fn()
    base = f(*[c.copy() for c in cols], **kw)
    lo0, la0, lo1, la1 = cols
    r = np.radians(base)
    h = np.sin(r / 2) ** 2
    tol = np.degrees(2 * np.arcsin(np.sqrt(np.minimum(h + 2e-15, 1))) - 2 * np.arcsin(np.sqrt(np.maximum(h - 2e-15, 0))) + 1e-14)
    for nm, g in (("exchanged points", (lo1, la1, lo0, la0)), ("full turns", (lo0 + 360, la0, lo1 - 720, la1)),
                  ("mirrored latitudes", (lo0, -la0, lo1, -la1)), ("mirrored longitudes", (-lo0, la0, -lo1, la1))):
        v = f(*[np.array(c) for c in g], **kw)
        q = np.abs(v - base) / tol
        q = np.where(np.isnan(q), np.inf, q)
        ctx.add(states=len(lo0), transitions=1, traces=len(lo0))
        for i in np.flatnonzero(q > 1)[:2]:
            ctx.viol(f"{name}{kw} with {nm}: {v[i]} instead of {base[i]} for {[float(c[i]) for c in cols]}", args=[float(c[i]) for c in cols])


def hav(ctx):
    th = np.concatenate([np.linspace(-10, 10, 4001), T.pm(1e-12, 1e-8, 1e-5, np.pi, 2 * np.pi, 1e3)])

    def o(args, el, oo):
        return {"kind": "list", "ref": [(1 - np.cos(args[0])) / 2], "tol": [2 * EPS]}
    engine.run_value(ctx, spec("haversine"), [th], [None], ("arr", "2d", "py", "np0", "std"), o)


def tasks(tier):
    th = tier == "thorough"
    P = pairs(th)
    P = T.cat(P, T.kron(60000 if th else 10000, ["lon", "lat", "lon", "lat"]))
    sub = [c[:: 1 if th else 2] for c in P]
    F = [{"force_non_astropy": True}]
    N = [{"force_non_astropy": False}]
    V = ("arr", "rad", "2d")
    S = ("py", "pyrad", "std", "stdrad", "noastro")
    k = {"cols": P}
    return [("astropy", value, dict(k, name="anglesep", modes=V, opts=N, exact=True)),
            ("fallback", value, dict(k, name="anglesep", modes=V, opts=F, exact=False)),
            ("meeus", value, dict(k, name="anglesep_meeus", modes=V, opts=[{}], exact=False)),
            ("astropy-scalar", value, dict(cols=sub, name="anglesep", modes=("py", "pyrad"), opts=N, exact=True)),
            ("fallback-scalar", value, dict(cols=sub, name="anglesep", modes=S, opts=F, exact=False)),
            ("no-astropy", value, dict(cols=sub, name="anglesep", modes=("std", "stdrad", "noastro"), opts=N, exact=False)),
            ("meeus-scalar", value, dict(cols=sub, name="anglesep_meeus", modes=S, opts=[{}], exact=False)),
            ("invariance-astropy", invariant, {"name": "anglesep", "cols": P, "kw": {}}),
            ("invariance-fallback", invariant, {"name": "anglesep", "cols": P, "kw": {"force_non_astropy": True}}),
            ("invariance-meeus", invariant, {"name": "anglesep_meeus", "cols": P, "kw": {}}),
            ("haversine", hav, {})]
