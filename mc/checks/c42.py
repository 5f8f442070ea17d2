"""Exhaustive evaluation of cart2pol, pol2cart, cart2sph and sph2cart on the full product of signed magnitudes (zero, signed zero,
1e-300 to 1e300, subnormal ratios) for every axis, quadrant and octant, and on angle x radius products, against the defining
formulas in 80-bit arithmetic; ranges, and both round trips, are checked in every state, for arrays, scalars and the NumPy-free build.
State: (function, arguments); transition: one call; trace: one compared result or round trip."""
import numpy as np

import engine
import lattices as T
import refmodel as R
from api import spec

EPS = R.EPS
MAG2 = [0.0, 1e-300, 2.3e-170, 1e-150, 3.7e-120, 1e-30, 1e-9, 5e-4, 1.0, 1.0000001, 2.5, 3.0, 777.25, 6378137.0, 1e12, 4.4e60, 1e149, 1e150, 3.3e200, 1e300]
MAG3 = [0.0, 1e-300, 1e-150, 1e-20, 1e-3, 1.0, 1.7, 6378137.0, 1e30, 1e150, 1e300]
MAGT = [0.0, 1e-300, 2.3e-170, 1e-150, 3.7e-120, 1e-30, 1e-9, 5e-4, 1.0, 1.0000001, 2.5, 777.25, 6378137.0, 1e12, 4.4e60, 1e150, 1e300]
SMALL = [0.0, 1e-3, 1.0, 1.7, 1e6]


def sg(m):
    return np.array([v for x in m for v in (x, -x)])     # keeps -0.0


def o_cart2pol(args, el, o):
    x, y = args
    th, r = np.arctan2(y, x), np.hypot(x, y)

    def chk(raw, outs, radm):
        bad = ~(np.abs(raw[0]) <= np.pi) | ~(raw[1] >= 0)
        q = engine.ratio_list(outs, (th, r), (2 * EPS * np.abs(th).astype(float) + 1e-320, 2 * EPS * r.astype(float) + 1e-320))
        return np.where(bad, np.inf, q)
    return {"kind": "fn", "fn": chk, "ref": (th, r)}


def o_pol2cart(args, el, o):
    t, r = args
    ref = (r * np.cos(t), r * np.sin(t))
    tol = 2 * EPS * np.abs(r).astype(float) + 1e-320
    return {"kind": "list", "ref": ref, "tol": (tol, tol)}


def o_cart2sph(args, el, o):
    x, y, z = args
    h = np.hypot(x, y)
    ref = (np.arctan2(y, x), np.arctan2(z, h), np.hypot(h, z))

    def chk(raw, outs, radm):
        bad = ~(np.abs(raw[0]) <= np.pi) | ~(np.abs(raw[1]) <= np.pi / 2) | ~(raw[2] >= 0)
        q = engine.ratio_list(outs, ref, [3 * EPS * np.abs(r).astype(float) + 1e-320 for r in ref])
        return np.where(bad, np.inf, q)
    return {"kind": "fn", "fn": chk, "ref": ref}


def o_sph2cart(args, el, o):
    a, e, r = args
    ref = (r * np.cos(e) * np.cos(a), r * np.cos(e) * np.sin(a), r * np.sin(e))
    tol = 3 * EPS * np.abs(r).astype(float) + 1e-320
    return {"kind": "list", "ref": ref, "tol": (tol, tol, tol)}


O = {"cart2pol": o_cart2pol, "pol2cart": o_pol2cart, "cart2sph": o_cart2sph, "sph2cart": o_sph2cart}
INV = {"cart2pol": "pol2cart", "pol2cart": "cart2pol", "cart2sph": "sph2cart", "sph2cart": "cart2sph"}


def value(ctx, name, cols, modes):
    engine.run_value(ctx, spec(name), cols, [None], modes, O[name])


def trip(ctx, name, cols):
    """inverse(function(x)) denotes x"""
    f, g = spec(name).fn(), spec(INV[name]).fn()
    mid = f(*[c.copy() for c in cols])
    back = g(*mid)
    ctx.add(states=len(cols[0]), transitions=2, traces=len(cols[0]))
    if name.startswith("cart"):
        a, b = [R.ld(c) for c in back], [R.ld(c) for c in cols]
    else:
        o = O[name]
        b = o([R.ld(c) for c in cols], None, {})["ref"]
        a = o([R.ld(c) for c in back], None, {})["ref"]
    m = np.maximum.reduce([np.abs(c) for c in b])
    e = np.maximum.reduce([np.abs(x - y) for x, y in zip(a, b)])
    q = np.asarray(e / (8 * EPS * m + R.ld(1e-320)), float)
    q = np.where(np.isnan(q), np.inf, q)
    for i in np.flatnonzero(q > 1)[:3]:
        ctx.viol(f"{INV[name]}({name}(x)) differs from x={[float(c[i]) for c in cols]}: {[float(c[i]) for c in back]}, {q[i]:.3g} times rounding",
                 args=[float(c[i]) for c in cols])


def tasks(tier):
    th = tier == "thorough"
    m2 = sg(MAG2)
    m3 = sg(MAGT if th else MAG3)
    sm = sg(SMALL)
    c2, c3 = T.grid(m2, m2), T.grid(m3, m3, m3)
    ang = np.concatenate([np.linspace(-2 * np.pi, 2 * np.pi, 97), T.pm(1e-12, 1e-300, np.pi, np.pi / 2, np.nextafter(np.pi, 0), 50.5)])
    elv = np.concatenate([np.linspace(-np.pi / 2, np.pi / 2, 37), T.pm(1e-12, np.nextafter(np.pi / 2, 0)), [3.0, -2.0]])
    r = np.array(MAGT if th else MAG3)
    p2, p3 = T.grid(ang, r), T.grid(ang if th else ang[::3], elv, r)
    i2, i3 = T.grid(ang[np.abs(ang) <= np.pi], r), T.grid(ang[np.abs(ang) <= np.pi], elv[np.abs(elv) <= np.pi / 2], r)
    S = ("py", "np0", "std")
    tau, rad = (-7, 7), ("log", 0, 1e12)
    out = []
    for n, k in (("cart2pol", ["e", "n"]), ("pol2cart", [tau, rad]), ("cart2sph", ["e", "n", "u"]), ("sph2cart", [tau, (-3.5, 3.5), rad])):
        c = T.kron(40000 if th else 5000, k)
        out.append((f"{n}-fill", value, {"name": n, "cols": c, "modes": ("arr",)}))
        out.append((f"{n}-fill-scalars", value, {"name": n, "cols": [x[::10] for x in c], "modes": S}))
    return out + [("cart2pol", value, {"name": "cart2pol", "cols": c2, "modes": ("arr", "2d") + S}),
            ("pol2cart", value, {"name": "pol2cart", "cols": p2, "modes": ("arr", "2d") + S}),
            ("cart2sph", value, {"name": "cart2sph", "cols": c3, "modes": ("arr", "2d")}),
            ("sph2cart", value, {"name": "sph2cart", "cols": p3, "modes": ("arr", "2d")}),
            ("cart2sph-scalar", value, {"name": "cart2sph", "cols": c3 if th else T.grid(sm, sm, sm), "modes": S}),
            ("sph2cart-scalar", value, {"name": "sph2cart", "cols": p3 if th else T.grid(ang[::4], elv[::2], r[::2]), "modes": S}),
            ("trip-cart2pol", trip, {"name": "cart2pol", "cols": c2}),
            ("trip-pol2cart", trip, {"name": "pol2cart", "cols": i2}),
            ("trip-cart2sph", trip, {"name": "cart2sph", "cols": c3}),
            ("trip-sph2cart", trip, {"name": "sph2cart", "cols": i3})]
