"""Exhaustive evaluation of every auxiliary-latitude function on the full lattice of latitudes (special, near-special and dense) x
altitudes x ellipsoids, including a ladder of flattenings at which every order of the series is distinguishable, in all call
modes, against the definitions of the latitudes (meridian arc and authalic integrals by quadrature, isometric and conformal
closed forms, confocal coordinates; inverses by bisection) in extended precision; plus odd symmetry, monotonicity, fixed points and
exact round trips.  State: (function, ellipsoid, latitude, altitude); transition: one call; trace: one compared value."""
import numpy as np

import engine
import lattices as T
import refmodel as R
from api import spec

EPS = R.EPS
A = 6378137.0
LADDER = [(A, A * (1 - f)) for f in (0.0, 1e-7, 1e-5, 1 / 5000, 1 / 1000, 1 / 600, 1 / 298.257223563, 1 / 150, 1 / 80, 1 / 50, 1 / 30, 1 / 15.0, 1 / 10.0)]
DENSE = np.linspace(-90, 90, 181)
LATS = np.unique(np.concatenate([T.LAT, DENSE]))
# published series: truncation coefficient of the next order, as power of e (about twice the observed maximum)
TRUNC = {"geodetic2rectifying": (0.004, 10), "rectifying2geodetic": (0.025, 10), "geodetic2authalic": (0.25, 8), "authalic2geodetic": (0.3, 8),
         "conformal2geodetic": (0.35, 10), "isometric2geodetic": (0.35, 10), "geodetic2conformal": (0, 2), "geodetic2parametric": (0, 2),
         "parametric2geodetic": (0, 2), "geodetic2geocentric": (0, 2), "geod2geoc": (0, 2), "geocentric2geodetic": (0, 2)}


def inverse(fn, x, el, tol):
    """the returned latitude must have the given image; d(image)/d(latitude) is between (1-f)^2 and 1/(1-f)^2"""
    return {"kind": "fn", "fn": lambda raw, outs, radm: np.where(np.abs(np.asarray(outs[0], float)) > np.pi / 2 * (1 + 4 * EPS), np.inf,
                                                               np.asarray(np.abs(fn(outs[0], el) - x), float) / tol * float(1 - el.f) ** 2)}


def oracle(name):
    def f(args, el, o):
        x = args[0]
        e = float(el.e)
        k, p = TRUNC.get(name, (0, 2))
        tol = np.asarray(EPS * (3 + 6 * np.abs(np.asarray(x, float))) + k * e ** p, float)
        if name in ("geodetic2geocentric", "geod2geoc"):
            ref = R.geocentric(x, args[1], el)
        elif name == "geocentric2geodetic":
            # exact on the surface; at height the normal radius is taken at the geocentric latitude
            alt = args[1]
            tol = tol + 0.3 * e ** 6 * np.abs(np.asarray(alt / el.a, float))
            return inverse(lambda t, e_: R.geocentric(t, alt, e_), x, el, tol)
        elif name == "geodetic2parametric":
            ref = R.parametric(x, el)
        elif name == "parametric2geodetic":
            ref = np.arctan2(el.a * np.sin(x), el.b * np.cos(x))
        elif name == "geodetic2rectifying":
            ref = R.rectifying(x, el)
        elif name == "rectifying2geodetic":
            return inverse(R.rectifying, x, el, tol)
        elif name == "geodetic2authalic":
            ref = R.authalic(x, el)
        elif name == "authalic2geodetic":
            return inverse(R.authalic, x, el, tol)
        elif name == "geodetic2conformal":
            ref = R.conformal(x, el)
            col = np.asarray(np.abs(R.PI / 2 - np.abs(x)), float)
            tol = tol + np.minimum(1.6e-8, EPS / np.maximum(col, 1e-12))
        elif name == "conformal2geodetic":
            return inverse(R.conformal, x, el, tol)
        elif name == "geodetic2isometric":
            ref = R.isometric(x, el)
            c = np.asarray(np.cos(x), float)
            tol = EPS * (4 + 4 * np.abs(np.asarray(x, float)) / np.maximum(np.abs(c), 1e-12) + 2 * np.abs(np.asarray(ref, float)))

            def chk(raw, outs, radm, ref=ref, tol=tol, c=c, x=x):
                q = np.asarray(np.abs(outs[0] - ref), float) / tol
                pole = np.abs(c) <= 1.0001e-9
                inf = np.isinf(raw[0]) & (np.sign(raw[0]) == np.sign(np.asarray(x, float)))
                q = np.where(np.isnan(q), np.inf, q)
                return np.where(np.abs(c) <= 0.9999e-9, np.where(inf, 0, np.inf), np.where(pole & inf, 0, q))
            return {"kind": "fn", "fn": chk, "ref": [ref]}
        elif name == "isometric2geodetic":
            chi = np.arctan(np.sinh(np.clip(x, -300, 300)))
            ref = R.invert(R.conformal, chi, el)
            tol = tol + EPS * (2 + np.abs(np.asarray(x, float)) * np.asarray(1 / np.cosh(np.clip(x, -300, 300)), float) * 4)
        return {"kind": "list", "ref": [ref], "tol": [tol]}
    return f


NAMES = ["geodetic2parametric", "parametric2geodetic", "geodetic2rectifying", "rectifying2geodetic", "geodetic2authalic", "authalic2geodetic",
         "geodetic2conformal", "conformal2geodetic", "geodetic2isometric", "isometric2geodetic", "geodetic2geocentric", "geod2geoc",
         "geocentric2geodetic"]
ISO = np.sort(T.pm(0, 1e-12, 1e-6, 0.5, 5, 12.25, 30, 50, 57.3, 75, 100, 150, 200, 300, 600, 1000, 2000, 5000))
ALTS = [0.0, 1e-3, -1e-3, 200.0, -50.0, 8848.0, -1e4, 4e5, 2e7]


def cols(name, n=181):
    LATS = np.unique(np.concatenate([T.LAT, np.linspace(-90, 90, n)]))
    if name == "isometric2geodetic":
        return [ISO]
    if name in ("geodetic2geocentric", "geod2geoc", "geocentric2geodetic"):
        return T.grid(LATS, ALTS)
    return [LATS]


def value(ctx, name, ells, modes, n=181):
    engine.run_value(ctx, spec(name), cols(name, n), ells, modes, oracle(name))


def fill(ctx, name, n, ells, modes):
    """lattices filling latitude x altitude (or the isometric latitude)"""
    kinds = [("log", -700, 700)] if name == "isometric2geodetic" else ["lat", ("log", -1e4, 2e7)][:len(spec(name).args)]
    engine.run_value(ctx, spec(name), T.kron(n, kinds, len(name) % 5), ells, modes, oracle(name))
    if name == "isometric2geodetic":
        engine.run_value(ctx, spec(name), T.kron(n, [(-300, 300)]), ells, modes, oracle(name))


def shape(ctx, name, ells):
    """odd, increasing, fixed equator and poles; exact round trip with the inverse function"""
    s = spec(name)
    f = s.fn()
    import importlib
    mod = importlib.import_module(s.mod)
    a, _, b = name.partition("2")
    two = len(s.args) == 2
    for ell in ells:
        el = engine.ellipsoid(ell)
        for alt in (0.0, 500.0, -20.0) if two else (None,):
            for deg in (True, False):
                x = LATS if deg else np.radians(LATS)
                if name == "isometric2geodetic":
                    x = ISO if deg else np.radians(ISO)
                ex = (np.full(x.shape, alt),) if two else ()
                y = np.asarray(f(x.copy(), *ex, ell=el, deg=deg), float)
                z = np.asarray(f(-x, *ex, ell=el, deg=deg), float)
                ctx.add(states=len(x), transitions=2, traces=2 * len(x))
                u = 1.0 if deg else np.pi / 180
                slack = 3e-14 * u + (1.8e-6 * u if name == "geodetic2conformal" else 0) * (np.abs(x) > 89.99 * u)
                fin = np.isfinite(y) & np.isfinite(z)
                if np.any(np.abs(y + z)[fin] > (slack + 1e-14 * np.abs(y))[fin]) or np.any(y[~fin] != -z[~fin]):
                    i = int(np.argmax(np.where(fin, np.abs(y + z), 0)))
                    ctx.viol(f"{name} is not odd: f({x[i]!r})={y[i]!r}, f(-x)={z[i]!r} ell={ell} deg={deg} alt={alt}")
                with np.errstate(all="ignore"):
                    d = np.diff(y)
                if np.any(d < -(slack + 4e-16 * np.abs(y)[1:] if np.ndim(slack) == 0 else slack[1:] + 4e-16 * np.abs(y)[1:])):
                    i = int(np.argmin(d))
                    ctx.viol(f"{name} decreases between {x[i]!r} and {x[i + 1]!r} ell={ell} deg={deg} alt={alt}")
                if name != "isometric2geodetic":
                    for v in (0.0, 90.0, -90.0):
                        vv = v if deg else np.radians(v)
                        w = float(f(vv, *([alt] if two else []), ell=el, deg=deg))
                        ok = np.isinf(w) and w * v > 0 if (name == "geodetic2isometric" and v) else abs(w - vv) <= 1e-14 * (1 if not deg else 57.3) + (
                            1e-6 * u if name == "geodetic2conformal" and v else 0)
                        ctx.add(transitions=1, traces=1)
                        if not ok:
                            ctx.viol(f"{name}({vv!r}) = {w!r}, ell={ell} deg={deg} alt={alt}")
    ctx.sample({"call": name, "ells": len(ells)})


def roundtrip(ctx, fwd, inv, ells):
    s, t = spec(fwd), spec(inv)
    two = len(s.args) == 2
    for ell in ells:
        el = engine.ellipsoid(ell)
        e = float(engine.el_ref(ell).e)
        x = LATS[np.abs(LATS) < 89.9999]
        for alt in (0.0, 300.0) if two else (None,):
            ex = (np.full(x.shape, alt * float(engine.el_ref(ell).a) / A),) if two else ()
            y = s.fn()(x.copy(), *ex, ell=el)
            z = np.asarray(t.fn()(y, *ex, ell=el), float)
            k, p = TRUNC.get(inv, (0, 2))
            k2, _ = TRUNC.get(fwd, (0, 2))
            tol = np.degrees((k + k2) * e ** p + 1e-15 + (0.3 * e ** 6 * (alt or 0) / 6.3e6)) + 1e-13
            if "conformal" in fwd:
                tol = tol + np.degrees(np.minimum(1.6e-8, 2 * EPS / np.radians(90.0 - np.abs(x))))
            ctx.add(states=len(x), transitions=2, traces=len(x))
            q = np.abs(z - x) / tol
            if not np.all(q <= 1):
                i = int(np.nanargmax(np.where(np.isfinite(q), q, 1e9)))
                ctx.viol(f"{inv}({fwd}({x[i]!r})) = {z[i]!r} ell={ell} alt={alt}")
    ctx.sample({"round trip": [fwd, inv]})


def tasks(tier):
    th = tier == "thorough"
    out = []
    allells = T.ellipsoids("all") + LADDER
    for n in NAMES:
        out.append((f"value-{n}", value, {"name": n, "ells": allells if th else LADDER + [None, "mars", "jupiter", (1000.0, 900.0)], "modes": ("arr", "rad"), "n": 9001 if th else 721}))
        out.append((f"modes-{n}", value, {"name": n, "ells": allells if th else [None, (A, A * 49 / 50)], "modes": ("2d", "2drad", "py", "pyrad", "std", "stdrad", "np0")}))
        out.append((f"fill-{n}", fill, {"name": n, "n": 20000 if th else 2000, "ells": [None, "mars", (A, A * 49 / 50)], "modes": ("arr", "rad")}))
        out.append((f"fill-modes-{n}", fill, {"name": n, "n": 2000 if th else 300, "ells": [None, "mars"], "modes": ("py", "pyrad", "std", "stdrad", "np0")}))
        out.append((f"shape-{n}", shape, {"name": n, "ells": allells if th else [None, "mars", (A, A), (A, A * 49 / 50)]}))
    for x in ("parametric", "rectifying", "authalic", "conformal", "isometric", "geocentric"):
        out.append((f"roundtrip-{x}", roundtrip, {"fwd": f"geodetic2{x}", "inv": f"{x}2geodetic", "ells": allells}))
    return out
