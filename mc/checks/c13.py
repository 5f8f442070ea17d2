"""Every public function x options x ellipsoids x units x all scalar argument tuples with bounded deviations, executed by the real code
in three installations (NumPy+Astropy with force_non_astropy, NumPy only, neither) and compared pairwise; also without the flag
where Astropy is absent, with float, int and np.float64 arguments, and for invalid arguments (same calls rejected, same error).
State: (function, options, ellipsoid, unit, arguments); transition: one call in one installation; trace: one compared result."""
import math

import numpy as np

import api
import engine
from api import spec

NAMES = [s.key for s in api.SPECS]
# arithmetic amplified by cancellation in the function itself: looser comparison (relative to the full circle or the body)
ILL = {"lox.loxodrome_inverse": 1e-10, "lox.loxodrome_direct": 1e-9, "vincenty.vdist": 1e-10, "rsphere.euler": 1e-9, "los.lookAtSpheroid": 1e-11,
       "haversine.anglesep_meeus": 1e-8, "haversine.anglesep": 1e-10, "nvector_distance": 1e-10}
# these need NumPy and say so
NEED = {"vincenty.track2", "eci2ecef", "ecef2eci", "eci2ecef_state", "ecef2eci_state", "eci2geodetic", "geodetic2eci", "eci2aer", "aer2eci"}


def close(s, a, b, rad, scale):
    """error over tolerance of two flat results"""
    ko = engine.out_kinds(s)
    if len(a) != len(b):
        return math.inf
    if len(ko) != len(a):
        ko = [k for k in ko for _ in range(len(a) // len(ko))]
    t = ILL.get(s.key, 0.0)
    lat = [math.radians(x) if not rad else x for k, x in zip(ko, b) if k in ("lat", "auxlat", "el")]
    hor = [x for k, x in zip(ko, b) if k in ("rng", "len")]
    q = 0.0
    nth = {}
    for k, x, y in zip(ko, a, b):
        j = nth[k] = nth.get(k, -1) + 1
        w = abs(math.cos(lat[min(j, len(lat) - 1)])) if lat else 1.0
        if x == y or (x != x and y != y):
            continue
        if x != x or y != y or math.isinf(x) or math.isinf(y):
            return math.inf
        e = abs(x - y)
        if k in api.ANGLES or k == "uang":
            f = 1.0 if rad or k == "uang" else 180 / math.pi
            e = min(e, abs(2 * math.pi * f - e)) / f
            if k in ("lon", "az"):
                # horizontal angles count by what they move
                e *= w
                if s.outs[:3] == ["az", "el", "rng"]:
                    e *= min(1.0, hor[0] / scale) if hor[0] < scale else 1.0
            tol = 1e-13 + t * 6.3 + 1e-12 * abs(y) / f
        elif k in ("unit", "u1", "frac", "iso"):
            tol = 1e-12 * max(1.0, abs(y)) + t
        elif k == "jd":
            tol = 1e-9
        else:
            tol = 5e-9 * max(1.0, scale / 6.4e6) + 1e-12 * abs(y) + t * (abs(y) + scale)
        q = max(q, e / tol)
    return q


def flat(r):
    out = []
    for v in (r if isinstance(r, (tuple, list)) else [r]):
        if isinstance(v, (tuple, list)):
            out += flat(v)
        elif isinstance(v, np.ndarray):
            out += [float(x) for x in v.ravel()]
        else:
            out.append(float(v))
    return out


def here(s, rows, kw, ell, conv=float):
    k = dict(kw)
    if s.ell:
        k["ell"] = engine.ellipsoid(ell)
    f = s.fn()
    out = []
    for r in rows:
        try:
            out.append(flat(f(*[conv(v) if not hasattr(v, "year") else v for v in r], **k)))
        except Exception as e:  # noqa: BLE001
            out.append(("!exc", type(e).__name__, str(e)[:100]))
    return out


def there(mode, s, rows, kw, ell):
    got = engine.remote(mode, [(s.mod, s.name, r, kw, ell if s.ell else "none") for r in rows])
    return [g if isinstance(g, tuple) and g and g[0] == "!exc" else flat(g) for g in got]


def exc(r):
    return isinstance(r, tuple) and r[:1] == ("!exc",)


def compare(ctx, s, rows, A, B, what, rad, scale):
    ctx.add(states=len(rows), transitions=len(rows), traces=len(rows))
    for r, a, b in zip(rows, A, B):
        if exc(a) or exc(b):
            if not (exc(a) and exc(b) and a[1] == b[1]):
                ctx.viol(f"{s.key}{r} {what}: {a} against {b}")
            continue
        q = close(s, a, b, rad, scale)
        if q <= 1:
            ctx.extra["worst_ratio"] = max(ctx.extra.get("worst_ratio", 0), round(q, 4))
        else:
            ctx.viol(f"{s.key}{r} {what}: {a} against {b} ({q:.3g} tolerances)")


# arguments outside the documented domain, on top of the alphabets
WILD = {"lat": [90.5, -91.0, 180.0, math.nan, math.inf], "rlat": [91.0, -95.0], "rlat2": [91.0], "alt": [math.nan, -7e6, math.inf], "losh": [-1.0, -1e-9, math.nan],
        "dist": [-1.0, -1e-9, math.nan], "rdist": [-1.0, -1e-300, math.nan], "rng": [-5.0, math.nan, math.inf], "lon": [math.nan, math.inf, 1e6],
        "az": [math.nan, 1e5], "el": [95.0, -120.0, math.nan], "x": [math.nan], "e": [math.nan, math.inf], "auxlat": [95.0, math.nan],
        "tilt": [95.0, 180.0, -20.0], "georad": [math.nan, -1.0], "frac": [-0.5, 1.5, math.nan], "uang": [math.nan], "ulen": [-1.0], "uvec": [math.nan]}
# outside the domain the functions without documented range checks may differ in how they fail: only those with checks are compared
CHECKED = {"vincenty.vdist": "lat", "vincenty.vreckon": "lat dist", "lox.loxodrome_direct": "rlat rdist", "los.lookAtSpheroid": "losh", "azel2radec": "lat",
           "radec2azel": "lat"}


def explore(ctx, name, d, ells, mode, wild=False):
    s = spec(name)
    kinds = s.kinds()
    rows0 = s.tuples(d)
    if wild:
        base = rows0[0]
        rows0 = rows0 + [tuple(v if j == i else x for j, x in enumerate(base)) for i, k in enumerate(kinds)
                         if k in CHECKED.get(s.key, "").split() for v in WILD.get(k, []) if v == v]
    for ell in (ells if s.ell else [None]):
        el = engine.el_ref(ell)
        sc = float(el.a) / api.A0 if s.ell else 1.0
        for o in s.opt_combos():
            for rad in ((False, True) if s.deg else (False,)):
                rows = [tuple(math.radians(v) if rad and k in api.ANGLES else v * sc if k in api.LENGTHS else v for v, k in zip(r, kinds)) for r in rows0]
                kw = dict(o)
                if rad:
                    kw["deg"] = False
                what = f"{kw} ell={ell}"
                A = here(s, rows, kw, ell)
                B = there(mode, s, rows, kw, ell)
                scale = float(el.a) if s.ell else 1.0
                if s.key in NEED and mode == "std":
                    for r, a, b in zip(rows, A, B):
                        ctx.add(states=1, transitions=1)
                        if exc(b) and (b[1] in ("ImportError", "ModuleNotFoundError", "NameError") or (exc(a) and a[1] == b[1])):
                            continue
                        if exc(a) or exc(b) or not close(s, a, b, rad, scale) <= 1:
                            ctx.viol(f"{s.key}{r} {what} without NumPy: {b} instead of {a}")
                    continue
                compare(ctx, s, rows, A, B, f"{what} [NumPy+Astropy / {mode}]", rad, scale)
                if mode == "noastro" and "force_non_astropy" in kw:
                    kw2 = {k: v for k, v in kw.items() if k != "force_non_astropy"}
                    compare(ctx, s, rows, B, there(mode, s, rows, kw2, ell), f"{what} without Astropy [with / without force_non_astropy]", rad, scale)
                if mode == "noastro" and not rad:
                    compare(ctx, s, rows, A, here(s, rows, kw, ell, np.float64), f"{what} [float / np.float64]", rad, scale)
        ctx.sample({"function": s.key, "args": [str(v) for v in rows0[len(rows0) // 2]], "ell": str(ell), "installation": mode})


def extras(ctx, mode):
    """functions of lists of points and of times, present in every installation"""
    from datetime import datetime
    import importlib
    sq = ([0.0, 0.0, 10.0, 10.0], [0.0, 10.0, 10.0, 0.0])
    cases = []
    for ell in (None, "mars", "jupiter"):
        for la, lo in (sq, ([89.0, 89.0, 89.0], [0.0, 120.0, 240.0]), ([-10.0, 5.0, 60.25, -33.5], [170.0, -170.0, 179.0, 13.7])):
            cases.append(("pymap3d.karney", "geodesic_area", (la, lo), {}, ell))
            cases.append(("pymap3d.karney", "geodesic_area", ([math.radians(v) for v in la], [math.radians(v) for v in lo]), {"deg": False}, ell))
        for npts in (1, 2, 3, 7):
            cases.append(("pymap3d.karney", "geodesic_line", (10.0, 20.0, -35.0, 170.0), {"npts": npts}, ell))
        for m in ("mean", "norm"):
            for f in ("triaxial", "biaxial"):
                cases.append(("pymap3d.rsphere", f, (), {"method": m}, ell))
        for f in ("eqavol", "authalic", "rectifying"):
            cases.append(("pymap3d.rsphere", f, (), {}, ell))
    for n in (1, 2, 3, 4):
        v = [(0.48, -0.64, 0.6), (0.0, 0.6, 0.8), (0.36, 0.48, 0.8), (0.8, 0.0, 0.6)][:n]
        cases.append(("pymap3d", "nvector_mean", tuple([list(c) for c in zip(*v)]), {}, "none"))
    for t in ("2013-01-15T12:00:05", "2016-12-31 23:59:59.999999", "2013-01-15T12:00:05+05:30"):
        for f in ("juliandate",):
            cases.append(("pymap3d.sidereal", f, (datetime.fromisoformat(t),), {}, "none"))
        cases.append(("pymap3d", "datetime2sidereal", (datetime.fromisoformat(t), 0.3), {"force_non_astropy": True}, "none"))
    A = []
    for mod, f, a, kw, ell in cases:
        k = dict(kw)
        if ell != "none":
            k["ell"] = engine.ellipsoid(ell)
        try:
            A.append(flat(getattr(importlib.import_module(mod), f)(*a, **k)))
        except Exception as e:  # noqa: BLE001
            A.append(("!exc", type(e).__name__, str(e)))
    B = engine.remote(mode, cases)
    for c, a, b in zip(cases, A, B):
        ctx.add(states=1, transitions=2, traces=1)
        if exc(a) or exc(b):
            if not (exc(a) and exc(b) and a[1] == b[1]):
                ctx.viol(f"{c[1]}{c[2]} {c[3]} ell={c[4]}: {a} against {b} [{mode}]")
            continue
        b = flat(b)
        if len(a) != len(b) or any(not (x == y or (x != x and y != y) or abs(x - y) <= 1e-9 + 1e-12 * abs(y)) for x, y in zip(a, b)):
            ctx.viol(f"{c[1]}{c[2]} {c[3]} ell={c[4]}: {a} against {b} [{mode}]")
    # str2dt returns datetimes
    for t in ("2013-01-15T12:00:05", "2013-01-15T12:00:05Z", "20130115T120005", ["2013-01-15T12:00:05", "2014-01-15T12:00:05"]):
        import pymap3d.timeconv as tc
        a = tc.str2dt(t)
        b = engine.remote(mode, [("pymap3d.timeconv", "str2dt", (t,), {}, "none")])[0]
        ctx.add(states=1, transitions=2, traces=1)
        norm = list(b) if isinstance(b, tuple) else b
        if (list(a) if isinstance(a, (list, tuple)) else a) != norm:
            ctx.viol(f"str2dt({t!r}): {a} against {b} [{mode}]")


def mathfun(ctx):
    """the scalar functions the conversions are written with: same values with and without NumPy where both are defined"""
    import importlib
    m = importlib.import_module("pymap3d.mathfun")
    X = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 27.0, -27.0, 1e-300, -1e-300, 5e-324, 1e10, -1e10, 1e-9, math.pi, -math.pi / 2, 0.999999999, 3.0, -8.0]
    dom = {"acos": lambda x: abs(x) <= 1, "asin": lambda x: abs(x) <= 1, "atanh": lambda x: abs(x) < 1, "sqrt": lambda x: x >= 0, "log": lambda x: x > 0,
           "exp": lambda x: x < 700}
    one = ["acos", "asin", "asinh", "atan", "atanh", "cos", "sin", "tan", "exp", "log", "sqrt", "degrees", "radians", "sign", "isnan", "cbrt", "cube_root"]
    two = ["atan2", "copysign", "fmod", "hypot", "minimum", "power"]
    cases = [(f, (x,)) for f in one for x in X + ([math.nan] if f not in ("isnan", "sign") else [math.nan][:f == "isnan"]) if x != x or dom.get(f, lambda v: True)(x)]
    cases += [(f, (x, y)) for f in two for x in X for y in X if not (f == "fmod" and y == 0) and not (f == "power" and (x <= 0 or abs(y * math.log(x)) > 700))]
    cases += [("linspace", (a, b, n)) for a in X[2:8] for b in X[2:8] for n in (2, 3, 5, 17)]
    cases = [c for c in cases if callable(getattr(m, c[0], None))]
    got = engine.remote("std", [("pymap3d.mathfun", f, a, {}, "none") for f, a in cases])
    n = 0
    for (f, a), b in zip(cases, got):
        if exc(b):
            if b[1] == "AttributeError" or "NameError" in b[1]:
                continue
            ctx.viol(f"mathfun.{f}{a} without NumPy: {b[1:]}")
            continue
        with np.errstate(all="ignore"):
            w = flat(getattr(m, f)(*a))
        g = flat(b)
        n += 1
        if len(g) != len(w) or any(not (x == y or (x != x and y != y) or abs(x - y) <= 1e-12 * abs(y)) for x, y in zip(g, w)):
            ctx.viol(f"mathfun.{f}{a}: {g} without NumPy, {w} with it")
        elif any(x == 0 and y == 0 and math.copysign(1, x) != math.copysign(1, y) for x, y in zip(g, w)) and f in ("copysign", "atan2", "asin", "sin", "atan", "fmod"):
            ctx.viol(f"mathfun.{f}{a}: signs of zero differ, {g} and {w}")
    ctx.add(states=n, transitions=2 * n, traces=n)


def modules(ctx):
    """what can be imported and is exported does not depend on optional packages, apart from functions that say they need NumPy"""
    import importlib
    import pymap3d
    mods = ["pymap3d", "pymap3d.aer", "pymap3d.azelradec", "pymap3d.body", "pymap3d.dca", "pymap3d.ecef", "pymap3d.ellipsoid", "pymap3d.enu",
            "pymap3d.haversine", "pymap3d.karney", "pymap3d.latitude", "pymap3d.los", "pymap3d.lox", "pymap3d.ned", "pymap3d.nvector", "pymap3d.nwu",
            "pymap3d.rcurve", "pymap3d.rsphere", "pymap3d.sez", "pymap3d.sidereal", "pymap3d.spherical", "pymap3d.timeconv", "pymap3d.utils",
            "pymap3d.vallado", "pymap3d.vincenty"]
    for mode in ("std", "noastro"):
        for m in mods:
            names = sorted(getattr(importlib.import_module(m), "__all__", []))
            got = engine.remote(mode, [("importlib_probe", "names", (m,), {}, "none")])[0]
            ctx.add(states=1, transitions=2, traces=1)
            if exc(got):
                ctx.viol(f"{m} cannot be imported in the {mode} installation: {got}")
            elif sorted(got) != names:
                ctx.viol(f"{m}: exports {sorted(set(names) ^ set(got))} differ in the {mode} installation")


def tasks(tier):
    th = tier == "thorough"
    out = [("extras-std", extras, {"mode": "std"}), ("extras-noastro", extras, {"mode": "noastro"}), ("modules", modules, {}), ("mathfun", mathfun, {})]
    for n in NAMES:
        s = spec(n)
        big = len(s.args) >= 8
        slow = any(k == "t" for k in s.kinds())
        d = (2 if not big else 1) if not th else (3 if len(s.args) < 5 else 2)
        ells = [None, "jupiter"] if not th else [None, "mars", "jupiter", "clarke1866", (6371000.0, 6371000.0), (1000.0, 900.0)]
        out.append((f"{n}-std", explore, {"name": n, "d": d, "ells": ells, "mode": "std", "wild": True}))
        out.append((f"{n}-noastro", explore, {"name": n, "d": (1 if big or slow else 2) if not th else min(d, 2), "ells": ells[:1 if not th else 3],
                                              "mode": "noastro", "wild": True}))
    return out
