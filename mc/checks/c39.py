"""Every validating function x every way of violating its documented domain: value just beyond the limit, far beyond, infinite; at
every position of arrays of every small shape, mixed with valid limiting values, as scalar, mixed array/float, integer and
one-element array; in degrees and radians; with NumPy, without Astropy and without NumPy.  Invalid calls must raise the documented
ValueError (unknown ellipsoid: KeyError, prolate: AssertionError or ValueError); every call with limiting valid values at the same
places must return finite results.  State: (function, argument, value, position, shape, unit); transition: one call."""
import itertools
import math

import numpy as np

import api
import engine
from api import spec

HALF = {True: 90.0, False: math.pi / 2}
BAD_LAT = {True: [90.0 + 1e-9, 90.5, 91.0, 180.0, 270.0, 1e300, math.inf],
           False: [math.nextafter(math.pi / 2, 9), math.pi / 2 + 1e-9, 1.6, math.pi, 4.8, 90.0, math.inf]}
BAD_NEG = [-5e-324, -1e-9, -1.0, -1e7, -math.inf]
# (function, base args in degrees, {argument: kind}, has deg)
FUNCS = {
    "vincenty.vdist": ((10.0, 20.0, 30.0, 40.0), {0: "lat", 2: "lat"}),
    "vincenty.vreckon": ((10.0, 20.0, 1e6, 40.0), {0: "lat", 2: "neg"}),
    "lox.loxodrome_direct": ((10.0, 20.0, 1e5, 40.0), {0: "lat", 2: "neg"}),
    "los.lookAtSpheroid": ((10.0, 20.0, 1e5, 40.0, 10.0), {2: "neg"}),
    "azel2radec": ((10.0, 20.0, 30.0, 40.0), {2: "lat"}),
    "radec2azel": ((10.0, 20.0, 30.0, 40.0), {2: "lat"}),
}
SHAPES = [(1,), (2,), (3,), (4,), (1, 1), (2, 2), (3, 1), (1, 4), (7,), (17,), (64,)]


def bad_values(kind, deg):
    if kind == "neg":
        return BAD_NEG
    return [s * v for v in BAD_LAT[deg] for s in (1, -1)]


def limits(kind, deg):
    return [0.0, -0.0] if kind == "neg" else [HALF[deg], -HALF[deg], 0.0]


def rejects(f, args, kw):
    try:
        r = f(*args, **kw)
    except ValueError as e:
        if "ambiguous" in str(e) or "broadcast" in str(e):
            return f"the unrelated error {e}"
        return None
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"
    return f"the result {r!r}"[:160]


def units(name, base, deg):
    ks = [k for _, k in spec(name).args][:len(base)]
    return [math.radians(v) if not deg and k in api.ANGLES else v for v, k in zip(base, ks)]


def flags(name, deg):
    if name in ("azel2radec", "radec2azel"):
        return {"force_non_astropy": True}
    return {} if deg else {"deg": False}


def arrays(ctx, name, dense):
    s = spec(name)
    f = s.fn()
    base, checks = FUNCS[name]
    tail = [api.TIMES[0]] if "radec" in name else []
    for deg in ((True, False) if s.deg else (True,)):
        b = units(name, base, deg)
        kw = flags(name, deg)
        for i, kind in checks.items():
            for v in bad_values(kind, deg):
                # scalars
                for w, x in (("float", v), ("np.float64", np.float64(v)), ("0-d array", np.array(v))):
                    a = list(b)
                    a[i] = x
                    e = rejects(f, a + tail, kw)
                    ctx.add(states=1, transitions=1, traces=1)
                    if e:
                        ctx.viol(f"{name}({', '.join(map(str, a))}) {kw}: {e} instead of ValueError ({w})")
                for shp in SHAPES:
                    n = int(np.prod(shp))
                    for p in (range(n) if n <= 7 or dense else (0, 1, n // 2, n - 1)):
                        for fill in ([b[i]] + limits(kind, deg)[:2] if dense or n <= 4 else [b[i]]):
                            x = np.full(n, fill)
                            x[p] = v
                            x = x.reshape(shp)
                            for mixed in (True, False):
                                a = [x if j == i else (y if mixed else np.full(shp, y)) for j, y in enumerate(b)]
                                e = rejects(f, a + tail, kw)
                                ctx.add(states=1, transitions=1, traces=1)
                                if e:
                                    ctx.viol(f"{name} {kw}: argument {s.args[i][0]}={v} at position {p} of shape {shp} among {fill}"
                                             f"{' (floats otherwise)' if mixed else ''}: {e} instead of ValueError")
                # invalid scalar among arrays
                a = [v if j == i else np.full(3, y) for j, y in enumerate(b)]
                e = rejects(f, a + tail, kw)
                ctx.add(states=1, transitions=1, traces=1)
                if e:
                    ctx.viol(f"{name} {kw}: scalar {s.args[i][0]}={v} with arrays otherwise: {e} instead of ValueError")
            # integers
            if kind == "neg" or deg:
                iv = -1 if kind == "neg" else 91
                for x in (iv, np.int64(iv), np.array([1, iv, 2]), -iv if kind == "lat" else -7):
                    a = list(b)
                    a[i] = x
                    e = rejects(f, a + tail, kw)
                    ctx.add(states=1, transitions=1, traces=1)
                    if e:
                        ctx.viol(f"{name}({a}) {kw}: {e} instead of ValueError")
    ctx.sample({"function": name, "shapes": len(SHAPES), "bad": [float(v) for v in bad_values("lat", True)][:5]})


def accepted(ctx, name):
    """limiting valid values at every position give finite results"""
    s = spec(name)
    f = s.fn()
    base, checks = FUNCS[name]
    tail = [api.TIMES[0]] if "radec" in name else []
    for deg in ((True, False) if s.deg else (True,)):
        b = units(name, base, deg)
        kw = flags(name, deg)
        opts = [limits(checks[i], deg) + [b[i]] if i in checks else [b[i]] for i in range(len(b))]
        for a in itertools.product(*opts):
            for w in ("float", "array", "np", "2-D"):
                if w == "float":
                    args = list(a)
                elif w == "np":
                    args = [np.float64(x) for x in a]
                elif w == "array":
                    args = [np.array([x, y, x]) for x, y in zip(a, b)]
                else:
                    args = [np.array([[x, y], [y, x]]) for x, y in zip(a, b)]
                ctx.add(states=1, transitions=1, traces=1)
                try:
                    r = engine.flat(f(*args, *tail, **kw), 0)
                except Exception as e:  # noqa: BLE001
                    ctx.viol(f"{name}({args}) {kw}: {type(e).__name__}: {e} for valid limiting values")
                    continue
                if not all(np.all(np.isfinite(np.asarray(x, float))) for x in r) and "loxodrome" not in name:
                    ctx.viol(f"{name}({args}) {kw}: {r} is not finite for valid limiting values")


def std(ctx, mode):
    """scalars in the installation without NumPy (or without Astropy)"""
    calls, want = [], []
    for name, (base, checks) in FUNCS.items():
        s = spec(name)
        tail = (api.TIMES[0],) if "radec" in name else ()
        for deg in ((True, False) if s.deg else (True,)):
            b = units(name, base, deg)
            kw = flags(name, deg)
            for i, kind in checks.items():
                vals = [(v, "bad") for v in bad_values(kind, deg)] + [(v, "good") for v in limits(kind, deg)]
                for (v, w), (j, u) in itertools.product(vals, [(None, None)] + [(j, u) for j in checks if j != i for u in limits(checks[j], deg)]):
                    a = list(b)
                    a[i] = v
                    if j is not None:
                        a[j] = u
                    for ell in ((None, "mars") if s.ell else ("none",)):
                        calls.append((s.mod, s.name, tuple(a) + tail, kw, ell))
                        want.append(w)
    for c, w, r in zip(calls, want, engine.remote(mode, calls)):
        ctx.add(states=1, transitions=1, traces=1)
        exc = isinstance(r, tuple) and r and r[0] == "!exc"
        if w == "bad" and not (exc and r[1] == "ValueError"):
            ctx.viol(f"[{mode}] {c[1]}{c[2]} {c[3]}: {r} instead of ValueError")
        if w == "good" and exc:
            ctx.viol(f"[{mode}] {c[1]}{c[2]} {c[3]}: {r} for valid limiting values")


def raises(ctx, what, f, exc=ValueError):
    ctx.add(states=1, transitions=1, traces=1)
    try:
        r = f()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        ctx.viol(f"{what}: {type(e).__name__}: {e} instead of {exc}")
        return
    ctx.viol(f"{what}: returned {str(r)[:150]} instead of an error")


def fine(ctx, what, f):
    ctx.add(states=1, transitions=1, traces=1)
    try:
        return f()
    except Exception as e:  # noqa: BLE001
        ctx.viol(f"{what}: {type(e).__name__}: {e} for a valid call")


def astropy_lat(ctx):
    """the Astropy path rejects impossible observers too"""
    for name in ("azel2radec", "radec2azel"):
        f = spec(name).fn()
        for v in (90.5, -90.5, 91.0, 180.0, -270.0, 1e3):
            for x in (v, np.array([10.0, v]), np.array([v, 10.0, 20.0])):
                raises(ctx, f"{name}(10, 20, {x}, 40) with Astropy", lambda: f(10.0, 20.0, x, 40.0, api.TIMES[0]), (ValueError, TypeError))
        for v in (90.0, -90.0):
            fine(ctx, f"{name}(10, 20, {v}, 40) with Astropy", lambda: f(10.0, 20.0, v, 40.0, api.TIMES[0]))


def tracks(ctx, step):
    """number of track points and antipodal ends on a lattice"""
    import pymap3d.vincenty as V
    for n in (1, 0, -1, -100):
        for deg in (True, False):
            raises(ctx, f"track2 npts={n}", lambda: V.track2(0.1, 0.2, 0.3, 0.4, npts=n, deg=deg))
    for n in (2, 3):
        r = fine(ctx, f"track2 npts={n}", lambda: V.track2(0.1, 0.2, 0.3, 0.4, npts=n))
        if r is not None and (len(r[0]) != n or len(r[1]) != n):
            ctx.viol(f"track2 npts={n} returned {r}")
    for lat in np.arange(-90.0, 90.0 + step / 2, step):
        for lon in (0.0, -180.0, 180.0, 13.7, -82.0, 359.9, 90.0, 400.0, 1e-9):
            for sh in (180.0, -180.0, 540.0):
                for deg, n, ell in ((True, 3, None), (False, 10, None), (True, 100, "mars")):
                    a = [float(lat), lon, -float(lat), lon + sh]
                    if not deg:
                        a = [math.radians(v) for v in a]
                    raises(ctx, f"track2({a}, npts={n}, deg={deg})", lambda: V.track2(*a, npts=n, deg=deg, ell=engine.ellipsoid(ell)))
            # a millimetre-free neighbourhood is not antipodal
            a = [float(lat), lon, -float(lat) * 0.98 + 1.0, lon + 178.0]
            if abs(a[2]) <= 90:
                fine(ctx, f"track2({a})", lambda: V.track2(*a, npts=5))


def polygons(ctx, mode=None):
    import pymap3d.karney as K
    sq = ([0.0, 0.0, 10.0, 10.0], [0.0, 10.0, 10.0, 0.0])
    for n in range(0, 5):
        for deg, ell in itertools.product((True, False), (None, "mars")):
            for conv in ([list, tuple, np.array] if mode is None else [list]):
                la, lo = [conv([math.radians(v) if not deg else v for v in c[:n]]) for c in sq]
                if mode is None:
                    def g():
                        return K.geodesic_area(la, lo, deg=deg, ell=engine.ellipsoid(ell))
                    (raises if n < 3 else fine)(ctx, f"geodesic_area of {n} vertices deg={deg}", g)
                else:
                    r = engine.remote(mode, [("pymap3d.karney", "geodesic_area", (la, lo), {"deg": deg}, ell)])[0]
                    ctx.add(states=1, transitions=1, traces=1)
                    if (r[0] == "!exc" and r[1] == "ValueError") != (n < 3):
                        ctx.viol(f"[{mode}] geodesic_area of {n} vertices deg={deg}: {r}")


WORDS = ["", "xyz", "zyx ", "ZYX", "zxy", "Ned", "NED", "ecef", "body", "mean ", "Mean", "normal", "max", None, 0, 1, True, ("zyx",), ["ned"], "nedd", "wgs84"]


def words(ctx):
    """every word that is no documented method, sequence, frame or ellipsoid"""
    import pymap3d
    import pymap3d.body as B
    import pymap3d.rsphere as Q
    att = (10.0, 20.0, 30.0)
    pos = (42.0, -82.0, 200.0)
    ecef = (6.6e5, -4.7e6, 4.2e6)
    for e in (None, "mars"):
        kw = {"ell": engine.ellipsoid(e)} if e else {}
        for w in WORDS:
            for deg in (True, False):
                for n, f in (("curve", lambda: Q.curve(0.5, method=w, deg=deg, **kw)),
                             ("curve of an array", lambda: Q.curve(np.array([0.5, 0.1]), method=w, deg=deg, **kw))):
                    raises(ctx, f"rsphere.{n} method={w!r}", f)
                for frame in ("ned", "enu", "sez", "nwu"):
                    m = [f"{frame}2body", f"body2{frame}"]
                    for n in m:
                        raises(ctx, f"{n} sequence={w!r}", lambda: getattr(B, n)(1.0, 2.0, 3.0, *att, sequence=w, deg=deg))
                        raises(ctx, f"{n}_matrix sequence={w!r}", lambda: getattr(B, n + "_matrix")(*att, sequence=w, deg=deg))
                    for n, f in (("ecef2body", lambda **k: B.ecef2body(*ecef, *pos, *att, **k, **kw)),
                                 ("body2ecef", lambda **k: B.body2ecef(1.0, 2.0, 3.0, *pos, *att, **k, **kw)),
                                 ("geodetic2body", lambda **k: B.geodetic2body(41.0, -81.0, 10.0, *pos, *att, **k, **kw)),
                                 ("body2geodetic", lambda **k: B.body2geodetic(1.0, 2.0, 3.0, *pos, *att, **k, **kw)),
                                 ("ecef2bodyv", lambda **k: B.ecef2bodyv(1.0, 2.0, 3.0, *pos[:2], *att, **k)),
                                 ("body2ecefv", lambda **k: B.body2ecefv(1.0, 2.0, 3.0, *pos[:2], *att, **k))):
                        raises(ctx, f"{n} frame={frame} sequence={w!r}", lambda: f(frame=frame, sequence=w))
                raises(ctx, f"body_matrix sequence={w!r}", lambda: B.body_matrix(*att, sequence=w, deg=deg))
                for n, f in (("ecef2body", lambda **k: B.ecef2body(*ecef, *pos, *att, **k, **kw)),
                             ("body2ecef", lambda **k: B.body2ecef(1.0, 2.0, 3.0, *pos, *att, **k, **kw)),
                             ("geodetic2body", lambda **k: B.geodetic2body(41.0, -81.0, 10.0, *pos, *att, **k, **kw)),
                             ("body2geodetic", lambda **k: B.body2geodetic(1.0, 2.0, 3.0, *pos, *att, **k, **kw)),
                             ("ecef2bodyv", lambda **k: B.ecef2bodyv(1.0, 2.0, 3.0, *pos[:2], *att, **k)),
                             ("body2ecefv", lambda **k: B.body2ecefv(1.0, 2.0, 3.0, *pos[:2], *att, **k))):
                    raises(ctx, f"{n} frame={w!r}", lambda: f(frame=w, deg=deg))
            for n in ("triaxial", "biaxial"):
                raises(ctx, f"rsphere.{n} method={w!r}", lambda: getattr(Q, n)(method=w, **kw))
    for w in WORDS + ["WGS84", "wgs 84", "earth", "wgs84\n"]:
        if w == "wgs84" or isinstance(w, list):
            continue
        for k in range(2):
            raises(ctx, f"Ellipsoid.from_name({w!r})", lambda: pymap3d.Ellipsoid.from_name(w), KeyError)
    for n, f in (("mean", Q.curve), ("norm", Q.curve)):
        fine(ctx, f"curve method={n}", lambda: f(0.5, method=n))


def prolate(ctx):
    """prolate axes are refused, spheres and oblate ones accepted"""
    import pymap3d
    for a in (1.0, 1000.0, 1829.7, 6378137.0, 7e7):
        for k in (math.ulp(1.0), 1e-12, 1e-9, 1e-6, 1 / 300, 0.1, 1.0, 10.0):
            b = a * (1 + k)
            if b == a:
                continue
            raises(ctx, f"Ellipsoid({a}, {b})", lambda: pymap3d.Ellipsoid(a, b), (AssertionError, ValueError))
            raises(ctx, f"Ellipsoid({a}, {b}, name, model)", lambda: pymap3d.Ellipsoid(a, b, "n", "m"), (AssertionError, ValueError))
            fine(ctx, f"Ellipsoid({b}, {a})", lambda: pymap3d.Ellipsoid(b, a))
        fine(ctx, f"Ellipsoid({a}, {a})", lambda: pymap3d.Ellipsoid(a, a))


def tasks(tier):
    th = tier == "thorough"
    out = []
    for n in FUNCS:
        out.append((f"arrays-{n}", arrays, {"name": n, "dense": th}))
        out.append((f"accepted-{n}", accepted, {"name": n}))
    out += [("std", std, {"mode": "std"}), ("noastro", std, {"mode": "noastro"}), ("astropy", astropy_lat, {}),
            ("tracks", tracks, {"step": 0.25 if th else 2.5}), ("polygons", polygons, {}), ("polygons-std", polygons, {"mode": "std"}),
            ("words", words, {}), ("prolate", prolate, {})]
    return out
