"""Every function with an ellipsoid argument x options x units x all argument tuples with bounded deviations x ways of giving the
ellipsoid.  Oracles: (1) leaving it out, None, WGS84 by name, and WGS84's axes under any name, model, subclass or explicit derived
parameters give bit-identical results, also positionally; the same for other bodies; (2) scaling both axes and all lengths by a power
of two scales all resulting lengths and leaves all angles, for bases from sphere to strongly oblate; (3) areas scale by its square; (4) non-interference: with the default ellipsoid's axes
replaced by other ones (catalogue entry and cached object), every call that is given an ellipsoid returns bit for bit the same.
State: (function, options, arguments, ellipsoid, variant); transition: one call; trace: one compared result."""
import inspect
import itertools
import math

import numpy as np

import api
import engine
import lattices as T
import refmodel as R
from api import spec

NAMES = [s.key for s in api.SPECS + api.ASTRO if s.ell]
LEN = api.LENGTHS | {"x", "y", "z", "len"}
LOOSE = {"vincenty.vdist": 1e3, "rsphere.euler": 1e3, "vincenty.track2": 1e2, "vincenty.vreckon": 100, "los.lookAtSpheroid": 1e3}


class Body:
    """ways of writing down the same ellipsoid"""

    def __init__(self):
        import pymap3d
        self.E = pymap3d.Ellipsoid

        class Sub(pymap3d.Ellipsoid):
            """a user's subclass"""
        self.Sub = Sub

    def ways(self, name):
        E = self.E
        m = E.models[name]
        a, b = m["a"], m["b"]
        ref = E(a, b)
        out = [("by name", E.from_name(name)), ("by axes", ref), ("other name and model", E(a, b, name="Jupiter", model="jupiter")),
               ("WGS-84's name", E(a, b, name="WGS-84 (1984)", model="wgs84")), ("subclass", self.Sub(a, b)),
               ("subclass by name", self.Sub.from_name(name)),
               ("explicit parameters", E(a, b, flattening=ref.flattening, thirdflattening=ref.thirdflattening, eccentricity=ref.eccentricity)),
               ("by name again", E.from_name(name))]
        if name == "wgs84":
            out += [("None", None), ("left out", "none")]
        return out


def cols_of(s, d):
    tup = s.tuples(d)
    if "t" in s.kinds():
        j = s.kinds().index("t")
        tup = sorted({t[:j] + t[j + 1:] for t in tup})
        return T.cols_of(tup), j
    return (T.cols_of(tup) if tup and tup[0] else []), None


def call(s, cols, j, kw, arr):
    f = s.fn()
    t = [] if j is None else [api.TIMES[0]]

    def put(a):
        return list(a) if j is None else list(a[:j]) + t + list(a[j:])
    if not cols:
        return [np.array([float(f(**kw))])]
    n = len(cols[0])
    if arr:
        r = engine.flat(f(*put([c.copy() for c in cols]), **kw), 0)
        return [np.broadcast_to(np.asarray(x, float), (n,)) for x in r]
    rows = []
    for row in zip(*cols):
        try:
            r = f(*put([float(v) for v in row]), **kw)
            r = [float(x) for v in engine.flat(r, 0) for x in np.atleast_1d(np.asarray(v, float)).ravel()]
        except ValueError:
            r = None
        rows.append(r)
    w = max(len(r) for r in rows if r is not None)
    return [np.array([r[i] if r is not None else np.nan for r in rows]) for i in range(w)]


def same(ctx, name, d, bodies, arr):
    """bit-identical results for every way of giving the same ellipsoid"""
    s = spec(name)
    cols, j = cols_of(s, d)
    B = Body()
    for body in bodies:
        el = engine.el_ref(body)
        sc = float(el.a) / api.A0
        kin = [k for k in s.kinds() if k != "t"]
        ecols = [c * sc if k in api.LENGTHS else c for c, k in zip(cols, kin)]
        for o in s.opt_combos():
            for rad in ((False, True) if s.deg else (False,)):
                rc = [np.radians(c) if rad and k in api.ANGLES else c for c, k in zip(ecols, kin)]
                kw0 = dict(o, deg=False) if rad else dict(o)
                ref = None
                for what, e in B.ways(body):
                    kw = dict(kw0) if isinstance(e, str) else dict(kw0, ell=e)
                    try:
                        r = call(s, rc, j, kw, arr)
                    except Exception as ex:  # noqa: BLE001
                        ctx.viol(f"{name} {kw0} ell={body} {what}: {type(ex).__name__}: {ex}")
                        continue
                    n = len(rc[0]) if rc else 1
                    ctx.add(states=n, transitions=1 if arr else n, traces=n)
                    if ref is None:
                        ref = r
                        continue
                    bad = [i for x, y in zip(r, ref) for i in np.flatnonzero(~((x == y) | (np.isnan(x) & np.isnan(y))))]
                    if len(r) != len(ref) or bad:
                        i = bad[0] if bad else 0
                        ctx.viol(f"{name}({[float(c[i]) for c in rc]}) {kw0} ell={body} given {what}: {[float(x[i]) for x in r]} instead of "
                                 f"{[float(x[i]) for x in ref]}")
                # as a positional argument
                par = [p for p in inspect.signature(s.fn()).parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD]
                pos = [p.name for p in par].index("ell") if "ell" in [p.name for p in par] else None
                need = len(rc) + (j is not None)
                if pos is not None and pos >= need and not rad:
                    pre = [kw0.get(p.name, p.default) for p in par[need:pos]]
                    E = B.E.from_name(body)
                    f = s.fn()
                    kw1 = {k: v for k, v in kw0.items() if k not in [p.name for p in par[need:pos]]}
                    for i in range(0, len(rc[0]) if rc else 1, max(1, (len(rc[0]) if rc else 1) // 5)):
                        a = [float(c[i]) for c in rc]
                        if j is not None:
                            a.insert(j, api.TIMES[0])
                        try:
                            x = f(*a, *pre, E, **kw1)
                            y = f(*a, ell=E, **kw0)
                        except ValueError:
                            continue
                        ctx.add(states=1, transitions=2, traces=1)
                        if not np.array_equal(np.asarray(engine.flat(x, 0), float), np.asarray(engine.flat(y, 0), float), equal_nan=True):
                            ctx.viol(f"{name}{tuple(a)} with the ellipsoid as argument {pos}: {x}, by keyword: {y}")
    ctx.sample({"function": name, "bodies": list(bodies), "ways": [w for w, _ in B.ways("wgs84")]})


def scaled(ctx, name, d, bases, powers, arr, mode=None):
    """scaling by powers of two"""
    import pymap3d
    s = spec(name)
    cols, j = cols_of(s, d)
    kin = [k for k in s.kinds() if k != "t"]
    for base in bases:
        a, b = engine.el_axes(base)
        sc = a / api.A0
        ecols = [c * sc if k in api.LENGTHS else c for c, k in zip(cols, kin)]
        for o in s.opt_combos():
            for rad in ((False, True) if s.deg and mode is None else (False,)):
                rc = [np.radians(c) if rad and k in api.ANGLES else c for c, k in zip(ecols, kin)]
                kw = dict(o, deg=False) if rad else dict(o)
                out = {}
                for p in (0,) + tuple(powers):
                    f = 2.0 ** p
                    x = [c * f if k in LEN or k in ("x", "y", "z") else c for c, k in zip(rc, kin)]
                    try:
                        if mode == "std":
                            calls = [(s.mod, s.name, tuple(float(v) for v in row), kw, (a * f, b * f)) for row in (zip(*x) if x else [()])]
                            got = engine.remote("std", calls)
                            rows = [None if isinstance(g, tuple) and g[:1] == ("!exc",) else [float(v) for w in engine.flat(g, 0)
                                    for v in (w if isinstance(w, tuple) else (w,))] for g in got]
                            w = max(len(r) for r in rows if r is not None)
                            out[p] = [np.array([r[i] if r is not None else np.nan for r in rows]) for i in range(w)]
                        else:
                            out[p] = call(s, x, j, dict(kw, ell=pymap3d.Ellipsoid(a * f, b * f)), arr)
                    except Exception as ex:  # noqa: BLE001
                        ctx.viol(f"{name} {kw} axes {(a * f, b * f)}: {type(ex).__name__}: {ex}")
                if 0 not in out:
                    continue
                ref = out[0]
                n = len(ref[0])
                ko = s.outs if len(s.outs) == len(ref) else [k for k in s.outs for _ in range(len(ref) // len(s.outs))]
                big = sum((np.abs(c) for c, k in zip(rc, kin) if k in LEN or k in ("x", "y", "z")), np.zeros(n)) + a
                for p in powers:
                    if p not in out:
                        continue
                    f = 2.0 ** p
                    got = out[p]
                    ctx.add(states=n, transitions=n, traces=n)
                    if len(got) != len(ref):
                        ctx.viol(f"{name} {kw}: {len(got)} results instead of {len(ref)}")
                        continue
                    got = [x / f if k in LEN else x for x, k in zip(got, ko)]
                    q = ratio(s, ko, got, ref, big, rad, a, max(1.0, 1 / f))
                    q = q / LOOSE.get(name, 1)
                    fin = q[np.isfinite(q)]
                    if fin.size:
                        ctx.extra["worst_ratio"] = max(ctx.extra.get("worst_ratio", 0), round(float(fin.max()), 4))
                    if np.any(q > 1):
                        i = int(np.argmax(np.where(np.isfinite(q), q, 1e300)))
                        ctx.viol(f"{name}({[float(c[i]) for c in rc]}) {kw} axes ({a}, {b}) {mode or ''}: {[float(x[i]) for x in ref]}; all lengths times 2^{p}: "
                                 f"{[float(x[i]) for x in got]} after scaling back ({q[i]:.3g} tolerances, {int((q > 1).sum())} of {n})")


def ratio(s, ko, got, ref, big, rad, a, trim):
    f = 1.0 if rad else math.pi / 180
    if s.outs == ["az", "el", "rng"]:
        x, y = [R.aer2enu(R.ld(c[0]) * f, R.ld(c[1]) * f, R.ld(c[2])) for c in (got, ref)]
        q = np.zeros(len(ref[0]))
        for g, r in zip(x, y):
            e = np.asarray(np.abs(g - r), float)
            tol = 1e-13 * (big + np.abs(ref[2])) + 1e-12
            # components below 1 mm (of either call) count as zero
            e = np.where((np.abs(g) < 1e-3 * trim + tol) & (np.abs(r) < 1e-3 * trim + tol), 0, e)
            q = np.maximum(q, e / tol)
        return np.where(np.isnan(q), np.inf, q)
    lat = [x for x, k in zip(ref, ko) if k == "lat"]
    q = np.zeros(len(ref[0]))
    seen = 0
    for k, g, r in zip(ko, got, ref):
        e = np.where((g == r) | (np.isnan(g) & np.isnan(r)), 0, np.abs(g - r))
        if k in api.ANGLES:
            e = np.minimum(e, np.abs(2 * math.pi / f - e)) * f
            if k in ("lon", "az") and lat:
                e = e * np.abs(np.cos(np.nan_to_num(lat[min(seen, len(lat) - 1)]) * f))
                seen += 1
            # positions within 1e-8 m of the axis count as on it
            tol = 1e-13 + (3e-8 * trim / a if k == "lat" else 0.0)
        elif k in ("unit", "u1", "iso"):
            tol = 1e-12 * (1 + np.abs(r))
        else:
            tol = 1e-14 * (big + np.abs(np.nan_to_num(r)))
        with np.errstate(all="ignore"):
            v = e / tol
        q = np.maximum(q, np.where(np.isnan(v), np.inf, v))
    return q


def sets(ctx):
    """functions of point sets, constants and the radius option"""
    import pymap3d
    import pymap3d.karney as K
    import pymap3d.lox as X
    import pymap3d.rsphere as Q
    E = pymap3d.Ellipsoid
    pts = [(0.0, 0.0), (10.0, 5.0), (-33.5, 179.0), (60.25, -82.0), (89.0, 120.0)]
    for base in ("wgs84", "mars", "jupiter", "venus", (1000.0, 900.0)):
        a, b = engine.el_axes(base)
        for p in itertools.permutations(pts, 3):
            la, lo = [q[0] for q in p], [q[1] for q in p]
            A, P = K.geodesic_area(la, lo, ell=E(a, b))
            for k in (1, -2, 5):
                f = 2.0 ** k
                A2, P2 = K.geodesic_area(la, lo, ell=E(a * f, b * f))
                ctx.add(states=1, transitions=1, traces=1)
                if not (abs(A2 / f / f - A) <= 1e-13 * 4 * math.pi * a * a and abs(P2 / f - P) <= 1e-12 * a):
                    ctx.viol(f"geodesic_area({la}, {lo}) axes {(a, b)}: {(A, P)}; times 2^{k}: {(A2 / f / f, P2 / f)}")
            m = X.meanm(np.array(la), np.array(lo), ell=E(a, b))
            m2 = X.meanm(np.array(la), np.array(lo), ell=E(4 * a, 4 * b))
            ctx.add(states=1, transitions=2, traces=1)
            if not np.allclose(m, m2, rtol=0, atol=1e-11):
                ctx.viol(f"meanm({la}, {lo}) axes {(a, b)}: {m}; times 4: {m2}")
            if base == "wgs84":
                B = Body()
                for what, e in B.ways("wgs84"):
                    kw = {} if isinstance(e, str) else {"ell": e}
                    ctx.add(states=1, transitions=2, traces=2)
                    if K.geodesic_area(la, lo, **kw) != (A, P):
                        ctx.viol(f"geodesic_area({la}, {lo}) with WGS84 given {what}: {K.geodesic_area(la, lo, **kw)} instead of {(A, P)}")
                    if not np.array_equal(X.meanm(np.array(la), np.array(lo), **kw), m):
                        ctx.viol(f"meanm({la}, {lo}) with WGS84 given {what} differs")
        for f, mm in [(Q.eqavol, None), (Q.authalic, None), (Q.rectifying, None), (Q.triaxial, "mean"), (Q.triaxial, "norm"), (Q.biaxial, "mean"),
                      (Q.biaxial, "norm")]:
            kw = {"method": mm} if mm else {}
            r = f(ell=E(a, b), **kw)
            for k in (1, -2, 5):
                ctx.add(states=1, transitions=1, traces=1)
                if not abs(f(ell=E(a * 2.0 ** k, b * 2.0 ** k), **kw) / 2.0 ** k - r) <= 1e-14 * a:
                    ctx.viol(f"{f.__name__} {kw} axes {(a, b)} does not scale")


def noninterference(ctx, part, parts, tier):
    """calls that are given an ellipsoid do not look at the default one"""
    import pymap3d
    from pymap3d.ellipsoid import Ellipsoid, clear_ellipsoid_caches
    import calls
    th = tier == "thorough"
    ells = ["mars", (6400000.0, 6300000.0), (1000.0, 900.0)] + (["jupiter", "venus", "grs80", (6378137.0, 6356000.0)] if th else [])
    atoms = []
    for s in (api.SPECS + api.ASTRO)[part::parts]:
        if not s.ell:
            continue
        t1 = s.tuples(1 if th or s not in api.ASTRO else 0)
        for o in s.opt_combos():
            for deg in ((True, False) if s.deg else (True,)):
                for e in ells:
                    sc = engine.el_axes(e)[0] / api.A0
                    for t in t1:
                        t = tuple(v * sc if isinstance(v, float) and k in api.LENGTHS else float(np.radians(v)) if not deg and k in api.ANGLES else v
                                  for v, k in zip(t, s.kinds()))
                        kw = dict(o) if deg else dict(o, deg=False)
                        atoms.append(calls.Atom(s.mod, s.name, t, kw, e))
                        if s.arr and s.args and t is t1[0]:
                            atoms.append(calls.Atom(s.mod, s.name, tuple(v if n in s.nonarr or not isinstance(v, float) else calls.A(v, v)
                                                                         for v, (n, _) in zip(t, s.args)), kw, e))
    if part == 0:
        for a in calls.extras():
            if a.ell == "mars":
                atoms.extend(calls.Atom(a.mod, a.name, a.args, a.kw, e) for e in ells)
    ref = [a.run() for a in atoms]
    # the default becomes another body: catalogue entry, object in use, caches
    for what, f in (("much larger and rounder", (1.3, 1.302)), ("smaller and flatter", (0.9, 0.87))):
        w = Ellipsoid.from_name("wgs84")
        m = Ellipsoid.models["wgs84"]
        new = Ellipsoid(m["a"] * f[0], m["b"] * f[1], name=w.name, model=w.model)
        m["a"], m["b"] = new.semimajor_axis, new.semiminor_axis
        for k, v in vars(new).items():
            object.__setattr__(w, k, v)
        got = [a.run() for a in atoms]
        ctx.add(states=len(atoms), transitions=len(atoms), traces=len(atoms))
        clear_ellipsoid_caches()
        got2 = [a.run() for a in atoms]
        ctx.add(states=len(atoms), transitions=len(atoms), traces=len(atoms))
        n = 0
        for a, r, g, h in zip(atoms, ref, got, got2):
            if r != g or r != h:
                n += 1
                if n <= 3:
                    ctx.viol(f"{a.label}: with the default ellipsoid made {what} the result changes from {calls.show(r)} to {calls.show(g if r != g else h)}")


def tasks(tier):
    th = tier == "thorough"
    out = [("sets", sets, {})]
    for p in range(8):
        out.append((f"noninterference-{p}", noninterference, {"part": p, "parts": 8, "tier": tier}))
    for n in NAMES:
        s = spec(n)
        astro = s in api.ASTRO
        big = len(s.args) >= 8 or astro
        arr = s.arr and bool(s.args)
        bases = [None, "mars", "jupiter", (1000.0, 900.0), (6371000.0, 6371000.0)]
        names = ["wgs84", "mars", "jupiter"] if not th else ["wgs84", "mars", "jupiter", "clarke1866", "grs80", "venus", "io", "moon"]
        d = (1 if astro else 2) if not th else (2 if big else 3 if len(s.args) < 6 else 2)
        if astro:
            names, bases = names[:2 if not th else 4], bases[:3]
        if not arr:
            d = min(d, 2)
        out.append((f"same-{n}", same, {"name": n, "d": d, "bodies": names, "arr": arr}))
        out.append((f"scaled-{n}", scaled, {"name": n, "d": d, "bases": bases, "powers": (1, -3) if not th else (1, -1, 3, -3, 7),
                                            "arr": arr}))
        if arr:
            out.append((f"same-{n}-scalar", same, {"name": n, "d": 0 if astro and not th else 1 if not th or big else 2, "bodies": names[:2], "arr": False}))
            if not astro:
                out.append((f"scaled-{n}-scalar", scaled, {"name": n, "d": 1 if not th or big else 2, "bases": bases[1:3], "powers": (1, -3), "arr": False}))
        if s.std and not astro:
            out.append((f"scaled-{n}-std", scaled, {"name": n, "d": 1 if not th or big else 2, "bases": bases[1:4], "powers": (1, -3), "arr": False, "mode": "std"}))
    return out
