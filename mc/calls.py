"""Concrete calls ("atoms") of the whole public API, buildable afresh, runnable, with exact (bitwise) canonical results."""
from __future__ import annotations

import importlib
import itertools
from datetime import datetime, timedelta, timezone, tzinfo

import numpy as np

import api

T0 = api.T0


class FoldZone(tzinfo):
    """two hours ahead before 03:00 (first pass), one hour ahead in the repeated hour and after: times differing only in fold are
    equal and hash alike but are different instants"""

    def utcoffset(self, t):
        if t is None:
            return timedelta(hours=1)
        n = t.replace(tzinfo=None, fold=0)
        if n < FOLD_END - timedelta(hours=1) or (n < FOLD_END and not t.fold):
            return timedelta(hours=2)
        return timedelta(hours=1)

    def dst(self, t):
        return self.utcoffset(t) - timedelta(hours=1)

    def tzname(self, t):
        return "F"

    def fromutc(self, t):
        for off, fold in ((2, 0), (1, 1), (1, 0)):
            r = (t + timedelta(hours=off)).replace(fold=fold)
            if self.utcoffset(r) == timedelta(hours=off):
                return r
        raise ValueError

    def __repr__(self):
        return "FoldZone()"


FOLD_END = datetime(2021, 10, 31, 3)
FOLD_ZONE = FoldZone()
FOLD_TIMES = [datetime(2021, 10, 31, 2, 30, tzinfo=FOLD_ZONE), datetime(2021, 10, 31, 2, 30, tzinfo=FOLD_ZONE, fold=1)]


class Atom:
    """one call: ell 'none' (not passed), None, a catalogue name, or (a, b[, name[, model]])"""
    __slots__ = ("label", "mod", "name", "args", "kw", "ell", "key")

    def __init__(self, mod, name, args, kw=None, ell="none", tag=""):
        self.mod, self.name, self.args, self.kw, self.ell = mod, name, args, kw or {}, ell
        self.key = (mod + "." + name).replace("pymap3d.", "", 1)
        self.label = f"{self.key}{tag or repr(args)}{self.kw or ''}" + ("" if ell == "none" else f" ell={ell}")

    def build(self):
        f = importlib.import_module(self.mod)
        for part in self.name.split("."):
            f = getattr(f, part)
        kw = {k: _mk(v) for k, v in self.kw.items()}
        if self.ell != "none":
            kw["ell"] = ell_of(self.ell)
        return f, [_mk(v) for v in self.args], kw

    def run(self):
        try:
            f, a, k = self.build()
            return canon(f(*a, **k))
        except Exception as e:  # noqa: BLE001
            return ("!exc", type(e).__name__, str(e)[:200])

    def raw(self):
        f, a, k = self.build()
        return f(*a, **k)


def A(*v):
    """array argument"""
    return ("arr",) + v


def _mk(v):
    if isinstance(v, tuple) and v and v[0] == "arr":
        return np.array(v[1:], dtype=float)
    if isinstance(v, tuple) and v and v[0] == "list":
        return list(v[1:])
    if isinstance(v, tuple) and v and v[0] == "dt64":
        return np.array(v[2:], dtype=f"datetime64[{v[1]}]")
    return v


def ell_of(e):
    import pymap3d
    if e is None:
        return None
    if isinstance(e, str):
        return pymap3d.Ellipsoid.from_name(e)
    return pymap3d.Ellipsoid(*e)


def canon(r):
    """exact, hashable, picklable image of a result"""
    if isinstance(r, (bool, int, str)) or r is None:
        return r
    if isinstance(r, float) and not isinstance(r, np.generic):
        return ("f", r.hex())
    if isinstance(r, tuple):
        return ("t",) + tuple(canon(x) for x in r)
    if isinstance(r, list):
        return ("l",) + tuple(canon(x) for x in r)
    if isinstance(r, np.ndarray) and r.dtype != object:
        return ("a", r.dtype.str, r.shape, _bits(r))
    if isinstance(r, np.ndarray):
        return ("o", r.shape) + tuple(canon(x) for x in r.ravel().tolist())
    if isinstance(r, np.generic):
        return ("g", r.dtype.str, _bits(r))
    if isinstance(r, datetime):
        return ("d", repr(r))
    if hasattr(r, "semimajor_axis"):
        return ("E", r.name, r.model) + tuple(canon(getattr(r, k)) for k in
                                             ("semimajor_axis", "semiminor_axis", "flattening", "thirdflattening", "eccentricity"))
    return ("r", repr(r))


def _bits(r):
    a = np.array(r)
    if a.dtype.kind == "f":
        a[np.isnan(a)] = np.nan      # any NaN
    return a.tobytes()


def show(c, n=4):
    """readable form of a canonical result"""
    if isinstance(c, tuple) and c and c[0] == "f":
        return float.fromhex(c[1])
    if isinstance(c, tuple) and c and c[0] in ("t", "l"):
        return [show(x) for x in c[1:n + 1]]
    if isinstance(c, tuple) and c and c[0] == "a":
        return np.frombuffer(c[3], dtype=c[1])[:n].tolist()
    if isinstance(c, tuple) and c and c[0] == "g":
        return np.frombuffer(c[2], dtype=c[1])[0].item()
    return c


PHI = (1.0, 0.37, -0.51)


def _arr(kind, v, n):
    if not isinstance(v, float):
        return v
    if n == 1:
        return A(v)
    d = {"lat": 7.0, "lon": 11.0, "alt": 90.0}.get(kind, 0.01 * abs(v) + 0.003)
    return A(*[v + d * PHI[i % 3] * i for i in range(n)])


def scale_args(s, t, a):
    k = a / api.A0
    return tuple(v * k if kd in api.LENGTHS and isinstance(v, float) else v for v, (_, kd) in zip(t, s.args))


def extras():
    """calls of functions that take lists, arrays, times or nothing"""
    out = []
    K, L, S = "pymap3d.karney", "pymap3d.lox", "pymap3d.sidereal"
    sq = (("list", 10.0, 10.0, 25.0, 22.0), ("list", -5.0, 20.0, 22.0, 1.0))
    for ell in ("none", "mars"):
        for deg in (True, False):
            f = 1.0 if deg else np.pi / 180
            v = tuple(("list",) + tuple(x * f for x in q[1:]) for q in sq)
            out.append(Atom(K, "geodesic_area", v, {"deg": deg}, ell))
            out.append(Atom(K, "geodesic_area", tuple(("arr",) + q[1:] for q in v), {"deg": deg}, ell))
            out.append(Atom(K, "geodesic_line", (40.0 * f, -70.0 * f, 50.0 * f, 5.0 * f), {"npts": 5, "deg": deg}, ell))
            out.append(Atom(L, "meanm", (A(*[x * f for x in (40.0, 41.0, 39.0)]), A(*[x * f for x in (-80.0, -81.0, -79.5)])), {"deg": deg}, ell))
    out.append(Atom("pymap3d", "nvector_mean", (A(0.48, 0.6, 0.0), A(-0.64, 0.0, 0.6), A(0.6, 0.8, 0.8))))
    out.append(Atom("pymap3d", "nvector_mean", (("list", 0.48, 0.6), ("list", -0.64, 0.0), ("list", 0.6, 0.8))))
    for v in ("2013-01-15T12:00:05", T0, ("list", "2013-01-15T12:00:05", "2000-01-01"), ("list", T0, datetime(2000, 1, 1)),
              ("dt64", "s", "2013-01-15T12:00:05", "2000-01-01"), ("dt64", "us", "2013-01-15T12:00:05.25"), ("dt64", "ns", "2013-01-15T12:00:05")):
        out.append(Atom("pymap3d", "str2dt", (v,)))
    for v in (("list", T0, datetime(2000, 1, 1)), "2013-01-15T12:00:05", ("dt64", "s", "2013-01-15T12:00:05", "2000-01-01")):
        out.append(Atom("pymap3d", "datetime2sidereal", (v, 0.5), {"force_non_astropy": True}))
        out.append(Atom("pymap3d", "datetime2sidereal", (v, 0.5)))
        out.append(Atom(S, "juliandate", (v,)))
    E = "pymap3d.ellipsoid"
    for n in ("wgs84", "mars", "jupyter", "nosuch", "pz90.11"):
        out.append(Atom(E, "Ellipsoid.from_name", (n,)))
    out.append(Atom(E, "Ellipsoid", (6.4e6, 6.3e6)))
    out.append(Atom(E, "Ellipsoid", (6.4e6, 6.5e6)))
    for nm in ("azel2radec", "radec2azel"):
        out.append(Atom("pymap3d.vallado", nm, (40.0, 50.0, 42.0, -82.0, T0)))
        out.append(Atom("pymap3d.vallado", nm, (A(40.0, 300.0), A(50.0, -5.0), 42.0, -82.0, T0)))
        out.append(Atom("pymap3d.vallado", nm, (A(40.0, 300.0), A(50.0, -5.0), A(42.0, -90.0), -82.0, T0)))
    O = "pymap3d.earth_orientation"
    T1 = datetime(2016, 12, 31, 23, 59, 59, tzinfo=timezone(timedelta(hours=2)))
    for t in FOLD_TIMES:
        out.append(Atom(S, "juliandate", (t,)))
        out.append(Atom("pymap3d", "datetime2sidereal", (t, 0.5), {"force_non_astropy": True}))
    for t in (T0, T1, *FOLD_TIMES):
        out.append(Atom(O, "leap_seconds", (t,)))
        out.append(Atom(O, "eci_to_ecef_matrix", (t,), {"delta_ut1": 0.1, "xp": 0.2, "yp": -0.1}))
        out.append(Atom(O, "eci_to_ecef_matrix_rate", (t,)))
    return out


def variants(s, opts=None, ells=("none", "mars"), arrays=(0, 1, 3), degs=(True, False)):
    """calls of one function: options x ellipsoids x units x scalar/one-element/several-element arrays at the base tuple"""
    base = tuple(s.alphabet(i)[0] for i in range(len(s.args)))
    out = []
    for o in (opts if opts is not None else s.opt_combos()):
        for ell in (ells if s.ell else ("none",)):
            for deg in (degs if s.deg else (True,)):
                for n in arrays:
                    if n and not s.arr:
                        continue
                    t = base
                    if not deg:
                        t = tuple(float(np.radians(v)) if kd in api.ANGLES else v for v, (_, kd) in zip(t, s.args))
                    if n:
                        t = tuple(v if nm in s.nonarr else _arr(kd if deg else "", v, n) for v, (nm, kd) in zip(t, s.args))
                    kw = dict(o)
                    if not deg:
                        kw["deg"] = False
                    kw.update(s.kwargs)
                    out.append(Atom(s.mod, s.name, t, kw, ell, tag=f"[{'deg' if deg else 'rad'} n={n}]"))
    return out


def astro_specs():
    """the Astropy path of the functions that have two"""
    out = []
    for s in api.SPECS:
        if "force_non_astropy" in s.opts:
            q = {k: v for k, v in s.opts.items() if k != "force_non_astropy"}
            c = api.Spec.__new__(api.Spec)
            c.__dict__.update(s.__dict__)
            c.opts = q
            out.append(c)
    return out + list(api.ASTRO)


def all_specs():
    return list(api.SPECS) + astro_specs()


def every(**kw):
    out = []
    for s in all_specs():
        out += variants(s, **kw)
    return out + extras()
