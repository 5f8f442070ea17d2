"""Registry of the public API: argument kinds, result kinds, flags, and small argument alphabets.

The alphabets are enumerated with bounded deviations: all argument tuples that differ from the base tuple in at
most d positions (every combination of values there).
"""
from __future__ import annotations

import itertools
import math
from datetime import datetime, timedelta, timezone

A0 = 6378137.0

ANGLES = {"lat", "lon", "az", "el", "yaw", "pitch", "roll", "head", "tilt", "ang", "auxlat", "iso"}
LENGTHS = {"x", "y", "z", "e", "n", "u", "len", "alt", "h", "rng", "dist"}

T0 = datetime(2013, 1, 15, 12, 0, 5)
TIMES = [T0, datetime(2000, 1, 1, 12), datetime(1999, 12, 31, 23, 59, 59, 999999), datetime(2016, 12, 31, 23, 59, 59),
         datetime(2017, 1, 1), datetime(2020, 2, 29, 6, 30), datetime(1984, 6, 30, 18, 1, 2, 345678),
         datetime(2013, 1, 15, 7, 0, 5, tzinfo=timezone(timedelta(hours=-5)))]

ALPHA = {
    "lat": [42.0, 0.0, 90.0, -90.0, -33.5, 89.9999, 1e-9, 60.25, -0.75, -89.99999999, 45.0, 85.5],
    "lon": [-82.0, 0.0, 180.0, -180.0, 179.9999, 13.7, 359.0, 400.25, -1e-9, 90.0, -90.0, 270.0, -725.0, 120.5],
    "alt": [200.0, 0.0, -50.0, 1.0e4, -1000.0, 15000.25, 1.2e5, -1.5e5, 8.5e5, 2.0e7, 3.6e8],
    "x": [660675.2518247, 0.0, -4.7e6, 6378137.0, 1e-3, -6.9e6, 4.2e7, -3.8e8],
    "y": [-4700948.68316, 0.0, 3.0e6, 6378137.0, -1e-3, 7.1e6, -4.2e7, 1.1e8],
    "z": [4245737.66222, 0.0, -6.4e6, 1e-3, -1e-3, 6.36e6, 2.6e7, -9.0e7],
    "e": [186.277521, 0.0, 5e-4, -1e5, -3.3, 2e-3, -2e-7, 7.7e6, -4.0e8],
    "n": [286.842228, 0.0, -5e-4, 1e5, -7.1, -2e-3, 3e-7, -9.1e6, 3.0e8],
    "u": [939.692621, 0.0, 5e-4, -2e4, -0.9, 2e-3, -1e-7, 2.5e6, 5.0e8],
    "az": [33.0, 0.0, 90.0, 180.0, 270.0, 359.999, -45.5, 725.0, 135.25, 225.75, -180.0, 360.0, 1e-9],
    "el": [70.0, 0.0, 90.0, -90.0, -30.25, 1e-6, 89.99999, -60.5, 5.0],
    "rng": [1000.0, 0.0, 0.5, 1.0e5, 5e-4, 2.0e7, 4.0e8],
    "dist": [50000.0, 0.0, 0.5, 2.0e6, 1.9e7, 1e-4, 9.0e6],
    "head": [45.0, 0.0, 90.0, 180.0, -120.25, 400.0, 270.0, 359.5, -90.0, 200.5],
    "yaw": [30.0, 0.0, 90.0, 180.0, -725.25, 270.0, -45.5, 359.0, 135.0],
    "pitch": [10.0, 0.0, 90.0, -90.0, -35.5, 100.25, 89.99999, 180.0],
    "roll": [-20.0, 0.0, 90.0, 180.0, 400.5, -90.0, -135.25, 60.0],
    "tilt": [30.0, 0.0, 60.0, 5.5, 89.0],
    "auxlat": [45.0, 0.0, -30.5, 89.0, -90.0, 90.0, 60.0, 1e-9, -89.9999, 10.25],
    "iso": [50.0, 0.0, -25.0, 120.0, 1e-9, -300.0],
    "u1": [0.48, 0.6], "u2": [-0.64, 0.0], "u3": [0.6, 0.8],
    "t": TIMES[:4],
    "frac": [0.3, 0.0, 1.0, 0.5, 0.75, 1e-9],
    "rlon": [-1.4, 0.0, 3.0, 6.5, -7.5],
    "jd": [2456308.0000579, 2451545.0, 2441317.5, 2466154.25],
    "uang": [0.7, 0.0, 3.14159, -2.5, 1.5707963267948966, -3.141592653589793],
    "ulen": [5.0, 0.0, 1e-3, 7.5e5],
    "uvec": [1.5, 0.0, -3.0, 1e-3, -1e-3, 2.5e7],
}

# second-point and observer arguments use shifted alphabets so that bases differ
ALPHA2 = {
    "lat": [40.5, 0.0, 90.0, -90.0, 33.5, -89.9999, 60.25, 42.0, -42.0, 1e-9, 89.99999999],
    "lon": [-80.25, 0.0, 180.0, -180.0, -179.9999, 14.7, 401.5, 98.0, -82.0, 98.5, 278.0, 1e-9],
    "alt": [150.0, 0.0, -30.0, 9000.0, -1.0e5, 4.0e5, 3.6e7],
}


class Spec:
    def __init__(self, name, args, outs, *, mod="pymap3d", ell=False, deg=False, arr=True, std=True, opts=None,
                 single=False, base=None, kwargs=None, nonarr=()):
        self.name, self.mod = name, mod
        self.args = []
        seen = {}
        for k in args.split():
            nm, _, kind = k.partition(":")
            kind = kind or nm
            self.args.append((nm, kind))
        self.outs = outs.split()
        self.ell, self.deg, self.arr, self.std = ell, deg, arr, std
        self.opts = opts or {}
        self.single = single
        self.base = base
        self.kwargs = kwargs or {}
        self.nonarr = set(nonarr)      # argument names that must stay scalar
        self.key = (mod + "." + name).replace("pymap3d.", "", 1) if mod != "pymap3d" else name

    def fn(self):
        import importlib
        return getattr(importlib.import_module(self.mod), self.name)

    def kinds(self):
        return [k for _, k in self.args]

    def alphabet(self, i):
        nm, kind = self.args[i]
        a = (ALPHA2 if nm.endswith(("0", "2")) else {}).get(kind) or ALPHA[kind]
        if self.base and self.base[i] is not None:
            b = self.base[i]
            a = [b] + [v for v in a if v != b]
        return a

    def tuples(self, d, limit=None):
        """all argument tuples with at most d deviations from the base tuple, fewest deviations first"""
        n = len(self.args)
        al = [self.alphabet(i) for i in range(n)]
        base = [a[0] for a in al]
        out = []
        for k in range(d + 1):
            for pos in itertools.combinations(range(n), k):
                for vals in itertools.product(*[al[p][1:] for p in pos]):
                    t = list(base)
                    for p, v in zip(pos, vals):
                        t[p] = v
                    out.append(tuple(t))
                    if limit and len(out) >= limit:
                        return out
        if d and not limit:
            seen = set(out)
            for b in self.near_bases():
                for k in range(d):
                    for pos in itertools.combinations(range(n), k):
                        for vals in itertools.product(*[al[p] for p in pos]):
                            t = list(b)
                            for p, v in zip(pos, vals):
                                t[p] = v
                            t = tuple(t)
                            if t not in seen:
                                seen.add(t)
                                out.append(t)
        return out

    def near_bases(self):
        """further base tuples: the two points of the call millimetres apart, coincident, on one meridian, on one parallel across
        the antimeridian, on the equator; vectors of a few millimetres"""
        names = [a for a, _ in self.args]
        base = [self.alphabet(i)[0] for i in range(len(names))]
        ix = {a: i for i, a in enumerate(names)}

        def put(**kw):
            t = list(base)
            for a, v in kw.items():
                t[ix[a]] = v
            return tuple(t)

        out = []
        if {"lat", "lon", "lat0", "lon0"} <= set(names):
            h = "h" if "h" in ix else "alt"
            o = [base[ix[a]] for a in ("lat0", "lon0", "h0")]
            out.append(put(lat=o[0] + 5e-8, lon=o[1] - 3e-8, **{h: o[2] + 4e-3}))
            out.append(put(lat=o[0], lon=o[1], **{h: o[2]}))
        elif {"x", "y", "z", "lat0", "h0"} <= set(names):
            la, lo, h0 = math.radians(base[ix["lat0"]]), math.radians(base[ix["lon0"]]), base[ix["h0"]]
            e2 = 0.0066943799901413165
            nn = A0 / math.sqrt(1 - e2 * math.sin(la) ** 2)
            p = ((nn + h0) * math.cos(la) * math.cos(lo), (nn + h0) * math.cos(la) * math.sin(lo), (nn * (1 - e2) + h0) * math.sin(la))
            out.append(put(x=p[0] + 4e-3, y=p[1] - 3e-3, z=p[2] + 5e-3))
        elif {"lat1", "lon1", "lat2", "lon2"} <= set(names):
            a, b = base[ix["lat1"]], base[ix["lon1"]]
            out += [put(lat2=a + 5e-8, lon2=b - 3e-8), put(lat2=-35.25, lon2=b), put(lon1=179.95, lat2=a, lon2=-179.95),
                    put(lat1=0.0, lat2=0.0), put(lat2=-a, lon2=b + 170.0)]
        elif {"lat0", "lon0", "lat1", "lon1"} <= set(names):
            out.append(put(lat1=base[ix["lat0"]] + 5e-8, lon1=base[ix["lon0"]] - 3e-8))
        elif self.kinds()[:3].count("e") and self.kinds()[:3].count("n") and self.kinds()[:3].count("u"):
            v = {"e": 4e-3, "n": -6e-3, "u": 3e-3}
            out.append(tuple(v.get(k, b) if i < 3 else b for i, (k, b) in enumerate(zip(self.kinds(), base))))
        return out

    def angle_args(self):
        return [i for i, (_, k) in enumerate(self.args) if k in ANGLES]

    def opt_combos(self):
        if not self.opts:
            return [{}]
        ks = list(self.opts)
        return [dict(zip(ks, v)) for v in itertools.product(*[self.opts[k] for k in ks])]


SPECS = []


def _s(*a, **k):
    SPECS.append(Spec(*a, **k))


OBS = "lat0:lat lon0:lon h0:alt"
OB2 = "lat0:lat lon0:lon"
ATT = "yaw pitch roll"

_s("geodetic2ecef", "lat lon alt", "x y z", ell=True, deg=True)
_s("ecef2geodetic", "x y z", "lat lon alt", ell=True, deg=True)
_s("ecef2enuv", "u:e v:n w:u " + OB2, "e n u", deg=True)
_s("ecef2enu", "x y z " + OBS, "e n u", ell=True, deg=True)
_s("enu2uvw", "e n u " + OB2, "x y z", deg=True)
_s("uvw2enu", "x:e y:n z:u " + OB2, "e n u", deg=True)
_s("enu2ecef", "e n u " + OBS, "x y z", ell=True, deg=True)
_s("enu2geodetic", "e n u " + OBS, "lat lon alt", ell=True, deg=True)
_s("geodetic2enu", "lat lon h:alt " + OBS, "e n u", ell=True, deg=True)
_s("enu2ecefv", "e n u " + OB2, "x y z", deg=True)
for _f, _p, _o in (("ned", "n e d:u", "n e u"), ("nwu", "n w:e u", "n e u"), ("sez", "s:n e z:u", "n e u")):
    _s(f"aer2{_f}", "az el rng", _o, deg=True)
    _s(f"{_f}2aer", _p, "az el rng", deg=True)
    _s(f"{_f}2geodetic", f"{_p} {OBS}", "lat lon alt", ell=True, deg=True)
    _s(f"{_f}2ecef", f"{_p} {OBS}", "x y z", ell=True, deg=True)
    _s(f"ecef2{_f}", f"x y z {OBS}", _o, ell=True, deg=True)
    _s(f"geodetic2{_f}", f"lat lon h:alt {OBS}", _o, ell=True, deg=True)
    _s(f"ecef2{_f}v", f"x:e y:n z:u {OB2}", _o, deg=True)
    if _f != "ned":
        _s(f"{_f}2ecefv", f"{_p} {OB2}", "x y z", deg=True)
for _f in ("enu", "ned", "nwu", "sez"):
    _s(f"ecef2{_f}_matrix", OB2, "mat", deg=True, single=True)
    _s(f"{_f}2ecef_matrix", OB2, "mat", deg=True, single=True)
_s("enu2aer", "e n u", "az el rng", deg=True)
_s("aer2enu", "az el rng", "e n u", deg=True)
_s("aer2ecef", "az el rng " + OBS.replace("h0", "alt0"), "x y z", ell=True, deg=True)
_s("ecef2aer", "x y z " + OBS, "az el rng", ell=True, deg=True)
_s("geodetic2aer", "lat lon h:alt " + OBS, "az el rng", ell=True, deg=True)
_s("aer2geodetic", "az el rng " + OBS, "lat lon alt", ell=True, deg=True)
# body
_SEQ = {"sequence": ["zyx"]}
_s("body_matrix", ATT, "mat", deg=True, single=True)
for _f, _p, _o in (("ned", "n e d:u", "n e u"), ("enu", "e n u", "e n u"), ("sez", "s:n e z:u", "n e u"), ("nwu", "n w:e u", "n e u")):
    _s(f"{_f}2body_matrix", ATT, "mat", deg=True, single=True)
    _s(f"body2{_f}_matrix", ATT, "mat", deg=True, single=True)
    _s(f"{_f}2body", f"{_p} {ATT}", "x y z", deg=True)
    _s(f"body2{_f}", f"xb:e yb:n zb:u {ATT}", _o, deg=True)
_FR = {"frame": ["ned", "enu", "sez", "nwu"]}
_s("ecef2body", f"x y z {OBS} {ATT}", "x y z", ell=True, deg=True, opts=_FR)
_s("body2ecef", f"xb:e yb:n zb:u {OBS} {ATT}", "x y z", ell=True, deg=True, opts=_FR)
_s("ecef2bodyv", f"x:e y:n z:u {OB2} {ATT}", "x y z", deg=True, opts=_FR)
_s("body2ecefv", f"xb:e yb:n zb:u {OB2} {ATT}", "x y z", deg=True, opts=_FR)
_s("geodetic2body", f"lat lon h:alt {OBS} {ATT}", "x y z", ell=True, deg=True, opts=_FR)
_s("body2geodetic", f"xb:e yb:n zb:u {OBS} {ATT}", "lat lon alt", ell=True, deg=True, opts=_FR)
# dca
_DCA = "dr:e cr:n above:u"
_s("enu2dca", "e n u heading:head", "e n u", deg=True)
_s("dca2enu", f"{_DCA} heading:head", "e n u", deg=True)
_s("dca2ned", f"{_DCA} heading:head", "n e u", deg=True)
_s("ned2dca", "n e d:u heading:head", "e n u", deg=True)
_s("ecef2dca", f"x y z {OBS} heading:head", "e n u", ell=True, deg=True)
_s("dca2ecef", f"{_DCA} {OBS} heading:head", "x y z", ell=True, deg=True)
_s("geodetic2dca", f"lat lon h:alt {OBS} heading:head", "e n u", ell=True, deg=True)
_s("dca2geodetic", f"{_DCA} {OBS} heading:head", "lat lon alt", ell=True, deg=True)
_s("aer2dca", "az el rng heading:head", "e n u", deg=True)
_s("dca2aer", f"{_DCA} heading:head", "az el rng", deg=True)
# latitudes
_L = "pymap3d.latitude"
for _n in ("parametric", "rectifying", "authalic"):
    _s(f"geodetic2{_n}", "lat", "auxlat", mod=_L, ell=True, deg=True, single=True)
    _s(f"{_n}2geodetic", "auxlat", "lat", mod=_L, ell=True, deg=True, single=True)
_s("geodetic2conformal", "lat", "auxlat", mod=_L, ell=True, deg=True, single=True)
_s("conformal2geodetic", "auxlat", "lat", mod=_L, ell=True, deg=True, single=True)
_s("geodetic2isometric", "lat", "iso", mod=_L, ell=True, deg=True, single=True)
_s("isometric2geodetic", "iso", "lat", mod=_L, ell=True, deg=True, single=True)
_s("geodetic2geocentric", "lat alt", "auxlat", mod=_L, ell=True, deg=True, single=True)
_s("geod2geoc", "lat alt", "auxlat", mod=_L, ell=True, deg=True, single=True)
_s("geocentric2geodetic", "auxlat alt", "lat", mod=_L, ell=True, deg=True, single=True)
_s("geoc2geod", "auxlat r:dist", "lat", mod=_L, ell=True, deg=True, single=True, base=(45.0, 6.4e6))
SPECS[-1].args[1] = ("r", "georad")
ALPHA["georad"] = [6.4e6, 6378137.0, 7.0e6, 4.2e7]
LENGTHS.add("georad")
# radii
_R = "pymap3d.rcurve"
for _n in ("parallel", "meridian", "transverse", "geocentric_radius"):
    _s(_n, "lat", "len", mod=_R, ell=True, deg=True, single=True)
_Q = "pymap3d.rsphere"
for _n in ("eqavol", "authalic", "rectifying"):
    _s(_n, "", "len", mod=_Q, ell=True, arr=False, single=True)
_s("euler", "lat1:lat lon1:lon lat2:lat lon2:lon", "len", mod=_Q, ell=True, deg=True, single=True)
_s("curve", "lat", "len", mod=_Q, ell=True, deg=True, single=True, opts={"method": ["mean", "norm"]})
for _n in ("triaxial", "biaxial"):
    _s(_n, "", "len", mod=_Q, ell=True, arr=False, single=True, opts={"method": ["mean", "norm"]})
# rhumb
_X = "pymap3d.lox"
_s("loxodrome_inverse", "lat1:rlat lon1:lon lat2:rlat2 lon2:lon", "len az", mod=_X, ell=True, deg=True)
_s("loxodrome_direct", "lat1:rlat lon1:lon rng:rdist a12:az", "lat lon", mod=_X, ell=True, deg=True)
ANGLES.update({"rlat", "rlat2"})
LENGTHS.add("rdist")
ALPHA["rlat"] = [42.0, 0.0, -33.5, 85.0, 60.25, -0.75]
ALPHA["rlat2"] = [40.5, 0.0, 42.0, 33.5, -84.0, 60.25]
ALPHA["rdist"] = [50000.0, 0.0, 0.5, 3.0e5]
_s("meridian_arc", "lat1:lat lat2:lat", "len", mod=_X, ell=True, deg=True, single=True)
_s("meridian_dist", "lat", "len", mod=_X, ell=True, deg=True, single=True)
_s("departure", "lon1:lon lon2:lon lat", "len", mod=_X, ell=True, deg=True, single=True)
# geodesics
_V = "pymap3d.vincenty"
_s("vdist", "lat1:lat lon1:lon lat2:lat lon2:lon", "len az", mod=_V, ell=True, deg=True)
_s("vreckon", "lat1:lat lon1:lon rng:dist azim:az", "lat lon", mod=_V, ell=True, deg=True)
_s("track2", "lat1:lat lon1:lon lat2:lat lon2:lon", "lat lon", mod=_V, ell=True, deg=True, arr=False, std=False,
   opts={"npts": [2, 3, 10]})
_K = "pymap3d.karney"
_s("geodesic_inverse", "lat1:lat lon1:lon lat2:lat lon2:lon", "len az az", mod=_K, ell=True, deg=True, arr=False)
_s("geodesic_direct", "lat1:lat lon1:lon azi1:az dist", "lat lon az", mod=_K, ell=True, deg=True, arr=False)
_s("geodesic_line", "lat1:lat lon1:lon lat2:lat lon2:lon", "lat lon", mod=_K, ell=True, deg=True, arr=False,
   opts={"npts": [2, 5]})
# spherical, n-vector
_s("geodetic2spherical", "lat lon alt", "auxlat lon len", ell=True, deg=True)
_s("spherical2geodetic", "lat:auxlat lon radius:georad", "lat lon alt", ell=True, deg=True)
_s("geodetic2nvector", "lat lon", "u1 u1 u1", deg=True)
_s("nvector2geodetic", "n1:u1 n2:u2 n3:u3", "lat lon", deg=True)
_s("ecef2nvector", "x y z", "u1 u1 u1", ell=True, deg=True)
_s("nvector2ecef", "n1:u1 n2:u2 n3:u3 alt", "x y z", ell=True, deg=True)
# scalars only for min/max/clamped ones
_NB = (0.48, -0.64, 0.6, 0.0, 0.6, 0.8)
_s("nvector_distance", "a1:u1 a2:u2 a3:u3 b1:u1 b2:u2 b3:u3", "len", single=True, base=_NB, opts={"radius": [None, 6371000.0]})
_s("nvector_interpolate", "a1:u1 a2:u2 a3:u3 b1:u1 b2:u2 b3:u3 frac", "u1 u1 u1", arr=False, base=_NB + (0.3,))
_s("nvector_cross_track_distance", "a1:u1 a2:u2 a3:u3 b1:u1 b2:u2 b3:u3 c1:u1 c2:u2 c3:u3", "len", single=True,
   base=_NB + (0.0, -0.6, 0.8), opts={"radius": [None, 6371000.0]})
_s("nvector_intersection", "a1:u1 a2:u2 a3:u3 b1:u1 b2:u2 b3:u3 c1:u1 c2:u2 c3:u3 d1:u1 d2:u2 d3:u3", "u1 u1 u1", arr=False,
   base=_NB + (0.36, 0.48, 0.8, 0.8, 0.0, 0.6))
# line of sight
_s("lookAtSpheroid", "lat0:lat lon0:lon h0:losh az tilt", "lat lon len", mod="pymap3d.los", ell=True, deg=True)
ALPHA["losh"] = [200.0, 0.0, 1e5, 3.6e7]
LENGTHS.add("losh")
# separation
_H = "pymap3d.haversine"
_s("anglesep_meeus", "lon0:lon lat0:lat lon1:lon lat1:lat", "ang", mod=_H, deg=True, single=True)
_s("anglesep", "lon0:lon lat0:lat lon1:lon lat1:lat", "ang", mod=_H, deg=True, single=True, opts={"force_non_astropy": [True]})
_s("haversine", "theta:uang", "frac", mod=_H, single=True)
# sky
_SKY = dict(arr=True, nonarr=("t",))
_s("azel2radec", "az el lat lon t", "az el", opts={"force_non_astropy": [True], "delta_ut1": [0.0, -0.3341]}, **_SKY)
_s("radec2azel", "az el lat lon t", "az el", opts={"force_non_astropy": [True], "delta_ut1": [0.0, -0.3341]}, **_SKY)
# ECI
_EOP = {"delta_ut1": [0.0, -0.3341], "xp": [0.0, 0.14], "yp": [0.0, -0.21]}
_FNA = dict(_EOP, force_non_astropy=[True])
_s("eci2ecef", "x y z t", "x y z", opts=_FNA, nonarr=("t",))
_s("ecef2eci", "x y z t", "x y z", opts=_FNA, nonarr=("t",))
for _n in ("eci2ecef_state", "ecef2eci_state"):
    _s(_n, "x y z vx:e vy:n vz:u t", "x y z e n u", opts=_FNA, nonarr=("t",))
# time
_s("datetime2sidereal", "t lon:rlon", "uang", arr=False, single=True, opts={"force_non_astropy": [True], "delta_ut1": [0.0, -0.3341]})
_s("greenwichsrt", "jd", "uang", arr=False, single=True)
_s("juliandate", "t", "jd", mod="pymap3d.sidereal", arr=False, single=True)
# utils
_U = "pymap3d.utils"
_s("cart2pol", "x:uvec y:uvec", "uang ulen", mod=_U)
_s("pol2cart", "theta:uang rho:ulen", "uvec uvec", mod=_U)
_s("cart2sph", "x:uvec y:uvec z:uvec", "uang uang ulen", mod=_U)
_s("sph2cart", "az:uang el:uang r:ulen", "uvec uvec uvec", mod=_U)

# with Astropy installed these always use it: not comparable between installations
ASTRO = []
for _n, _a, _o in (("eci2geodetic", "x y z t", "lat lon alt"), ("geodetic2eci", "lat lon alt t", "x y z")):
    ASTRO.append(Spec(_n, _a, _o, ell=True, deg=True, opts=_EOP, nonarr=("t",)))
ASTRO.append(Spec("eci2aer", "x y z " + OBS + " t", "az el rng", deg=True, opts=_EOP, nonarr=("t",)))
ASTRO.append(Spec("aer2eci", "az el rng " + OBS + " t", "x y z", ell=True, deg=True, opts=_EOP, nonarr=("t",)))

BY = {s.key: s for s in SPECS + ASTRO}


def spec(name):
    if name in BY:
        return BY[name]
    for s in SPECS + ASTRO:
        if s.name == name:
            return s
    raise KeyError(name)
