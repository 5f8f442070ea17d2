"""Every conversion function x ellipsoids x options x all argument tuples with bounded deviations x the group generated by common
longitude shifts, full turns of each angle, the east-west and the north-south reflection.  Oracle: equivariance, out(g(args)) =
g(out(args)); directions and positions are compared as vectors, so that conventions at poles and verticals do not matter.
State: (function, ellipsoid, options, arguments, group element); transition: one call; trace: one compared result."""
import math

import numpy as np

import api
import engine
import lattices as T
import refmodel as R
from api import spec
from checks import common as C

SKIP = {"haversine", "greenwichsrt", "juliandate", "datetime2sidereal", "cart2pol", "pol2cart", "cart2sph", "sph2cart", "eci2ecef", "ecef2eci",
        "eci2ecef_state", "ecef2eci_state"}
NAMES = [s.key for s in api.SPECS if s.name not in SKIP and s.args]
SHIFTS = (90.0, 180.0, -37.25, 123.0, 359.5)
ARGKIND = {"lat": "lat", "rlat": "lat", "rlat2": "lat", "auxlat": "lat", "iso": "iso", "lon": "lon", "az": "az", "head": "az", "yaw": "yaw",
           "pitch": "pitch", "roll": "roll"}
# the rounding of these is amplified by the function itself (see the reference checks); value: factor on the tolerance
LOOSE = {"lookAtSpheroid": 2e3, "vdist": 1e4, "euler": 1e5, "loxodrome_inverse": 1e4, "loxodrome_direct": 1e4, "anglesep": 1e4, "anglesep_meeus": 1e8,
         "track2": 1e3, "vreckon": 100, "nvector_intersection": 20}


def slots(s):
    """what each argument is geometrically"""
    names = [nm for nm, _ in s.args]
    out = []
    for nm, k in s.args:
        if k in ARGKIND:
            out.append(ARGKIND[k])
        elif nm in ("xb", "yb", "zb"):
            out.append("b" + nm[0])
        elif nm in ("dr", "cr", "above"):
            out.append({"dr": "inv", "cr": "cr", "above": "inv"}[nm])
        elif k in ("u1", "u2", "u3") and len(nm) == 2 and nm[1] in "123":
            out.append("v" + "xyz"[int(nm[1]) - 1])
        elif k in ("x", "y", "z"):
            out.append("v" + k)
        elif "x" in names and nm in ("x", "y", "z"):
            out.append("v" + nm)
        elif s.name == "ecef2enuv":
            out.append({"u": "vx", "v": "vy", "w": "vz"}[nm] if nm in "uvw" else "lat" if k == "lat" else "lon")
        elif k in ("e", "n", "u"):
            out.append("l" + k)
        else:
            out.append("inv")
    return out


def outslots(s):
    if s.name.startswith("nvector_cross"):
        return ["cr"]
    if s.name in ("nvector_interpolate", "nvector_intersection") or s.outs == ["u1", "u1", "u1"]:
        return ["vx", "vy", "vz"]
    if s.name.endswith(("2body", "2bodyv")):
        return ["bx", "by", "bz"]
    if s.name.endswith("2dca"):
        return ["inv", "cr", "inv"]
    if s.name in ("azel2radec",):
        return ["ra", "lat"]
    if s.name == "enu2uvw":
        return ["vx", "vy", "vz"]
    if s.name == "radec2azel":
        return ["az", "el"]
    return ["v" + k if k in ("x", "y", "z") else "l" + k if k in ("e", "n", "u") else ARGKIND.get(k, "inv") for k in s.outs]


def act(g, kinds, cols):
    """apply a group element to columns of the given kinds"""
    out = [np.asarray(c, float) for c in cols]
    w, par = g
    if w == "shift":
        out = [c + par if k in ("lon", "ra") else c for k, c in zip(kinds, out)]
        c_, s_ = {90.0: (0.0, 1.0), 180.0: (-1.0, 0.0)}.get(par, (math.cos(math.radians(par)), math.sin(math.radians(par))))
        i = 0
        while i < len(kinds):
            if kinds[i] == "vx":
                x, y = out[i], out[i + 1]
                out[i], out[i + 1] = c_ * x - s_ * y, s_ * x + c_ * y
            i += 1
    elif w == "turn":
        i, k = par
        if kinds is not None and i is not None:
            out[i] = out[i] + 360.0 * k
    else:
        ew, ns = w in ("ew", "both"), w in ("ns", "both")
        for i, k in enumerate(kinds):
            c = out[i]
            if ew and k in ("lon", "vy", "le", "az", "yaw"):
                c = -c
            if ns and k in ("lat", "iso", "vz", "ln"):
                c = -c
            if ns and k in ("az", "yaw"):
                c = 180.0 - c
            if k in ("roll", "by", "cr") and ew != ns:
                c = -c
            out[i] = c
    return out


def elements(s, kinds, thorough):
    """group elements under which the function is equivariant"""
    out = []
    if "radec" not in s.name:
        out += [("ew", None), ("both", None)]
    if s.name == "radec2azel" or s.name == "azel2radec":
        out = [("ns", None)]
    else:
        out += [("ns", None)]
    if any(k in ("lon", "vx") for k in kinds):
        out += [("shift", d) for d in (SHIFTS if thorough else SHIFTS[:4])]
    for i, k in enumerate(kinds):
        if k in ("lon", "az", "yaw", "roll"):
            out += [("turn", (i, n)) for n in ((1, -1, 2) if thorough else (1, -1))]
    return out


# sky directions: registry kinds are az, el
def sky(s, kinds):
    if s.name == "azel2radec":
        return ["az", "inv", "lat", "lon", "inv"]
    if s.name == "radec2azel":
        return ["ra", "lat", "lat", "lon", "inv"]
    return kinds


def matrix(s, g, m):
    """group action on a matrix result: rows are the target frame, columns the source frame"""
    def diag(frame):
        w = g[0]
        ew, ns = w in ("ew", "both"), w in ("ns", "both")
        if frame == "ecef":
            if w == "shift":
                a = math.radians(g[1])
                return np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1.0]])
            return np.diag([1.0, -1.0 if ew else 1.0, -1.0 if ns else 1.0])
        if frame == "body":
            return np.diag([1.0, -1.0 if ew != ns else 1.0, 1.0])
        e, n = (-1.0 if ew else 1.0), (-1.0 if ns else 1.0)
        return np.diag({"enu": [e, n, 1.0], "ned": [n, e, 1.0], "nwu": [n, e, 1.0], "sez": [n, e, 1.0]}[frame])
    nm = s.name[:-len("_matrix")]
    src, dst = nm.split("2") if "2" in nm else ("ned", "body")
    return np.einsum("ij,njk,kl->nil", diag(dst), m, diag(src).T)


def vectors(s, kinds, cols, el):
    """results as columns that may be compared by difference, with their scale"""
    c = [R.ld(x) for x in cols]
    ko = s.outs
    a = float(el.a)
    if ko[:3] == ["lat", "lon", "alt"]:
        return R.geodetic2ecef(R.rad(cols[0]), R.rad(cols[1]), c[2], el), np.abs(cols[2]) + a
    if ko[:3] == ["auxlat", "lon", "len"]:
        la, lo = R.rad(cols[0]), R.rad(cols[1])
        return [c[2] * np.cos(la) * np.cos(lo), c[2] * np.cos(la) * np.sin(lo), c[2] * np.sin(la)], np.abs(cols[2])
    if ko == ["az", "el", "rng"]:
        return R.aer2enu(R.rad(cols[0]), R.rad(cols[1]), c[2]), np.abs(cols[2])
    if ko[:2] == ["lat", "lon"]:
        la, lo = R.rad(cols[0]), R.rad(cols[1])
        v = [a * np.cos(la) * np.cos(lo), a * np.cos(la) * np.sin(lo), a * np.sin(la)]
        sc = np.full(len(cols[0]), a)
        if len(ko) == 3 and ko[2] == "len":
            v, sc = v + [c[2]], sc + np.nan_to_num(np.abs(cols[2]))
        elif len(ko) == 3:   # azimuth on arrival
            v += [a * np.cos(la) * np.cos(R.rad(cols[2])), a * np.cos(la) * np.sin(R.rad(cols[2]))]
        return v, sc
    if ko[0] == "len" and len(ko) > 1:
        # direction times distance, at most one radius
        w = np.minimum(c[0], a)
        v = [c[0]]
        for z in cols[1:]:
            v += [w * np.cos(R.rad(z)), w * np.sin(R.rad(z))]
        return v, np.abs(cols[0]) + a
    if kinds == ["ra", "lat"] or kinds == ["az", "el"]:
        p, q = R.rad(cols[0]), R.rad(cols[1])
        return [np.cos(q) * np.cos(p), np.cos(q) * np.sin(p), np.sin(q)], np.ones(len(cols[0]))
    return c, None


def antipodal(s, cols):
    """pairs whose direction is not determined: (nearly) antipodal ones, meridians of rhumb lines half a turn apart"""
    nm = [n for n, _ in s.args]
    if s.name == "ecef2nvector":   # the centre has no direction
        return sum(c * c for c in cols) < 1e-4 * max(c.max() for c in cols) ** 2
    if not {"lat1", "lon1", "lat2", "lon2"} <= set(nm):
        return np.zeros(len(cols[0]), bool)
    la1, lo1, la2, lo2 = [cols[nm.index(k)] for k in ("lat1", "lon1", "lat2", "lon2")]
    d = np.abs((lo1 - lo2 + 180.0) % 360.0 - 180.0)
    if s.name.startswith("loxo"):
        return d > 179.999999
    x = R.rad(la1), R.rad(la2)
    if s.name == "euler":   # the direction between coincident points is not defined
        near = (np.abs(la1 - la2) < 1e-6) & (np.cos(x[0]) * np.sin(R.rad(d / 2)) < 1e-6)
        return np.asarray(near, bool)
    cosang = np.sin(x[0]) * np.sin(x[1]) + np.cos(x[0]) * np.cos(x[1]) * np.cos(R.rad(d))
    return np.asarray(cosang < -0.9999, bool)


def run(s, cols, ell, o, mode):
    """result columns (each of len N) or matrices (N,3,3)"""
    kw = dict(o)
    N = len(cols[0])
    t = [api.TIMES[0]] if "t" in s.kinds() else []
    if mode == "std":
        got = engine.remote("std", [(s.mod, s.name, tuple(float(v) for v in row) + tuple(t), kw, ell if s.ell else "none") for row in zip(*cols)])
        if s.outs == ["mat"]:
            return np.array(got, float)
        if s.name in ("track2", "geodesic_line"):
            return [np.array([r[i][j] for r in got], float) for j in range(len(got[0][0])) for i in range(2)]
        return [np.array(c, float) for c in zip(*[engine.flat(g, 0) for g in got])]
    if s.ell:
        kw["ell"] = engine.ellipsoid(ell)
    f = s.fn()
    if mode == "arr":
        r = engine.flat(f(*[c.copy() for c in cols], *t, **kw), 0)
        r = [np.broadcast_to(np.asarray(x, float), (N,)) for x in r]
        if s.outs == ["mat"]:
            return np.stack(r, axis=1).reshape(N, 3, 3)
        return r
    rows = [f(*[float(v) for v in row], *t, **kw) for row in zip(*cols)]
    if s.outs == ["mat"]:
        return np.array(rows, float)
    if s.name in ("track2", "geodesic_line"):
        return [np.array([np.asarray(r[i], float)[j] for r in rows]) for j in range(len(rows[0][0])) for i in range(2)]
    return [np.array(c, float) for c in zip(*[engine.flat(r, 0) for r in rows])]


def explore(ctx, name, d, ells, mode, thorough=False):
    s = spec(name)
    ki = sky(s, slots(s))
    ko = outslots(s)
    for ell in (ells if s.ell else [None]):
        el = engine.el_ref(ell)
        sc = float(el.a) / api.A0 if s.ell else 1.0
        tup = [t for t in s.tuples(d)]
        if "t" in s.kinds():
            tup = sorted({t[:-1] for t in tup})
        cols = T.cols_of(tup)
        kin = s.kinds()
        cols = [c * sc if k in api.LENGTHS else c for c, k in zip(cols, kin)]
        scale0 = sum(np.abs(c) for c, k in zip(cols, kin) if k in api.LENGTHS or k in ("x", "y", "z")) + (float(el.a) if s.ell else 0.0)
        big = 1 + sum(np.abs(np.radians(c)) for c, k in zip(cols, kin) if k in api.ANGLES)
        skip = antipodal(s, cols)
        line = s.name in ("track2", "geodesic_line")
        if line:   # such ends are rejected
            cols = [c[~skip] for c in cols]
            scale0, big, skip = np.broadcast_to(scale0, (len(tup),))[~skip], big[~skip], skip[~skip]
        for o in s.opt_combos():
            try:
                base = run(s, cols, ell, o, mode)
            except Exception as e:  # noqa: BLE001
                ctx.viol(f"{name} {o} ell={ell} [{mode}]: {type(e).__name__}: {e}")
                continue
            kk = ko * (len(base) // len(ko)) if line else ko
            for g in elements(s, ki, thorough):
                gc = act(g, ki[:len(cols)], cols)
                try:
                    got = run(s, gc, ell, o, mode)
                except Exception as e:  # noqa: BLE001
                    ctx.viol(f"{name} {o} ell={ell} {g} [{mode}]: {type(e).__name__}: {e}")
                    continue
                n = len(cols[0])
                ctx.add(states=n, transitions=1 if mode == "arr" else n, traces=n)
                gg = g if g[0] != "turn" else ("none", None)
                if s.outs == ["mat"]:
                    want = matrix(s, gg, base)
                    q = np.max(np.abs(got - want), axis=(1, 2)) / (4e-15 * big)
                else:
                    want = act(gg, kk, base)
                    if len(got) != len(want):
                        ctx.viol(f"{name} {o} {g}: {len(got)} results instead of {len(want)}")
                        continue
                    q = np.zeros(n)
                    step = len(ko)
                    for j in range(0, len(want), step):
                        vg, sg = vectors(s, ko, got[j:j + step], el)
                        vw, sw = vectors(s, ko, want[j:j + step], el)
                        if sg is None:
                            sg = scale0 if any(k in api.LENGTHS or k in ("x", "y", "z", "len") for k in s.outs) else \
                                np.abs(np.asarray(vw[0], float)) + 57.3
                            if ko[0] in ("vx",) and s.outs[0] == "u1":
                                sg = 1.0
                            if s.name.startswith("nvector_"):
                                sg = max(1.0, o.get("radius") or 7e6) if s.outs == ["len"] else 1.0
                        with np.errstate(all="ignore"):
                            for x, y in zip(vg, vw):
                                e = np.asarray(np.abs(x - y), float)
                                e = np.where((x == y) | (np.isnan(x) & np.isnan(y)), 0, e)
                                tol = 4e-15 * (sg + scale0) * big + 1e-300
                                if s.outs[:3] == ["az", "el", "rng"]:
                                    tol = tol + 1e-12   # components below 1 mm count as zero
                                    e = np.where((np.abs(x) < 1e-3 + tol) & (np.abs(y) < 1e-3 + tol), 0, e)
                                v = e / tol
                                q = np.maximum(q, np.where(np.isnan(v), np.inf, v))
                    q = q / LOOSE.get(s.name, 1)
                    if s.name == "loxodrome_inverse":   # the length of a nearly eastward line is a quotient of small differences
                        q = q / np.maximum(1, 1e-7 / np.maximum(np.abs(np.cos(np.radians(base[1]))), 1e-9))
                q = np.where(skip, 0, q)
                fin = q[np.isfinite(q)]
                if fin.size:
                    ctx.extra["worst_ratio"] = max(ctx.extra.get("worst_ratio", 0), round(float(fin.max()), 4))
                if np.any(q > 1):
                    i = int(np.argmax(np.where(np.isfinite(q), q, 1e300)))
                    w = want[i].tolist() if s.outs == ["mat"] else [float(c[i]) for c in want]
                    gt = got[i].tolist() if s.outs == ["mat"] else [float(c[i]) for c in got]
                    ctx.viol(f"{name}({[float(c[i]) for c in cols]}) {o} ell={ell} [{mode}] under {g}: {gt} instead of {w} "
                             f"({q[i]:.3g} tolerances, {int((q > 1).sum())} of {n})")
            ctx.sample({"call": name, "args": [float(c[len(c) // 2]) for c in cols], "group": [str(g) for g in elements(s, ki, thorough)][:6]})


def polygons(ctx, step):
    """areas and perimeters: shifts change nothing, each reflection flips the sign of the area"""
    import itertools
    import pymap3d.karney as K
    pts = [(0.0, 0.0), (10.0, 5.0), (-33.5, 179.0), (60.25, -82.0), (42.0, 13.7), (89.0, 120.0), (-90.0, 33.0), (-70.0, -170.0)]
    for ell in (None, "mars"):
        kw = {"ell": engine.ellipsoid(ell)} if ell else {}
        el = engine.el_ref(ell)
        tot = 4 * math.pi * float(el.a) ** 2
        for k in (3, 4):
            for p in list(itertools.permutations(pts, k))[::step]:
                la, lo = np.array([q[0] for q in p]), np.array([q[1] for q in p])
                A, P = K.geodesic_area(la.tolist(), lo.tolist(), **kw)
                for w, x, y, sg in (("east-west", la, -lo, -1), ("north-south", -la, lo, -1), ("both", -la, -lo, 1), ("shift", la, lo + 123.0, 1),
                                    ("turn", la, lo + np.array([360.0] + [0.0] * (k - 1)), 1)):
                    B, Q = K.geodesic_area(x.tolist(), y.tolist(), **kw)
                    ctx.add(states=1, transitions=1, traces=1)
                    if not abs(P - Q) <= 1e-7 * float(el.a) / 6.4e6:
                        ctx.viol(f"geodesic_area({la.tolist()}, {lo.tolist()}) ell={ell} {w}: perimeter {P} becomes {Q}")
                    if not abs(A * sg - B) <= 1e-13 * tot and not abs(abs(A) - tot / 2) < 1e-10 * tot:
                        ctx.viol(f"geodesic_area({la.tolist()}, {lo.tolist()}) ell={ell} {w}: area {A} becomes {B}")


def tasks(tier):
    th = tier == "thorough"
    out = [("polygons", polygons, {"step": 1 if th else 3})]
    for n in NAMES:
        s = spec(n)
        big = len(s.args) >= 8
        el = T.ellipsoids("some" if th else "few")
        arr = s.arr
        out.append((f"{n}", explore, {"name": n, "d": 3 if th and not big and len(s.args) < 7 else 2, "ells": el if arr else el[:2],
                                      "mode": "arr" if arr else "py", "thorough": th}))
        if arr:
            out.append((f"{n}-py", explore, {"name": n, "d": 2 if (th or len(s.args) <= 4) else 1, "ells": [None, "mars"] if s.ell else [None], "mode": "py"}))
        if s.std:
            out.append((f"{n}-std", explore, {"name": n, "d": 2 if (th or len(s.args) <= 4) else 1, "ells": [None] if not th else [None, "mars"],
                                              "mode": "std"}))
    return out
