"""Exhaustive depth-first exploration of the graph whose nodes are coordinate frames and whose edges are the library's conversion
functions (with every frame option): every walk up to the depth bound, from every frame, carrying a set of physical points with
their own observers; after each step the coordinates must denote the original physical point (reference model), so any two routes
agree as well. State: (frame, coordinates of the point); transition: one conversion call."""
import numpy as np

import api
import engine
import lattices as T
import refmodel as R

NODES = {"geodetic": 3, "ecef": 3, "enu": 3, "ned": 3, "nwu": 3, "sez": 3, "aer": 3, "dca": 3, "body": 3, "spherical": 3, "nvector": 4, "eci": 3}
TIME = api.T0


def edges(use):
    out = {n: [] for n in use}
    for s in api.SPECS + api.ASTRO:
        a, _, b = s.name.partition("2")
        if s.mod == "pymap3d" and a in use and b in use:
            for o in s.opt_combos()[:1] if "force_non_astropy" in s.opts or s in api.ASTRO else s.opt_combos():
                if "force_non_astropy" in o:
                    o = {}
                out[a].append((s, b, o))
    return out


OBSERVERS = [(42.0, -82.0, 200.0), (-33.5, 151.25, 30.0), (0.0, 179.9999, 0.0), (60.25, -179.5, -20.0), (-77.0, 13.7, 900.0), (12.5, 0.0, 5.0)]
POLAR = [(90.0, 0.0, 100.0), (-90.0, 45.0, 0.0), (89.9999, -120.0, 10.0), (-89.99, 180.0, 2800.0)]
ATT = [(30.0, 10.0, -20.0), (-120.5, 85.0, 200.0), (270.0, -40.0, 95.0), (0.0, 90.0, 30.0)]
DISP = [(33.0, 20.0, 1000.0), (120.0, -5.0, 8.0), (200.0, 60.0, 4000.0), (300.0, 1.0, 25000.0), (78.0, -0.1, 60000.0), (260.0, -70.0, 3.0)]


class World:
    """physical points (per element observer, attitude, heading) and their reference coordinates"""

    def __init__(self, observers, ell, deg):
        self.ell, self.deg = ell, deg
        self.el = el = engine.el_ref(ell)
        sc = min(1.0, float(el.a) / 6378137.0)
        rows = [(o, ATT[(i + j) % len(ATT)], d, (i * 47 + j * 73) % 360 - 90.0)
                for i, o in enumerate(observers) for j, d in enumerate(DISP)]
        f = lambda v: np.array(v, float)  # noqa: E731
        self.p = {"lat0": f([r[0][0] for r in rows]), "lon0": f([r[0][1] for r in rows]), "h0": f([r[0][2] * sc for r in rows]),
                  "yaw": f([r[1][0] for r in rows]), "pitch": f([r[1][1] for r in rows]), "roll": f([r[1][2] for r in rows]),
                  "heading": f([r[3] for r in rows])}
        self.ang = {"lat0", "lon0", "yaw", "pitch", "roll", "heading"}
        if not deg:
            for k in self.ang:
                self.p[k] = np.radians(self.p[k])
        self.p["alt0"] = self.p["h0"]
        r = self.r = {k: (R.rad(v) if deg else R.ld(v)) if k in self.ang else R.ld(v) for k, v in self.p.items()}
        az, elv, rng = (f([q[2][k] for q in rows]) for k in range(3))
        self.enu = R.aer2enu(R.rad(az), R.rad(elv), R.ld(rng * sc))
        self.xyz = R.enu2ecef(*self.enu, r["lat0"], r["lon0"], r["h0"], el)
        self.n = len(rows)
        self.sc = sc
        self.ecis = None

    def pos(self, node, c):
        """reference position of coordinates in a frame"""
        r, el = self.r, self.el
        c = [R.ld(v) for v in c]
        A = (lambda v: R.rad(v)) if self.deg else (lambda v: v)
        o = (r["lat0"], r["lon0"], r["h0"], el)
        if node == "geodetic":
            return R.geodetic2ecef(A(c[0]), A(c[1]), c[2], el)
        if node == "ecef":
            return tuple(c)
        if node in ("enu", "ned", "nwu", "sez"):
            return R.enu2ecef(*R.frame2enu(node, *c), *o)
        if node == "aer":
            return R.enu2ecef(*R.aer2enu(A(c[0]), A(c[1]), c[2]), *o)
        if node == "dca":
            return R.enu2ecef(*R.dca2enu(*c, r["heading"]), *o)
        if node == "body":
            return R.enu2ecef(*R.body2frame("enu", *c, r["yaw"], r["pitch"], r["roll"]), *o)
        if node == "spherical":
            la, lo = A(c[0]), A(c[1])
            return c[2] * np.cos(la) * np.cos(lo), c[2] * np.cos(la) * np.sin(lo), c[2] * np.sin(la)
        if node == "nvector":
            return R.geodetic2ecef(np.arctan2(c[2], np.hypot(c[0], c[1])), np.arctan2(c[1], c[0]), c[3], el)
        raise KeyError(node)

    def start(self, node):
        """the point's coordinates in a frame, rounded from the reference model"""
        r, el = self.r, self.el
        B = (lambda v: R.deg(v)) if self.deg else (lambda v: v)
        if node in ("geodetic", "nvector", "spherical"):
            la, lo, h = R.ecef2geodetic(*self.xyz, el)
            if node == "geodetic":
                c = (B(la), B(lo), h)
            elif node == "nvector":
                c = (np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la), h)
            else:
                p = np.hypot(self.xyz[0], self.xyz[1])
                c = (B(np.arctan2(self.xyz[2], p)), B(lo), np.hypot(p, self.xyz[2]))
        elif node == "ecef":
            c = self.xyz
        elif node in ("enu", "ned", "nwu", "sez"):
            c = R.enu2frame(node, *self.enu)
        elif node == "aer":
            a = R.enu2aer(*self.enu)
            c = (B(a[0]), B(a[1]), a[2])
        elif node == "dca":
            c = R.enu2dca(*self.enu, r["heading"])
        elif node == "body":
            c = R.frame2body("enu", *self.enu, r["yaw"], r["pitch"], r["roll"])
        elif node == "eci":
            import pymap3d
            x = [np.asarray(v, float) for v in self.xyz]
            if self.ecis is None:
                self.ecis = pymap3d.ecef2eci(*x, TIME)
            return tuple(np.array(v) for v in self.ecis)
        return tuple(np.asarray(v, float) for v in c)


def step(w, node, c, s, b, o, scalar=False):
    kw = dict(o)
    if s.ell:
        kw["ell"] = engine.ellipsoid(w.ell)
    if s.deg and not w.deg:
        kw["deg"] = False
    carry = None
    k = len(c)
    c = list(c)
    if node == "nvector" and b == "geodetic":
        carry = c.pop()
        k = 3
    names = [n for n, _ in s.args]
    if node == "geodetic" and b == "nvector":
        carry = c.pop()
        k = 2
    if node == "ecef" and b == "nvector":
        carry = R.ecef2geodetic(*c, w.el)[2].astype(float)
    rest = [w.p[n].copy() if n != "t" else TIME for n in names[k:]]
    if scalar:
        rows = [engine.flat(s.fn()(*[float(v[i]) for v in c], *[v if v is TIME else float(v[i]) for v in rest], **kw), 3) for i in range(w.n)]
        r = [np.array([float(q[j]) for q in rows]) for j in range(len(rows[0]))]
    else:
        r = engine.flat(s.fn()(*[v.copy() for v in c], *rest, **kw), 3)
    r = [np.asarray(v, float) for v in r]
    if carry is not None:
        r.append(carry)
    if any(v.shape != (w.n,) for v in r):
        raise engine.Bad(f"result shapes {[v.shape for v in r]}")
    return tuple(r)


def tol(w, depth, b):
    return 1e-8 * w.sc * 1.0 * (1 + depth) * max(1.0, float(w.el.a) / 6378137.0) ** 1


def err(w, node, c):
    if node == "eci":
        ref = w.start("eci")
        return np.max(R.dist3(c, ref))
    return np.max(R.dist3(w.pos(node, c), w.xyz))


def explore(ctx, first, use, observers, ell, deg, depth, extra=1.0, scalar=False):
    w = World(observers, ell, deg)
    E = edges(use)
    seen_edges = set()
    a0, k0 = first
    node0 = a0
    c0 = w.start(node0)
    stack = [(node0, c0, 0, [node0])]
    while stack:
        node, c, d, path = stack.pop()
        for i, (s, b, o) in enumerate(E[node]):
            if d == 0 and k0 is not None and i not in k0:
                continue
            label = s.name + (f"[{o['frame']}]" if "frame" in o else "")
            try:
                c2 = step(w, node, c, s, b, o, scalar)
            except Exception as e:  # noqa: BLE001
                ctx.viol(f"{' '.join(path)} then {label}: {type(e).__name__}: {e} (ell={ell} deg={deg})")
                continue
            q = float(err(w, b, c2)) / (tol(w, d + 1, b) * extra)
            ctx.add(states=w.n, transitions=w.n if scalar else 1, traces=w.n)
            seen_edges.add(label)
            ctx.extra["worst_ratio"] = max(ctx.extra.get("worst_ratio", 0), round(q, 4) if np.isfinite(q) else 0)
            if not q <= 1:
                ctx.viol(f"chain {' '.join(path)} {label}: {q:.3g} times the tolerance away from the physical point (ell={ell} deg={deg})",
                         coords=[v.tolist() for v in c2])
                continue
            if d + 1 < depth:
                stack.append((b, c2, d + 1, path + [label]))
    ctx.sample({"from": node0, "depth": depth, "edges used": len(seen_edges), "points": w.n})


GROUND = [n for n in NODES if n != "eci"]


def tasks(tier):
    th = tier == "thorough"
    out = []

    def add(name, use, observers, ell, deg, depth, split=1, **kw):
        E = edges(use)
        for n in use:
            ks = list(range(len(E[n])))
            for j in range(split):
                k = ks[j::split]
                if k:
                    out.append((f"{name}-{n}-{j}", explore, {"first": (n, k), "use": use, "observers": observers, "ell": ell, "deg": deg,
                                                             "depth": depth, **kw}))
    d = 6 if th else 5
    add("all", GROUND, OBSERVERS, None, True, d, 4)
    add("rad", GROUND, OBSERVERS, "mars", False, d if th else 4, 4)
    add("polar", GROUND, POLAR, None, False, 4 if th else 3)
    add("polar-jup", GROUND, POLAR, "jupiter", True, 4 if th else 3)
    add("flat", GROUND, OBSERVERS, (6.4e6, 6.0e6), True, 4 if th else 3)
    add("scalar", GROUND, OBSERVERS[:2] + POLAR[:1], None, True, 3 if th else 2, scalar=True)
    add("scalar-rad", GROUND, OBSERVERS[2:4] + POLAR[3:], "saturn", False, 3 if th else 2, scalar=True)
    core = ["geodetic", "ecef", "enu", "aer", "ned", "eci"]
    add("eci-noastro", list(NODES), OBSERVERS[:3], None, True, 4 if th else 3, _noastro=True, extra=4.0)
    add("eci-noastro-rad", ["geodetic", "ecef", "aer", "eci", "enu", "spherical"], OBSERVERS, None, False, 5 if th else 4, _noastro=True, extra=4.0)
    add("eci-astropy", core, OBSERVERS[:3], None, True, 4 if th else 3, extra=4.0)
    return out
