"""eci2geodetic, geodetic2eci, eci2aer and aer2eci for every combination of UT1 offset and pole coordinates x ellipsoid x angle unit x
observer x instant x position lattice: each result must equal the reference composition of eci2ecef/ecef2eci (for the same
instant and parameters) with the ECEF conversion of the extended-precision model, and the two directions must invert; also
through the full Astropy path (which takes its own parameters), NumPy-free, with scalars and arrays.
State: (function, instant, parameters, ellipsoid, observer, position); transition: one call; trace: one compared position."""
import itertools

import numpy as np

import engine
import lattices as T
import refmodel as R
from checks import c34
from oracles import POLE

EPS = R.EPS
COMBOS = [dict(zip(("delta_ut1", "xp", "yp"), v)) for v in itertools.product((0.0, -0.3341, 0.87), (0.0, 0.14), (0.0, -0.21))]
OBS = [(42.0, -82.0, 200.0), (90.0, 0.0, 0.0), (-90.0, 77.0, 10.0), (0.0, 180.0, -50.0), (-33.5, 400.25, 9000.0), (89.9999, -179.9999, 1e5), (1e-9, 359.0, 3.6e7)]
GEO = [(la, lo, h) for la in (42.0, 90.0, -90.0, 0.0, -33.5, 89.9999, -75.5) for lo in (-82.0, 180.0, 13.7, 400.25) for h in (0.0, 200.0, -1000.0, 4e5, 3.6e7)]
AER = [(az, el, r) for az in (33.0, 0.0, 225.75, -45.5, 359.999) for el in (70.0, 90.0, -30.25, 1e-6, -90.0) for r in (1000.0, 0.5, 2e7, 4e8)]


def rot(t, eop, astro):
    """ECI -> ECEF matrix as the library's own position transform has it"""
    import pymap3d as p
    I = np.eye(3) * 1e7
    r = p.eci2ecef(I[0], I[1], I[2], t, **({} if astro else eop))
    return np.array([np.asarray(c, float) for c in r], dtype=R.L) / R.L(1e7)


def apply(M, v):
    return [sum(M[i][j] * R.ld(v[j]) for j in range(3)) for i in range(3)]


def call(name, cols, t, ell, deg, eop, mode, useell):
    import pymap3d as p
    kw = dict(eop)
    if not deg:
        kw["deg"] = False
    if mode in ("std", "noastro"):
        e = ell if useell else "none"
        r = engine.remote(mode, [("pymap3d", name, tuple(float(x) for x in row) + (t,), kw, e) for row in zip(*cols)])
        for x in r:
            if x and x[0] == "!exc":
                raise RuntimeError(f"{x[1]}: {x[2]}")
        return [np.array(c, float) for c in zip(*r)]
    if useell and ell is not None:
        kw["ell"] = engine.ellipsoid(ell)
    f = getattr(p, name)
    if mode == "py":
        r = [f(*[float(x) for x in row], t, **kw) for row in zip(*cols)]
        return [np.array([float(np.asarray(v).reshape(())) for v in c]) for c in zip(*r)]
    if mode == "2d":
        return [np.asarray(c, float).T.ravel() for c in f(*[x.reshape(-1, 2).T for x in cols], t, **kw)]
    return [np.asarray(c, float) for c in f(*[x.copy() for x in cols], t, **kw)]


def report(ctx, q, known, what, cols, got):
    q = np.where(np.isnan(q), np.inf, q)
    ctx.add(states=len(q), transitions=1, traces=len(q))
    bad = q > 1
    if known is not None and np.any(known & bad):
        k = known & bad
        ctx.know("KF1", "eci2geodetic: single-correction closed form")
        ctx.known["KF1"]["n"] += int(k.sum()) - 1
        bad &= ~known
    fin = q[np.isfinite(q) & (~known if known is not None else True)]
    if fin.size:
        ctx.extra["worst_ratio"] = max(ctx.extra.get("worst_ratio", 0), round(float(fin.max()), 4))
    if np.any(bad):
        i = int(np.argmax(np.where(bad, q, 0)))
        ctx.viol(f"{what}: {[float(c[i]) for c in cols]} -> {[float(c[i]) for c in got]}, {q[i]:.3g} times the tolerance ({int(bad.sum())} of {len(q)})",
                 args=[float(c[i]) for c in cols])


def explore(ctx, mode, ells, times, combos, degs=(True, False), thin=1, obs=OBS, astro=False, n=0, shift=0):
    if n:
        obs = [None]
    for ell, t, eop, deg in itertools.product(ells, times, combos, degs):
        el = engine.el_ref(ell)
        sc = float(el.a) / 6378137.0
        M = rot(t, eop, astro)
        Mt = M.T
        slack = 1e-15 if not astro else 3e-9         # rounding of one rotation, relative
        what = f"at {t.isoformat()} {eop} ell={ell} deg={deg} [{mode}]"
        g = T.kron(n, ["lat", "lon", ("log", -1e4, 1e8)], shift) if n else T.cols_of(GEO[::thin])
        if mode == "2d" and len(g[0]) % 2:
            g = [c[:-1] for c in g]
        g = [g[0], g[1], g[2] * sc]
        gg = g if deg else [np.radians(g[0]), np.radians(g[1]), g[2]]
        ga = [R.rad(gg[0]), R.rad(gg[1])] if deg else [R.ld(gg[0]), R.ld(gg[1])]
        xyz = R.geodetic2ecef(*ga, gg[2], el)
        eci = apply(Mt, xyz)
        size = np.asarray(R.dist3(xyz, (0, 0, 0)), float) + float(el.a)
        try:
            got = call("geodetic2eci", gg, t, ell, deg, eop, mode, True)
            report(ctx, np.asarray(R.dist3([R.ld(c) for c in got], eci), float) / (size * (slack + EPS * 30)), None, "geodetic2eci " + what, gg, got)
            src = [np.asarray(c, float) for c in eci]
            back = call("eci2geodetic", src, t, ell, deg, eop, mode, True)
            o = [R.rad(back[0]), R.rad(back[1]), R.ld(back[2])] if deg else [R.ld(c) for c in back]
            q, qy = engine.ratio_geo(back, o, apply(M, src), el, POLE + size * (slack + EPS * (30 + 40 * float(el.f))), not deg)
            report(ctx, q, qy <= 1, "eci2geodetic " + what, src, back)
            trip = call("geodetic2eci", back, t, ell, deg, eop, mode, True)
            # the composition of the two directions, where the closed form is exact
            e = np.asarray(R.dist3([R.ld(c) for c in trip], eci), float)
            lowalt = (np.abs(g[2]) <= 2000 * sc) & (float(el.f) < 0.01)
            report(ctx, np.where(lowalt, e, 0) / (1e-6 * max(sc, 1e-6) + POLE + size * slack * 4), None, "geodetic2eci(eci2geodetic) " + what, src, trip)
        except Exception as x:  # noqa: BLE001
            ctx.viol(f"geodetic2eci/eci2geodetic {what} raised {type(x).__name__}: {x}")
        A = T.kron(n, ["az", "el", ("log", 0, 1e9), "lat", "lon", ("log", -1e4, 1e8)], shift) if n else T.cols_of(AER[::thin])
        if mode == "2d" and len(A[0]) % 2:
            A = [c[:-1] for c in A]
        for o0 in obs:
            a = A if o0 is None else A[:3] + [np.full(len(A[0]), v) for v in o0]
            s = [1, 1, sc, 1, 1, sc]
            a = [c * k for c, k in zip(a, s)]
            ag = a if deg else [np.radians(c) if i in (0, 1, 3, 4) else c for i, c in enumerate(a)]
            ar = [(R.rad(c) if deg else R.ld(c)) if i in (0, 1, 3, 4) else R.ld(c) for i, c in enumerate(ag)]
            x = R.enu2ecef(*R.aer2enu(*ar[:3]), *ar[3:], el)
            want = apply(Mt, x)
            size = np.asarray(ar[2], float) + 2 * float(el.a) + np.abs(a[5])
            try:
                got = call("aer2eci", ag, t, ell, deg, eop, mode, True)
                report(ctx, np.asarray(R.dist3([R.ld(c) for c in got], want), float) / (size * (slack + EPS * 60)), None, f"aer2eci {what} observer {o0}", ag, got)
                if ell is None or ell == "wgs84":        # eci2aer always uses WGS84
                    src = [np.asarray(c, float) for c in want] + ag[3:]
                    back = call("eci2aer", src, t, None, deg, eop, mode, False)
                    outs = [R.rad(back[0]), R.rad(back[1]), R.ld(back[2])] if deg else [R.ld(c) for c in back]
                    enu = R.ecef2enu(*apply(M, src[:3]), *ar[3:], el)
                    report(ctx, engine.ratio_aer(back, outs, enu, size * (slack + EPS * 60), not deg), None, f"eci2aer {what} observer {o0}", src, back)
            except Exception as x:  # noqa: BLE001
                ctx.viol(f"aer2eci/eci2aer {what} raised {type(x).__name__}: {x}")
    ctx.sample({"call": "aer2eci", "time": t.isoformat(), "eop": eop, "args": [float(c[3]) for c in ag], "result": [float(c[3]) for c in got]})


def tasks(tier):
    th = tier == "thorough"
    ts = c34.instants(2777)[:11]
    every = T.ellipsoids("all")
    out = []
    for k, e in enumerate([None, "wgs84", "mars", "jupiter", "clarke1866", (1000.0, 900.0)]):
        out.append((f"no-astropy-{e}", explore, {"mode": "arr", "ells": [e], "times": ts if th else ts[k % 3::5], "combos": COMBOS, "_noastro": True}))
    for j in range(0, len(every), 12):
        out.append((f"bodies-{j}", explore, {"mode": "arr", "ells": every[j:j + 12], "times": ts[1:3] if th else ts[1:2], "combos": COMBOS[5:6] if not th else COMBOS[::3],
                                            "obs": OBS if th else OBS[:3], "_noastro": True}))
    out.append(("scalars-no-astropy", explore, {"mode": "py", "ells": [None, "mars"], "times": ts[2:4], "combos": COMBOS if th else COMBOS[3:12:4], "thin": 3 if th else 7,
                                                "obs": OBS if th else OBS[::3], "_noastro": True}))
    out.append(("2d-no-astropy", explore, {"mode": "2d", "ells": [None], "times": ts[2:3], "combos": COMBOS[7:8], "_noastro": True}))
    out.append(("no-numpy", explore, {"mode": "std", "ells": [None, "mars"], "times": ts[2:4], "combos": COMBOS if th else COMBOS[3:12:4], "thin": 3 if th else 7,
                                      "obs": OBS if th else OBS[::3], "_noastro": True}))
    for k, e in enumerate((None, "mars", "jupiter")):
        out.append((f"fill-{e}", explore, {"mode": "arr", "ells": [e], "times": ts if th else ts[k::4], "combos": COMBOS[1::3] if th else COMBOS[4 + k::7], "n": 4000 if th else 1000,
                                           "shift": k, "_noastro": True}))
    for k, m in enumerate(("py", "std")):
        out.append((f"fill-{m}", explore, {"mode": m, "ells": [None], "times": ts[4 + k:5 + k], "combos": COMBOS[6 + k:7 + k], "n": 2000 if th else 200, "shift": 4 + k, "_noastro": True}))
    out.append(("fill-astropy", explore, {"mode": "arr", "ells": [None], "times": [ts[3]], "combos": COMBOS[:1], "n": 4000 if th else 1000, "shift": 3, "astro": True}))
    at = [t for t in ts if 1973 <= t.year < 2025]
    for k, t in enumerate(at if th else at[2:4]):
        out.append((f"astropy-{k}", explore, {"mode": "arr", "ells": [None, "mars"] if th else [None, "mars"][k:k + 1], "times": [t],
                                              "combos": [COMBOS[0], COMBOS[5]] if th else COMBOS[5:6], "obs": OBS if th else OBS[::3], "astro": True}))
    return out
