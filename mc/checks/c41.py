"""meanm on every multiset of up to 4 (thorough 5) points of a lattice holding both poles, near-pole, equatorial and antimeridian
points, in every order for up to 3 points and in every array layout (grids of latitudes against longitudes included), on every ellipsoid, in degrees and radians, against the
normalised vector mean on the authalic sphere computed in extended precision from the definition of the authalic latitude;
order, shape and a single or repeated point are part of the enumeration.
State: (ellipsoid, list of points, layout, unit); transition: one call; trace: one compared mean position."""
import itertools

import numpy as np

import engine
import lattices as T
import refmodel as R
from checks import c24

EPS = R.EPS
PTS = [(0.0, 0.0), (90.0, 0.0), (-90.0, 77.0), (42.0, -82.0), (40.5, -80.25), (0.0, 179.9), (10.0, -179.5), (-33.5, 151.25),
       (60.25, 359.5), (89.9999, 12.0), (-75.5, 180.0), (45.0, 400.25), (-0.001, 90.0), (5.25, -90.0)]
MORE = [(89.0, -120.0), (-45.0, -180.0), (66.6, 540.0), (-12.0, 13.7)]


def layouts(la, lo):
    """the same points in every layout meanm may be given"""
    n = len(la)
    yield "1-D", la, lo
    if n % 2 == 0:
        yield "2-D", la.reshape(2, -1), lo.reshape(2, -1)
        yield "Fortran", np.asfortranarray(la.reshape(-1, 2)), np.asfortranarray(lo.reshape(-1, 2))
    z = np.full((n, 3), 17.0)
    z[:, 0], z[:, 2] = la, lo
    yield "strided", z[:, 0], z[:, 2]
    yield "column", la.reshape(n, 1), lo.reshape(n, 1)
    r1, r2 = la.copy(), lo.copy()
    r1.flags.writeable = r2.flags.writeable = False
    yield "read-only", r1, r2
    yield "reversed", la[::-1], lo[::-1]


def explore(ctx, ells, sizes, orders, all_layouts, pts):
    import pymap3d.lox as X
    P = np.array(pts)
    for ell in ells:
        el = engine.el_ref(ell)
        lib = engine.ellipsoid(ell)
        e = float(el.e)
        for deg in (True, False):
            given = P if deg else np.radians(P)
            la = R.rad(given[:, 0]) if deg else R.ld(given[:, 0])
            lo = R.rad(given[:, 1]) if deg else R.ld(given[:, 1])
            be = R.authalic(la, el)
            V = np.stack([np.cos(be) * np.cos(lo), np.cos(be) * np.sin(lo), np.sin(be)], 1)
            rows, got = [], []
            for k in sizes:
                for c in itertools.combinations_with_replacement(range(len(P)), k):
                    seqs = sorted(set(itertools.permutations(c))) if k <= orders else [c]
                    for s in seqs:
                        i = list(s)
                        for nm, a, b in (layouts(given[i, 0], given[i, 1]) if all_layouts else [("1-D", given[i, 0], given[i, 1])]):
                            try:
                                r = X.meanm(a, b, lib, deg) if ell is not None else X.meanm(a, b, deg=deg)
                                q = (float(r[0]), float(r[1]))
                            except Exception as x:  # noqa: BLE001
                                ctx.viol(f"meanm({P[i].tolist()}) {nm} ell={ell} deg={deg} raised {type(x).__name__}: {x}")
                                q = (np.nan, np.nan)
                            rows.append((i, nm))
                            got.append(q)
            got = np.array(got)
            S = np.stack([V[i].sum(0) / len(i) for i, _ in rows])
            ln = np.sqrt((S ** 2).sum(1))
            glat = R.rad(got[:, 0]) if deg else R.ld(got[:, 0])
            glon = R.rad(got[:, 1]) if deg else R.ld(got[:, 1])
            gb = R.authalic(np.where(np.isnan(glat), 9, glat), el)
            W = np.stack([np.cos(gb) * np.cos(glon), np.cos(gb) * np.sin(glon), np.sin(gb)], 1)
            err = np.sqrt(((W - S / np.maximum(ln, R.L(1e-30))[:, None]) ** 2).sum(1))
            ln = ln.astype(float)
            lim, lim2 = (90, 180) if deg else (np.pi / 2, np.pi)
            tol = (0.15 * e ** 8 + 30 * EPS) + (0.15 * e ** 8 + 60 * EPS) / np.maximum(ln, 1e-9)
            q = err.astype(float) / tol
            q = np.where(np.isnan(q) | (np.abs(got[:, 0]) > lim * (1 + 4 * EPS)) | (np.abs(got[:, 1]) > lim2), np.inf, q)
            q = np.where(ln < 1e-6, 0, q)      # no mean direction
            ctx.add(states=len(rows), transitions=len(rows), traces=int((ln >= 1e-6).sum()))
            fin = q[np.isfinite(q)]
            ctx.extra["worst_ratio"] = max(ctx.extra.get("worst_ratio", 0), round(float(fin.max()), 4))
            for j in np.flatnonzero(q > 1)[:3]:
                i, nm = rows[j]
                ctx.viol(f"meanm of {P[i].tolist()} ({nm}, ell={ell}, deg={deg}) returned {got[j].tolist()}, {q[j]:.3g} times the tolerance "
                         f"from the mean position ({int((q > 1).sum())} of {len(q)})", points=P[i].tolist(), ell=ell, deg=deg, layout=nm)
            ctx.sample({"points": P[rows[len(rows) // 3][0]].tolist(), "ell": ell, "mean": got[len(rows) // 3].tolist()})


def grids(ctx, ells):
    """latitudes and longitudes that broadcast against each other mean the points of the grid: scalars, columns, rows, planes"""
    import pymap3d.lox as X
    LA = [10.0, -33.5, 60.25, 0.0, 89.9, -90.0]
    LO = [0.0, 179.9, -82.0, 359.5, 12.0]
    for ell in ells:
        el = engine.el_ref(ell)
        lib = engine.ellipsoid(ell)
        e = float(el.e)
        for deg in (True, False):
            f = (lambda v: np.asarray(v)) if deg else (lambda v: np.radians(v))
            for i in range(len(LA)):
                for m in (1, 2, 3, len(LA)):
                    for j in range(len(LO)):
                        for k in (1, 2, len(LO)):
                            a = f(np.roll(LA, -i)[:m])
                            b = f(np.roll(LO, -j)[:k])
                            forms = {"column x row": (a[:, None], b[None, :]), "row x column": (a[None, :], b[:, None]), "plane x row": (np.repeat(a[:, None], k, 1), b)}
                            if m == 1:
                                forms["scalar latitude"] = (float(a[0]), b)
                                forms["0-d latitude"] = (a[0].reshape(()), b)
                            if k == 1:
                                forms["scalar longitude"] = (a, float(b[0]))
                            if k == m:
                                forms["row x plane"] = (a, np.tile(b[None, :], (2, 1)))
                            for nm, (x, y) in forms.items():
                                full = np.broadcast_arrays(x, y)
                                want = X.meanm(full[0].ravel().copy(), full[1].ravel().copy(), lib, deg)
                                ctx.add(states=1, transitions=2, traces=1)
                                try:
                                    got = X.meanm(x, y, lib, deg)
                                except Exception as ex:  # noqa: BLE001
                                    ctx.viol(f"meanm of latitudes {np.asarray(x).tolist()} and longitudes {np.asarray(y).tolist()} ({nm}, deg={deg}) raised {type(ex).__name__}: {ex}")
                                    continue
                                p, q = ([float(v) for v in r] if not deg else [float(v) for v in np.radians(r)] for r in (got, want))
                                V = [np.array([np.cos(t[0]) * np.cos(t[1]), np.cos(t[0]) * np.sin(t[1]), np.sin(t[0])]) for t in (p, q)]
                                # how well the mean is determined
                                la, lo = (np.radians(t) if deg else t for t in full)
                                ln = np.hypot(np.hypot((np.cos(la) * np.cos(lo)).mean(), (np.cos(la) * np.sin(lo)).mean()), np.sin(la).mean())
                                err = float(np.abs(V[0] - V[1]).max())
                                if not err <= 1e-14 / max(ln, 1e-9) and ln > 1e-6:
                                    ctx.viol(f"meanm of latitudes {np.asarray(x).tolist()} and longitudes {np.asarray(y).tolist()} ({nm}, ell={ell}, deg={deg}) returned {got}, "
                                             f"of the same points listed one by one {want}")
                                    return


def tasks(tier):
    th = tier == "thorough"
    ells = T.ellipsoids("all") + c24.LADDER
    out = []
    for j in range(0, len(ells), 8):
        out.append((f"pairs-{j}", explore, {"ells": ells[j:j + 8], "sizes": (1, 2, 3) if th else (1, 2), "orders": 3, "all_layouts": True, "pts": PTS}))
    for e in (T.ellipsoids("some") if th else [None, "mars"]):
        out.append((f"deep-{e}", explore, {"ells": [e], "sizes": (1, 2, 3, 4, 5) if th else (1, 2, 3, 4), "orders": 3, "all_layouts": False,
                                          "pts": PTS + (MORE if th else [])}))
        out.append((f"fill-{e}", explore, {"ells": [e], "sizes": (1, 2), "orders": 1, "all_layouts": False,
                                          "pts": [tuple(float(v) for v in r) for r in zip(*T.kron(120 if th else 50, ["lat", "lon"]))]}))
        out.append((f"fill1-{e}", explore, {"ells": [e], "sizes": (1,), "orders": 1, "all_layouts": False,
                                           "pts": [tuple(float(v) for v in r) for r in zip(*T.kron(20000 if th else 4000, ["lat", "lon"], 2))]}))
        out.append((f"layouts-{e}", explore, {"ells": [e], "sizes": (4, 6) if th else (3, 4), "orders": 0, "all_layouts": True, "pts": PTS[:12]}))
    for e in (T.ellipsoids("some") if th else [None, "mars"]):
        out.append((f"grids-{e}", grids, {"ells": [e]}))
    return out
