"""eci2ecef and ecef2eci at every tenth day (thorough: every second day) from 1972 to 2050 at rotating times of day, and round leap seconds
x UT1 offsets x pole coordinates: the images of the axes give the full matrix, which is compared with ERFA (pmat76, nut80, gmst82,
eqeq94, pom00) and checked for orthonormality, determinant and the inverse; the effect of the UT1 offset and of the pole
coordinates is separated and compared to rounding; every vector of a lattice of octants and magnitudes in every array layout
must equal the matrix product; in the plain-Python, no-Astropy and Astropy installations.
State: (instant, Earth orientation parameters, vector); transition: one call; trace: one compared matrix or vector."""
from datetime import timedelta

import numpy as np

import engine
import lattices as T
import refmodel as R
from checks import c34

EPS = R.EPS
SEC = c34.SEC
OMEGA = 7.292115e-5
EOP = [dict(delta_ut1=d, xp=x, yp=y) for d in (0.0, -0.3341, 0.87) for x in (0.0, 0.14, -0.35) for y in (0.0, -0.21, 0.4)]


def reference(t, delta_ut1, xp, yp):
    import erfa
    d1, d2 = c34.two_part(t)
    tt = d2 + (c34.leap(t) + 32.184) / 86400
    dp, de = erfa.nut80(d1, tt)
    rn = erfa.numat(erfa.obl80(d1, tt), dp, de)
    gst = erfa.gmst82(d1, d2 + delta_ut1 / 86400) + erfa.eqeq94(d1, tt)
    return erfa.pom00(xp * SEC, yp * SEC, 0) @ erfa.rz(gst, np.eye(3)) @ rn @ erfa.pmat76(d1, tt)


def matrix(name, t, eop, mode, scale=1.0):
    """3x3 matrix of the transformation from the images of the axes"""
    import pymap3d as p
    I = np.eye(3) * scale
    if mode in ("force", "plain", "astropy"):
        kw = dict(eop, force_non_astropy=True) if mode == "force" else eop
        r = getattr(p, name)(I[0].copy(), I[1].copy(), I[2].copy(), t, **kw)
        return np.array([np.asarray(c, float) for c in r]) / scale
    r = engine.remote(mode, [("pymap3d", name, tuple(float(c) for c in I[:, j]) + (t,), eop, "none") for j in range(3)])
    return np.array([[float(r[j][i]) for j in range(3)] for i in range(3)]) / scale


def angle(D):
    """rotation angle of a nearly unit matrix, in radians"""
    return 0.5 * np.linalg.norm([D[1, 2] - D[2, 1], D[2, 0] - D[0, 2], D[0, 1] - D[1, 0]])


def rotations(ctx, step, mode, part=(0, 1), eops=None):
    try:
        import erfa
    except ImportError:
        erfa = None
    for t in c34.instants(step)[part[0]::part[1]]:
        base = {}
        for e in eops or EOP:
            if mode == "astropy":
                from astropy.time import Time
                from astropy.utils.iers import earth_orientation_table
                import astropy.units as u
                tab = earth_orientation_table.get()
                xp, yp = tab.pm_xy(Time(t))
                d = float(Time(t).delta_ut1_utc)
                ref = reference(t, d, xp.to_value(u.arcsec), yp.to_value(u.arcsec))
            elif erfa is not None:
                ref = reference(t, **e)
            else:
                ref = None
            try:
                M = matrix("eci2ecef", t, e, mode)
                N = matrix("ecef2eci", t, e, mode)
            except Exception as x:  # noqa: BLE001
                ctx.viol(f"eci2ecef/ecef2eci at {t.isoformat()} {e} [{mode}] raised {type(x).__name__}: {x}")
                continue
            ctx.add(states=2, transitions=2 if mode in ("force", "plain", "astropy") else 6, traces=2)
            exact = 1e-14 if mode != "astropy" else 2e-9
            err = {"orthonormal": np.abs(M @ M.T - np.eye(3)).max() / exact, "determinant": abs(np.linalg.det(M) - 1) / exact,
                   "ecef2eci is the inverse": np.abs(M.T - N).max() / exact}
            if ref is not None:
                a = angle(M @ ref.T) / SEC
                k = "worst_arcsec" + ("_astropy" if mode == "astropy" else "")
                ctx.extra[k] = max(ctx.extra.get(k, 0), round(float(a), 4))
                err["Earth orientation theory (arcsec)"] = a / 0.2
                err["same hemisphere"] = 0 if np.trace(M @ ref.T) > 2.9 else np.inf
            if mode != "astropy":
                if e["xp"] == 0 and e["yp"] == 0:
                    base[e["delta_ut1"]] = M
                    if e["delta_ut1"] != 0 and 0.0 in base:
                        a = OMEGA * e["delta_ut1"]
                        Rz = np.array([[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1]])
                        err["UT1 offset"] = np.abs(M @ base[0.0].T - Rz).max() / 5e-9
                elif e["delta_ut1"] in base:
                    x, y = e["xp"] * SEC, e["yp"] * SEC
                    W = np.array([[1, 0, x], [0, 1, -y], [-x, y, 1]])
                    d = M @ base[e["delta_ut1"]].T
                    err["pole coordinates"] = min(np.abs(d - W).max(), 1) / 1e-11
            for k, v in err.items():
                if not v <= 1:
                    ctx.viol(f"eci2ecef at {t.isoformat()} {e} [{mode}]: {k}: {v:.3g} times the tolerance", time=t.isoformat(), eop=e, mode=mode)
                    break
    ctx.sample({"call": "eci2ecef", "time": t.isoformat(), "eop": e, "mode": mode, "matrix": M.tolist()})


MAG = [0.0, 1e-3, 1.0, 6378137.0, 4.2e7, 3.8e8, 1e12]


def vectors(ctx, mode, times, eops):
    """every vector in every layout equals the matrix product; scalars come back as scalars, shapes are kept"""
    import pymap3d as p
    v = T.grid(*[np.array(T.pm(*m)) for m in ((0.0, 1e-3, 6378137.0, 3.8e8), (0.0, 1.0, 4.2e7), (0.0, 6378137.0, 1e12))])
    v = np.array(T.cat(v, T.kron(300, ["e", "n", "u"])))
    for t in times:
        for e in eops:
            kw = dict(e, force_non_astropy=True) if mode == "force" else e
            for name in ("eci2ecef", "ecef2eci"):
                f = getattr(p, name)
                M = matrix(name, t, e, mode)
                want = M @ v
                n = np.sqrt((v ** 2).sum(0))
                tol = n * (4e-15 if mode != "astropy" else 4e-9) + 1e-300
                k = v.shape[1] // 2 * 2
                outs = []
                for lay in ("flat", "2-D", "Fortran", "strided", "scalar", "one", "0-d"):
                    if lay == "flat":
                        r = f(*v.copy(), t, **kw)
                        shp = v[0].shape
                    elif lay == "2-D":
                        a = v[:, :k].reshape(3, 2, -1)
                        r, shp = f(*a, t, **kw), a[0].shape
                    elif lay == "Fortran":
                        a = [np.asfortranarray(c.reshape(2, -1)) for c in v[:, :k]]
                        r, shp = f(*a, t, **kw), a[0].shape
                    elif lay == "strided":
                        a = np.repeat(v, 2, axis=1)[:, ::2]
                        r, shp = f(*a, t, **kw), a[0].shape
                    else:
                        sel = range(0, v.shape[1], 5 if mode != "astropy" else 41)
                        conv = {"scalar": float, "one": lambda c: np.array([c]), "0-d": lambda c: np.float64(c)}[lay]
                        rr = [f(*[conv(c) for c in v[:, i]], t, **kw) for i in sel]
                        bad = [np.shape(c) for q in rr for c in q if np.size(c) != 1]
                        if bad:
                            ctx.viol(f"{name} of a {lay} vector returned shapes {bad[:3]}")
                            continue
                        r = [np.array([float(np.asarray(q[j]).reshape(())) for q in rr]) for j in range(3)]
                        d = np.abs(np.array(r) - want[:, list(sel)]).max(0) / tol[list(sel)]
                        ctx.add(states=len(rr), transitions=len(rr), traces=len(rr))
                        if not np.all(d <= 1):
                            ctx.viol(f"{name} at {t.isoformat()} {e} [{mode}] of {lay} vectors is not the rotation of the vector ({np.nanmax(d):.3g} times rounding)")
                        continue
                    ctx.add(states=v.shape[1], transitions=1, traces=v.shape[1])
                    if any(np.shape(c) != shp for c in r):
                        ctx.viol(f"{name} of {lay} arrays of shape {shp} returned shapes {[np.shape(c) for c in r]}")
                        continue
                    m = np.prod(shp)
                    w = want[:, :m] if lay != "Fortran" else np.array([c.reshape(2, -1).ravel() for c in want[:, :m]])
                    d = np.abs(np.array([np.ravel(c) for c in r]) - w).max(0) / tol[:m]
                    ln = np.abs(np.sqrt(sum(np.ravel(c) ** 2 for c in r)) - n[:m]) / tol[:m]
                    if not (np.all(d <= 1) and np.all(ln <= 1)):
                        i = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
                        ctx.viol(f"{name} at {t.isoformat()} {e} [{mode}] {lay}: {v[:, i].tolist()} becomes {[float(np.ravel(c)[i]) for c in r]} instead of {w[:, i].tolist()}",
                                 time=t.isoformat(), eop=e, mode=mode)


def tasks(tier):
    th = tier == "thorough"
    st = 2 if th else 20
    n = 8 if th else 4
    out = [(f"rotations-{k}", rotations, {"step": st, "mode": "force", "part": (k, n)}) for k in range(n)]
    out.append(("rotations-no-numpy", rotations, {"step": 5 * st, "mode": "std"}))
    out.append(("rotations-no-astropy", rotations, {"step": 5 * st, "mode": "noastro"}))
    out.append(("rotations-no-astropy-in-process", rotations, {"step": 5 * st, "mode": "plain", "_noastro": True}))
    for k in range(4):
        out.append((f"rotations-astropy-{k}", rotations_astropy, {"step": 37 if th else 307, "part": (k, 4)}))
    ts = c34.instants(4001)[:8]
    for m, na in (("force", False), ("plain", True)):
        out.append((f"vectors-{m}", vectors, {"mode": m, "times": ts if th else ts[:3], "eops": EOP if th else [EOP[0], EOP[14]], "_noastro": na}))
    out.append(("vectors-astropy", vectors, {"mode": "astropy", "times": ts[1:6] if th else ts[3:4], "eops": EOP[:1]}))
    return out


def rotations_astropy(ctx, step, part):
    old = c34.instants
    try:
        c34.instants = lambda s: [t for t in old(s) if 1973 <= t.year < 2025]
        rotations(ctx, step, "astropy", part, EOP[:1])
    finally:
        c34.instants = old
