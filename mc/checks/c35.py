"""azel2radec and radec2azel on the full product of directions (zenith, nadir, horizon, celestial poles, seam, full turns) x observers
(both poles, equator, seam) x instants x UT1 offsets, for arrays, scalars, NumPy-free and Astropy-free installations, against the
spherical triangle solved with 80-bit vectors at the local apparent sidereal time; the two are composed in both orders in every state;
with Astropy: round trips and agreement with the built-in path.
State: (function, direction, observer, instant, UT1 offset); transition: one call; trace: one direction compared on the sky."""
from datetime import datetime, timedelta, timezone

import numpy as np

import engine
import lattices as T
import refmodel as R

EPS = R.EPS
AZ = np.array([0.0, 33.0, 90.0, 135.25, 180.0, 225.75, 270.0, 359.999, 360.0, -45.5, 725.0, 1e-9])
EL = np.array([0.0, 90.0, -90.0, 70.0, -30.25, 89.99999, 5.0, 1e-9, -60.5, 42.0, 33.5])
LAT = [42.0, 90.0, -90.0, 0.0, -33.5, 89.9999, 1e-9, 60.25, -75.5]
LON = [-82.0, 0.0, 180.0, -180.0, 359.5, 400.25, 120.5]
TIMES = [datetime(2013, 1, 15, 12, 0, 5), datetime(2000, 1, 1, 12), datetime(2016, 12, 31, 23, 59, 59, 500000), datetime(2020, 2, 29, 6, 30),
         datetime(1984, 6, 30, 18, 1, 2, 345678), datetime(2013, 1, 15, 7, 0, 5, tzinfo=timezone(timedelta(hours=-5))), datetime(2049, 7, 4, 3),
         datetime(1972, 3, 1)]
DUT = [0.0, -0.3341, 0.87]
RA = np.array([0.0, 15.0, 90.0, 187.25, 270.0, 359.9999, 360.0, -20.0, 400.5])
DEC = np.array([0.0, 90.0, -90.0, 42.0, -42.0, 89.99999, -33.5, 1e-9, 60.25, 15.0])


# observers filling the Earth
LONS_OF = {float(a): float(b) for a, b in zip(*T.kron(300, ["lat", "lon"]))}


def horizon_axes(lat, lst):
    """east, north, up at the observer in the equator and equinox of date"""
    one = np.ones_like(lst)
    E = (-np.sin(lst), np.cos(lst), 0 * one)
    N = (-np.sin(lat) * np.cos(lst), -np.sin(lat) * np.sin(lst), np.cos(lat) * one)
    U = (np.cos(lat) * np.cos(lst), np.cos(lat) * np.sin(lst), np.sin(lat) * one)
    return E, N, U


def sky(lo, la):
    return np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)


def want(name, a, e, lat, lst):
    """unit vector the result must denote"""
    E, N, U = horizon_axes(lat, lst)
    if name == "azel2radec":
        h = (np.cos(e) * np.sin(a), np.cos(e) * np.cos(a), np.sin(e))
        return tuple(h[0] * E[i] + h[1] * N[i] + h[2] * U[i] for i in range(3))
    s = sky(a, e)
    d = [sum(s[i] * v[i] for i in range(3)) for v in (E, N, U)]
    return d[1], d[0], d[2]          # as sky(azimuth, elevation)


def run(name, A, E, lat, lon, t, dut, mode):
    import pymap3d as p
    f = getattr(p, name)
    kw = {"delta_ut1": dut}
    if mode in ("arr", "2d", "rows", "py", "np0"):
        kw["force_non_astropy"] = True
    if mode in ("arr", "plain"):
        return [np.asarray(v, float) for v in f(A.copy(), E.copy(), lat, lon, t, **kw)]
    if mode == "2d":
        return [np.asarray(v, float).T.ravel() for v in f(A.reshape(-1, 2).T, E.reshape(-1, 2).T, lat, lon, t, **kw)]
    if mode == "py":
        r = [f(float(a), float(e), lat, lon, t, **kw) for a, e in zip(A, E)]
    elif mode == "np0":
        r = [f(a, e, np.float64(lat), np.float64(lon), t, **kw) for a, e in zip(A, E)]
    else:
        r = engine.remote(mode, [("pymap3d", name, (float(a), float(e), lat, lon, t), kw, "none") for a, e in zip(A, E)])
        for x in r:
            if isinstance(x, tuple) and x and x[0] == "!exc":
                raise RuntimeError(f"{x[1]}: {x[2]} in the {mode} installation")
    return [np.array([float(np.asarray(v[i])) for v in r]) for i in (0, 1)]


def value(ctx, name, mode, lats, lons, times, duts, thin=1, n=0):
    import pymap3d as p
    ax, ey = (AZ, EL) if name == "azel2radec" else (RA, DEC)
    A, E = [c[::thin] for c in T.grid(ax, ey)]
    if mode == "2d" and len(A) % 2:
        A, E = A[:-1], E[:-1]
    other = "radec2azel" if name == "azel2radec" else "azel2radec"
    if n:
        A, E = T.kron(n, ["lon", "lat"], 2)
    ra, re = R.rad(A), R.rad(E)
    for lat in lats:
        for lon in lons if not n else [LONS_OF[lat]]:
            for t in times:
                for dut in duts:
                    lst = p.datetime2sidereal(t, float(np.radians(lon)), True, delta_ut1=dut)
                    what = f"{name}(az/ra, el/dec, {lat}, {lon}, {t.isoformat()}, delta_ut1={dut}) mode={mode}"
                    ctx.add(states=len(A), transitions=2 * (1 if mode in ("arr", "2d", "plain") else len(A)), traces=2 * len(A))
                    try:
                        got = run(name, A, E, lat, lon, t, dut, mode)
                        back = run(other, got[0], got[1], lat, lon, t, dut, mode)
                    except Exception as x:  # noqa: BLE001
                        ctx.viol(f"{what} raised {type(x).__name__}: {x}")
                        continue
                    ref = want(name, ra, re, R.rad(lat) + 0 * ra, R.ld(lst) + 0 * ra)
                    tol = EPS * (12 + 4 * np.abs(np.radians(A)) + 4 * abs(np.radians(lon)) + 8)
                    d = np.asarray(R.dist3(sky(R.rad(got[0]), R.rad(got[1])), ref), float) / tol
                    d2 = np.asarray(R.dist3(sky(R.rad(back[0]), R.rad(back[1])), sky(ra, re)), float) / (2 * tol)
                    q = np.maximum(d, d2)
                    # a full turn is only right as the rounded value of an angle just short of it
                    lo = np.asarray(np.arctan2(ref[1], ref[0]), float)
                    rngok = (got[0] >= 0) & ((got[0] < 360) | ((got[0] == 360) & (np.abs(lo) < 1e-13))) & (np.abs(got[1]) <= 90)
                    q = np.where(np.isnan(q) | ~rngok, np.inf, q)
                    fin = q[np.isfinite(q)]
                    if fin.size:
                        ctx.extra["worst_ratio"] = max(ctx.extra.get("worst_ratio", 0), round(float(fin.max()), 4))
                    for i in np.flatnonzero(q > 1)[:1]:
                        ctx.viol(f"{what}: direction ({A[i]}, {E[i]}) gives ({got[0][i]!r}, {got[1][i]!r}) and back ({back[0][i]!r}, {back[1][i]!r}), "
                                 f"{q[i]:.3g} times rounding ({int((q > 1).sum())} of {len(q)})", direction=[float(A[i]), float(E[i])], lat=lat, lon=lon, time=t.isoformat())
    ctx.sample({"call": name, "direction": [float(A[7]), float(E[7])], "observer": [lat, lon], "result": [float(got[0][7]), float(got[1][7])]})


def astropy_path(ctx, lats, lons, times):
    import pymap3d as p
    for lat in lats:
        for lon in lons:
            for t in times:
                for name, other, (ax, ey) in (("azel2radec", "radec2azel", (AZ, EL)), ("radec2azel", "azel2radec", (RA, DEC))):
                    A, E = T.grid(ax, ey)
                    try:
                        got = getattr(p, name)(A, E, lat, lon, t)
                        back = getattr(p, other)(got[0], got[1], lat, lon, t)
                        plain = getattr(p, name)(A, E, lat, lon, t, force_non_astropy=True)
                    except Exception as x:  # noqa: BLE001
                        ctx.viol(f"{name} with Astropy raised {type(x).__name__}: {x}")
                        continue
                    ctx.add(states=len(A), transitions=3, traces=2 * len(A))
                    v = [R.rad(np.asarray(c, float)) for c in (A, E, got[0], got[1], back[0], back[1], plain[0], plain[1])]
                    d1 = np.degrees(np.asarray(R.dist3(sky(v[0], v[1]), sky(v[4], v[5])), float)) / 1e-6
                    d2 = np.degrees(np.asarray(R.dist3(sky(v[2], v[3]), sky(v[6], v[7])), float))
                    q = np.maximum(d1, d2)
                    q = np.where(np.isnan(q) | ~((got[0] >= 0) & (got[0] <= 360) & (np.abs(got[1]) <= 90)), np.inf, q)
                    ctx.extra["worst_astropy_deg"] = max(ctx.extra.get("worst_astropy_deg", 0), round(float(np.nanmax(d2)), 4))
                    for i in np.flatnonzero(q > 1)[:1]:
                        ctx.viol(f"{name}({A[i]}, {E[i]}, {lat}, {lon}, {t.isoformat()}) with Astropy: ({got[0][i]!r}, {got[1][i]!r}), back {back[0][i]!r}, {back[1][i]!r}, "
                                 f"built-in ({plain[0][i]!r}, {plain[1][i]!r}) ({int((q > 1).sum())} of {len(q)})")


def tasks(tier):
    th = tier == "thorough"
    out = []
    for n in ("azel2radec", "radec2azel"):
        out.append((f"{n}-arrays", value, {"name": n, "mode": "arr", "lats": LAT, "lons": LON, "times": TIMES, "duts": DUT}))
        out.append((f"{n}-2d", value, {"name": n, "mode": "2d", "lats": LAT, "lons": LON[:3], "times": TIMES[:2], "duts": DUT[1:2]}))
        out.append((f"{n}-no-astropy", value, {"name": n, "mode": "plain", "lats": LAT, "lons": LON[:3], "times": TIMES[:3], "duts": DUT, "_noastro": True}))
        ob = sorted(LONS_OF, key=lambda v: LONS_OF[v])
        out.append((f"{n}-fill", value, {"name": n, "mode": "arr", "lats": ob, "lons": [], "times": TIMES if th else TIMES[:6:5], "duts": DUT[1:2], "n": 2000 if th else 300}))
        for k, m in enumerate(("py", "std")):
            out.append((f"{n}-fill-{m}", value, {"name": n, "mode": m, "lats": ob[k::7], "lons": [], "times": TIMES[3 + k:4 + k], "duts": DUT[:1], "n": 200 if th else 30}))
        for m in ("py", "std", "noastro", "np0"):
            out.append((f"{n}-{m}", value, {"name": n, "mode": m, "lats": LAT, "lons": LON if th else LON[::3], "times": TIMES if th else TIMES[:6:5],
                                          "duts": DUT if th else DUT[:2], "thin": 1 if th else 2}))
        if th:
            for k, lat in enumerate(LAT):
                more = [datetime(1972, 1, 2) + timedelta(days=911.37 * j) for j in range(31)]
                out.append((f"{n}-dates-{k}", value, {"name": n, "mode": "arr", "lats": [lat], "lons": LON, "times": more, "duts": DUT}))
    for lat in LAT:
        out.append((f"astropy-{lat}", astropy_path, {"lats": [lat], "lons": LON if th else LON[::4], "times": TIMES if th else TIMES[:6:5]}))
    return out
