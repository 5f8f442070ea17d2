"""greenwichsrt on a dense lattice of Julian dates against the IAU 1982 polynomial in 80-bit arithmetic and ERFA's gmst82;
datetime2sidereal on every third day (thorough: every day) from 1972 to 2050 at rotating times of day and times filling the day, their change over 10 and -30 minutes, and round leap seconds and
midnights, x longitudes x UT1 offsets against ERFA (gmst82 + eqeq94); the exact parts (longitude, UT1 offset, mean time) are
separated from the truncated equation of the equinoxes and compared to rounding; lists, scalars, no-Astropy, NumPy-free and the
Astropy path.  State: (function, instant, longitude, UT1 offset); transition: one call; trace: one compared angle."""
from datetime import datetime, timedelta

import numpy as np

import engine
import lattices as T
import refmodel as R

TAU = 2 * np.pi
SEC = np.pi / 648000
TOD = [0, 43200, 86399.999999, 1.5, 23415.25, 64862.345678, 7200, 79199.5]
LON = [0.0, -1.4, 3.0, -np.pi, 6.5, -7.5, 1e-9]
DUT = [0.0, -0.3341, 0.87]


def instants(step):
    out = []
    for k in range(0, 28850, step):
        j = k // step
        # listed times of day in turn with times filling the day
        out.append(datetime(1972, 1, 1) + (timedelta(days=k, seconds=TOD[j // 2 % len(TOD)]) if j % 2 else timedelta(days=k, microseconds=int(j * 2 ** 0.5 % 1 * 86400e6))))
    for b in (datetime(2017, 1, 1), datetime(2012, 7, 1), datetime(1972, 7, 1), datetime(2000, 1, 1, 12), datetime(2020, 2, 29)):
        for s in (-86400, -1, -1e-6, 0, 1e-6, 1, 3600):
            out.append(b + timedelta(seconds=s))
    return out


def two_part(t, sec=0.0):
    """Julian date in two parts, exact"""
    return t.toordinal() + 1721424.5, (t.hour * 3600 + t.minute * 60 + t.second + t.microsecond * 1e-6 + sec) / 86400


def leap(t):
    from checks import c33
    return c33.table(t)


def wrap(x):
    return np.abs((np.asarray(x) + np.pi) % TAU - np.pi)


def gmst(ctx, lo, hi, n):
    import erfa
    from pymap3d.sidereal import greenwichsrt
    jd = np.unique(np.concatenate([np.linspace(lo, hi, n), np.floor(np.linspace(lo, hi, 2000)) + 0.5, np.floor(np.linspace(lo, hi, 2000)) + 0.5 - 4.7e-10]))
    got = np.array(greenwichsrt(jd.tolist()))
    one = np.array([greenwichsrt(float(j)) for j in jd[::7]])
    t = (R.ld(jd) - R.ld(2451545)) / R.ld(36525)
    ref = (R.ld("67310.54841") + (R.ld(876600 * 3600) + R.ld("8640184.812866")) * t + R.ld("0.093104") * t * t - R.ld("6.2e-6") * t ** 3) / R.ld(86400)
    ref = np.asarray((ref - np.floor(ref)) * 2 * R.PI, float)
    tol = 2e-10 * (1 + np.abs(np.asarray(t, float)) * 2)
    q = np.maximum(wrap(got - ref) / tol, wrap(got - erfa.gmst82(jd, 0)) / (tol + 1e-9))
    q = np.where(np.isnan(q) | ~((got >= 0) & (got < TAU)), np.inf, q)
    ctx.add(states=len(jd), transitions=1 + len(one), traces=len(jd) + len(one))
    ctx.extra["worst_gmst_ratio"] = round(float(q[np.isfinite(q)].max()), 3)
    for i in np.flatnonzero(q > 1)[:2]:
        ctx.viol(f"greenwichsrt({jd[i]!r}) = {got[i]!r} instead of {ref[i]!r} ({int((q > 1).sum())} dates)", jd=float(jd[i]))
    if not np.array_equal(one, got[::7]):
        ctx.viol("greenwichsrt of a list differs from greenwichsrt of its elements")


def call(t, lon, dut, mode):
    """values of datetime2sidereal for every instant"""
    import pymap3d as p
    if mode == "list":
        return np.array(p.datetime2sidereal(list(t), lon, True, delta_ut1=dut), float)
    if mode == "tuple":
        return np.array(p.datetime2sidereal(tuple(t), lon, force_non_astropy=True, delta_ut1=dut), float)
    if mode == "py":
        return np.array([p.datetime2sidereal(x, lon, force_non_astropy=True, delta_ut1=dut) for x in t], float)
    if mode == "plain":
        return np.array([p.datetime2sidereal(x, lon, delta_ut1=dut) for x in t], float)
    if mode == "iso":
        return np.array([p.datetime2sidereal(x.isoformat(), lon, force_non_astropy=True, delta_ut1=dut) for x in t], float)
    return np.array([v if not isinstance(v, tuple) else np.nan for v in
                     engine.remote(mode, [("pymap3d", "datetime2sidereal", (x, lon), {"delta_ut1": dut}, "none") for x in t])], float)


def lst(ctx, step, mode, lons, duts, part=(0, 1)):
    from pymap3d.sidereal import greenwichsrt
    ts = instants(step)[part[0]::part[1]]
    d1 = np.array([two_part(t)[0] for t in ts])
    d2 = np.array([two_part(t)[1] for t in ts])
    tt = np.array([(leap(t) + 32.184) / 86400 for t in ts])
    try:
        import erfa
        eq = erfa.eqeq94(d1, d2 + tt)
        gm = {d: erfa.gmst82(d1, d2 + d / 86400) for d in duts}
    except ImportError:
        T = ((R.ld(d1) - R.ld(2451545)) + R.ld(d2)) / 36525
        eq = None
        gm = {}
        for d in duts:
            t = T + R.ld(d) / R.ld(86400 * 36525)
            s = (R.ld("67310.54841") + (R.ld(876600 * 3600) + R.ld("8640184.812866")) * t + R.ld("0.093104") * t * t - R.ld("6.2e-6") * t ** 3) / R.ld(86400)
            gm[d] = np.asarray((s - np.floor(s)) * 2 * R.PI, float)
    base = None
    for d in duts:
        for lon in lons:
            got = call(ts, lon, d, mode)
            ctx.add(states=len(ts), transitions=len(ts), traces=len(ts))
            resid = (got - gm[d] - lon + np.pi) % TAU - np.pi       # the equation of the equinoxes as used by the library
            # its truncated series is off by less than 0.4 arcsecond; 4.66e-10 day is the resolution of a Julian date
            qs = [np.where((got >= 0) & (got < TAU), 0, np.inf)]
            if eq is not None:
                e = wrap(resid - eq) / SEC / 0.4
                ctx.extra["worst_arcsec"] = max(ctx.extra.get("worst_arcsec", 0), round(float(np.nanmax(e)) * 0.4, 4))
                qs.append(e)
            else:
                qs.append(wrap(resid) / (20 * SEC))
            if base is None:
                base = resid
            qs.append(wrap(resid - base) / (2 * TAU * 3.5e-10 + 2e-15 * abs(lon) + 1e-11))
            q = np.maximum.reduce(qs)
            q = np.where(np.isnan(q), np.inf, q)
            for i in np.flatnonzero(q > 1)[:2]:
                ctx.viol(f"datetime2sidereal({ts[i].isoformat()}, {lon}, delta_ut1={d}) [{mode}] = {got[i]!r}: {q[i]:.3g} times the tolerance from the theory "
                         f"({int((q > 1).sum())} of {len(q)})", time=ts[i].isoformat(), lon=lon, delta_ut1=d, mode=mode)
    ctx.sample({"call": "datetime2sidereal", "time": ts[len(ts) // 3].isoformat(), "lon": lons[-1], "mode": mode, "result": float(got[len(ts) // 3])})


def steps(ctx, step, mode, delta):
    """the change over some minutes, in which the truncation of the nutation series plays no part"""
    import erfa
    ts = instants(step)
    us = [t + timedelta(seconds=delta) for t in ts]

    def theory(tt):
        d1, d2 = (np.array([two_part(t)[i] for t in tt]) for i in (0, 1))
        return erfa.gmst82(d1, d2) + erfa.eqeq94(d1, d2 + np.array([(leap(t) + 32.184) / 86400 for t in tt]))
    got = [call(x, 0.5, 0.0, mode) for x in (ts, us)]
    q = wrap((got[1] - got[0]) - (theory(us) - theory(ts))) / (0.01 * SEC)
    q = np.where(np.isnan(q), np.inf, q)
    ctx.add(states=len(ts), transitions=2 * len(ts), traces=len(ts))
    ctx.extra["worst_step_ratio"] = max(ctx.extra.get("worst_step_ratio", 0), round(float(q.max()), 3))
    for i in np.flatnonzero(q > 1)[:2]:
        ctx.viol(f"datetime2sidereal [{mode}] from {ts[i].isoformat()} to {us[i].isoformat()} grows by {(got[1][i] - got[0][i]) % TAU!r}, "
                 f"{q[i]:.3g} tolerances from the theory ({int((q > 1).sum())} of {len(q)})", time=ts[i].isoformat(), mode=mode)


def astropy_path(ctx, step, lons):
    """the Astropy path against the IAU 1982/1994 theory with Astropy's own UT1 offset"""
    import erfa
    import pymap3d as p
    from astropy.time import Time
    ts = [t for t in instants(step) if datetime(1973, 1, 1) < t < datetime(2025, 6, 1)]
    dut = Time(ts).delta_ut1_utc
    d1 = np.array([two_part(t)[0] for t in ts])
    d2 = np.array([two_part(t)[1] for t in ts])
    tt = np.array([(leap(t) + 32.184) / 86400 for t in ts])
    th = erfa.gmst82(d1, d2 + dut / 86400) + erfa.eqeq94(d1, d2 + tt)
    for lon in lons:
        lists = p.datetime2sidereal(ts, lon)
        got = np.array([float(np.asarray(v)) for v in lists])
        one = np.array([float(np.asarray(p.datetime2sidereal(t, lon))) for t in ts])
        ctx.add(states=len(ts), transitions=2 * len(ts), traces=2 * len(ts))
        e = np.maximum(wrap(got - th - lon), wrap(one - th - lon)) / SEC
        ctx.extra["worst_astropy_arcsec"] = max(ctx.extra.get("worst_astropy_arcsec", 0), round(float(np.nanmax(e)), 4))
        q = np.where(np.isnan(e) | ~((got >= 0) & (got < TAU)) | (got != one), np.inf, e)
        for i in np.flatnonzero(q > 1)[:2]:
            ctx.viol(f"datetime2sidereal({ts[i].isoformat()}, {lon}) with Astropy = {got[i]!r}, alone {one[i]!r}: {e[i]:.3g} arcseconds from the theory",
                     time=ts[i].isoformat(), lon=lon)


def tasks(tier):
    th = tier == "thorough"
    st = 1 if th else 3
    out = [("gmst", gmst, {"lo": 2441317.5, "hi": 2469807.5, "n": 400000 if th else 60000}),
           ("gmst-wide", gmst, {"lo": 2305447.5, "hi": 2600000.5, "n": 200000 if th else 20000})]
    n = 8 if th else 3
    for k in range(n):
        out.append((f"list-{k}", lst, {"step": st, "mode": "list", "lons": LON, "duts": DUT, "part": (k, n)}))
    for d in (600.0, -1800.0):
        out.append((f"steps{d:+.0f}", steps, {"step": st, "mode": "list", "delta": d}))
    out.append(("longitudes", lst, {"step": 20 * st, "mode": "list", "lons": [float(v) for v in T.kron(200, [(-13, 13)])[0]], "duts": DUT[1:2]}))
    out.append(("offsets", lst, {"step": 20 * st, "mode": "list", "lons": LON[1:2], "duts": [float(v) for v in T.kron(100, [(-0.9, 0.9)])[0]]}))
    out.append(("scalar", lst, {"step": 4 * st, "mode": "py", "lons": LON, "duts": DUT}))
    out.append(("tuple", lst, {"step": 20 * st, "mode": "tuple", "lons": LON, "duts": DUT}))
    out.append(("strings", lst, {"step": 20 * st, "mode": "iso", "lons": LON[:3], "duts": DUT[:2]}))
    out.append(("no numpy", lst, {"step": 8 * st, "mode": "std", "lons": LON, "duts": DUT}))
    out.append(("no astropy", lst, {"step": 8 * st, "mode": "noastro", "lons": LON, "duts": DUT}))
    out.append(("no astropy, in process", lst, {"step": 8 * st, "mode": "plain", "lons": LON, "duts": DUT, "_noastro": True}))
    out.append(("astropy", astropy_path, {"step": 37 if th else 113, "lons": LON[:4] if th else LON[1:3]}))
    return out
