"""juliandate on every day of the years 1 to 9999 (times of day rotating through a list holding midnight, noon, the last microsecond, and at times filling the day;
thorough: every listed time on every day of 1582-2200) against the proleptic Gregorian day number; TT-UTC on every day from 1972 to
2060 and at every leap-second instant +- 1 microsecond .. 1 day against the official table (and ERFA's); every UTC offset from
-23:59 to +23:59 at instants round midnight, month, year, leap-day and leap-second boundaries through every time-dependent
function, against the same instant in UTC and naive; str2dt on the product of instants x notations x NumPy units x containers.
State: (function, instant, notation or zone); transition: one call; trace: one compared result."""
from datetime import date, datetime, timedelta, timezone, tzinfo

import numpy as np

import engine

UTC = timezone.utc
TOD = [(0, 0, 0, 0), (12, 0, 0, 0), (23, 59, 59, 999999), (6, 30, 15, 250000), (11, 59, 59, 999999), (18, 1, 2, 345678), (0, 0, 0, 1), (23, 0, 59, 1)]
LEAPS = [(1972, 1), (1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7), (1982, 7), (1983, 7),
         (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7),
         (2015, 7), (2017, 1)]


def jd_exact(t):
    return t.toordinal() + 1721424.5 + (t.hour * 3600 + t.minute * 60 + t.second + t.microsecond * 1e-6) / 86400


def filling(k):
    """a time on the day of this number, such that the times of many days fill the day"""
    return datetime.fromordinal(k) + timedelta(microseconds=int(k * 2 ** 0.5 % 1 * 86400e6))


def days(ctx, y0, y1, every):
    from pymap3d.sidereal import juliandate
    for y in range(y0, y1):
        d0 = date(y, 1, 1).toordinal()
        d1 = date(y, 12, 31).toordinal()
        ts = []
        for k in range(d0, d1 + 1):
            d = date.fromordinal(k)
            for tod in (TOD if every else [TOD[(k + y) % len(TOD)]]):
                ts.append(datetime(d.year, d.month, d.day, *tod))
            if every or k % 3 == 0:
                ts.append(filling(k))
        got = np.array(juliandate(ts) if y % 2 else [juliandate(t) for t in ts])
        want = np.array([jd_exact(t) for t in ts])
        q = np.abs(got - want) / 1e-9
        q = np.where(np.isnan(q), np.inf, q)
        ctx.extra["worst_ratio"] = max(ctx.extra.get("worst_ratio", 0), round(float(q[np.isfinite(q)].max()), 3) if np.isfinite(q).any() else 0)
        for i in np.flatnonzero(q > 1)[:1]:
            ctx.viol(f"juliandate({ts[i].isoformat()}) = {got[i]!r} instead of {want[i]!r} ({int((q > 1).sum())} instants of year {y})", time=ts[i].isoformat())
        ctx.add(states=len(ts), transitions=len(ts), traces=len(ts))


def table(t):
    n = 9
    for y, m in LEAPS:
        if (t.year, t.month) >= (y, m):
            n += 1
    return n


def leaps(ctx, every):
    """exact TT-UTC as seen through the library's TT (used by sidereal time and ECI)"""
    from pymap3d import earth_orientation as eo
    inst = []
    k = date(1972, 1, 1).toordinal()
    while k < date(2060, 1, 1).toordinal():
        d = date.fromordinal(k)
        for tod in (TOD if every else [TOD[k % len(TOD)]]):
            inst.append(datetime(d.year, d.month, d.day, *tod))
        inst.append(filling(k))
        k += 1
    for y, m in LEAPS:
        b = datetime(y, m, 1)
        for us in (1, 2, 500000, 999999, 10 ** 6, 32 * 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6):
            for s in (-1, 1):
                if b + timedelta(microseconds=s * us) >= datetime(1972, 1, 1):
                    inst.append(b + timedelta(microseconds=s * us))
        inst.append(b)
    try:
        import erfa
    except ImportError:
        erfa = None
    tt = getattr(eo, "utc_to_tt", None)
    ls = getattr(eo, "leap_seconds", None)
    if tt is None and ls is None:
        ctx.extra["skipped"] = "no TT function to observe"
        return
    bad = 0
    for t in inst:
        want = table(t)
        if erfa is not None and t.year < 2030:
            assert int(erfa.dat(t.year, t.month, t.day, 0.0)) == want
        for z in (None, UTC, timezone(timedelta(hours=-11)), timezone(timedelta(hours=14))):
            a = t if z is None else t.replace(tzinfo=UTC).astimezone(z)
            ctx.add(states=1, transitions=1, traces=1)
            if tt is not None:
                g = tt(a)
                ok = g.replace(tzinfo=None) - g.utcoffset() - t == timedelta(seconds=want, microseconds=32184000) if g.tzinfo else \
                    g - t == timedelta(seconds=want, microseconds=32184000)
            else:
                ok = True
            if ok and ls is not None:
                ok = ls(a) == want
            if not ok:
                bad += 1
                if bad <= 3:
                    ctx.viol(f"TT-UTC at {a.isoformat()} is not {want} + 32.184 s", time=a.isoformat())
                break


class Dst(tzinfo):
    """zone with a seasonal offset and the fold attribute"""

    def utcoffset(self, dt):
        return timedelta(hours=-5) + self.dst(dt)

    def dst(self, dt):
        k = (dt.month, dt.day, dt.hour)
        if (3, 10, 3) <= k < (11, 3, 1):
            return timedelta(hours=1)
        if (11, 3, 1) <= k < (11, 3, 2):
            return timedelta(hours=0 if dt.fold else 1)
        return timedelta(0)

    def tzname(self, dt):
        return "X"

    def fromutc(self, dt):
        for off, fold in ((-4, 0), (-5, 1), (-5, 0)):
            c = (dt + timedelta(hours=off)).replace(fold=fold)
            if c.utcoffset() == timedelta(hours=off):
                return c
        raise AssertionError


def instants():
    out = []
    for b in (datetime(2000, 1, 1), datetime(1999, 12, 31, 23, 59, 59, 999999), datetime(2016, 12, 31, 23, 59, 59), datetime(2017, 1, 1),
              datetime(2020, 2, 28, 23, 30), datetime(2020, 2, 29, 0, 30), datetime(2020, 3, 1, 0, 0, 1), datetime(2013, 1, 15, 12, 0, 5),
              datetime(2012, 6, 30, 23, 59, 59, 999999), datetime(2012, 7, 1, 0, 0, 0, 1), datetime(1972, 7, 1), datetime(1984, 6, 30, 18, 1, 2, 345678),
              datetime(2024, 11, 3, 5, 30), datetime(2024, 11, 3, 6, 30), datetime(2024, 3, 10, 7, 0), datetime(2049, 12, 31, 12),
              datetime(1990, 12, 31, 23, 0), datetime(1991, 1, 1, 0, 59)):
        out.append(b)
    return out


def functions(force):
    """every function of a time, plain and with each of its options at a value that matters"""
    import pymap3d as p
    from pymap3d.sidereal import juliandate
    kw = {"force_non_astropy": True} if force else {}
    f = {"juliandate": lambda t: (juliandate(t),), "datetime2sidereal[list]": lambda t: tuple(p.datetime2sidereal([t, t], 0.3, **kw))}
    ut = {"delta_ut1": 0.5}
    pole = {"delta_ut1": -0.75, "xp": 0.3, "yp": -0.4}
    deg = {"deg": False}

    def put(name, args, *opts):
        for o in ({},) + opts:
            k = {**kw, **o}
            f[name + "".join(f" {a}={v}" for a, v in o.items())] = lambda t, k=k: np.ravel(getattr(p, name)(*args, t, **k))
    st = (4e6, -3e6, 5e6, 10., 20., 30.)

    def sid(t, **k):
        return p.datetime2sidereal(t, -1.4, **k)
    for o in ({}, ut, {"delta_ut1": -3.25}):
        f["datetime2sidereal" + "".join(f" {a}={v}" for a, v in o.items())] = lambda t, o=o: (sid(t, **kw, **o),)
    put("azel2radec", (33.0, 70.0, 42.0, -82.0), ut)
    put("radec2azel", (133.0, 20.0, 42.0, -82.0), ut)
    put("eci2ecef", st[:3], pole)
    put("ecef2eci", st[:3], pole)
    put("eci2ecef_state", st, pole)
    put("ecef2eci_state", st, pole)
    if not force:
        put("eci2geodetic", st[:3], pole, deg)
        put("geodetic2eci", (42., -82., 200.), pole)
        put("geodetic2eci", (0.7, -1.4, 200.), deg)
        put("eci2aer", st[:3] + (42., -82., 200.), pole)
        put("aer2eci", (33., 70., 1e6, 42., -82., 200.), pole)
        put("aer2eci", (0.6, 1.2, 1e6, 0.7, -1.4, 200.), {**deg, **ut})
    return f


def zones(ctx, offs, force, inst=None):
    import sys
    fs = functions(force)
    exact = force or "astropy" not in sys.modules
    for t in (inst or instants()):
        ref = {k: [float(v) for v in f(t)] for k, f in fs.items()}
        for off in offs + ["datetime64"]:
            z = UTC if off == "datetime64" else off if isinstance(off, tzinfo) else UTC if off == 0 else timezone(timedelta(seconds=off))
            a = t.replace(tzinfo=UTC).astimezone(z)
            for k, f, a in [(k, f, np.datetime64(t) if off == "datetime64" else a) for k, f in fs.items()] + [(k, f, (a if exact else t).isoformat()) for k, f in fs.items()]:
                # Astropy itself takes no notation with a time zone
                if ("eci" in k or k == "juliandate") and not isinstance(a, datetime):
                    continue                                    # these take datetimes only
                ctx.add(states=1, transitions=1, traces=1)
                try:
                    g = [float(v) for v in f(a)]
                except Exception as e:  # noqa: BLE001
                    ctx.viol(f"{k} with the time {a!r} raised {type(e).__name__}: {e}", time=str(a), function=k)
                    continue
                if exact:
                    ok = g == ref[k]
                else:
                    s = max(abs(v) for v in ref[k]) + 1
                    ok = all(abs(x - y) <= 1e-9 * s for x, y in zip(g, ref[k]))
                if not ok:
                    ctx.viol(f"{k} at {a!r} (the same instant as {t.isoformat()} UTC, force_non_astropy={force}) gives {g}, in UTC {ref[k]}",
                             time=str(a), function=k)


def notations(t):
    """(input, expected datetime)"""
    yield t, t
    for sep in ("T", " "):
        yield t.isoformat(sep=sep), t
    for z in (UTC, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-8))):
        a = t.replace(tzinfo=z)
        yield a, a
        for sep in ("T", " "):
            yield a.isoformat(sep=sep), a
    if t.microsecond == 0:
        yield t.isoformat(timespec="seconds"), t
        yield t.isoformat(timespec="seconds") + "+00:00", t.replace(tzinfo=UTC)
        yield t.isoformat(timespec="seconds") + "Z", t.replace(tzinfo=UTC)
        if t.second == 0:
            yield t.isoformat(timespec="minutes"), t
            if (t.hour, t.minute) == (0, 0):
                yield t.isoformat()[:10], t
    if t.microsecond % 1000 == 0:
        yield t.isoformat(timespec="milliseconds"), t


def units(t):
    if t.microsecond == 0:
        yield "s"
        if t.second == 0:
            yield "m"
            if t.minute == 0:
                yield "h"
                if t.hour == 0:
                    yield "D"
                    if t.day == 1:
                        yield "M"
    if t.microsecond % 1000 == 0:
        yield "ms"
    yield "us"
    if 1678 < t.year < 2262:
        yield "ns"


def parsing(ctx):
    from pymap3d.timeconv import str2dt
    inst = instants() + [datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59, 59, 999999), datetime(1970, 1, 1), datetime(1969, 12, 31, 23, 59, 59),
                         datetime(2024, 2, 29), datetime(1900, 3, 1, 1), datetime(2014, 4, 6, 8), datetime(2014, 4, 6, 8, 5), datetime(2014, 4, 6, 8, 5, 7, 120000)]

    def want(got, exp, what):
        ctx.add(states=1, transitions=1, traces=1)
        ok = isinstance(got, datetime) and got == exp and got.tzinfo == exp.tzinfo if isinstance(exp, datetime) else \
            len(got) == len(exp) and all(isinstance(g, datetime) and g == e and (g.tzinfo is None) == (e.tzinfo is None) for g, e in zip(got, exp))
        if not ok:
            ctx.viol(f"str2dt({what!r}) = {got!r}, expected {exp!r}", input=repr(what))
    allf = []
    for t in inst:
        for x, e in notations(t):
            allf.append((x, e))
        for u in units(t):
            allf.append((np.datetime64(t.isoformat(), u), t))
    for x, e in allf:
        want(call(str2dt, x), e, x)
    # every ordered pair of representations in lists and tuples
    some = allf[::5]
    for x, e in some:
        for y, f in some:
            want(call(str2dt, [x, y]), [e, f], [x, y])
            want(call(str2dt, (x, y)), [e, f], (x, y))
    for u in ("s", "ms", "us", "ns"):
        ts = [t for t in inst if u in list(units(t))]
        a = np.array([t.isoformat() for t in ts], dtype=f"datetime64[{u}]")
        want(list(np.ravel(call(str2dt, a))), ts, a)
        want(list(np.ravel(call(str2dt, a[::-1]))), ts[::-1], a[::-1])
        b = a[: len(a) // 2 * 2].reshape(2, -1)
        want(list(np.ravel(call(str2dt, b))), ts[: b.size], b)
        o = np.array(ts, dtype=object)
        want(list(np.ravel(call(str2dt, o))), ts, o)
    want(call(str2dt, []), [], [])


def call(f, x):
    try:
        return f(x)
    except Exception as e:  # noqa: BLE001
        return [f"raised {type(e).__name__}: {e}"]


def plain(ctx):
    """the same Julian dates and sidereal times from the plain-Python installation"""
    from pymap3d.sidereal import juliandate
    ts = [t for t in instants()] + [t.replace(tzinfo=timezone(timedelta(hours=h))) for t in instants() for h in (-23, -5, 0, 9, 14)]
    for mode in ("std", "noastro"):
        got = engine.remote(mode, [("pymap3d.sidereal", "juliandate", (t,), {}, "none") for t in ts] +
                            [("pymap3d.timeconv", "str2dt", (t.isoformat(),), {}, "none") for t in ts])
        want = [juliandate(t) for t in ts] + ts
        for t, g, w in zip(ts + ts, got, want):
            ctx.add(states=1, transitions=1, traces=1)
            if g != w:
                ctx.viol(f"{'str2dt' if isinstance(w, datetime) else 'juliandate'} of {t.isoformat()} is {g} in the {mode} installation, {w} otherwise")


def tasks(tier):
    th = tier == "thorough"
    out = [(f"days-{y}", days, {"y0": y, "y1": min(y + 625, 10000), "every": False}) for y in range(1, 10000, 625)]
    if th:
        out += [(f"every-{y}", days, {"y0": y, "y1": y + 20, "every": True}) for y in range(1580, 2200, 20)]
    out.append(("leap seconds", leaps, {"every": th}))
    step = 60 if th else 15 * 60
    offs = [0] + list(range(-86340, 86341, step)) + [1, -1, 3599, -3601, 12345, 86399, -86399]
    offs += [Dst()]
    for k in range(8 if th else 2):
        out.append((f"zones-{k}", zones, {"offs": offs[k::8 if th else 2], "force": True}))
    ins = instants()
    for j in range(0, len(ins), 3):
        out.append((f"zones-astropy-{j}", zones, {"offs": offs[:: 40 if th else 36] + [Dst()], "force": False, "inst": ins[j:j + (3 if th else 1)]}))
    out.append(("zones-noastropy", zones, {"offs": offs[:: 4 if th else 8] + [Dst()], "force": False, "_noastro": True}))
    out.append(("str2dt", parsing, {}))
    out.append(("other installations", plain, {}))
    return out
