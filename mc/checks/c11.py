"""Histories of calls on the real code.  The reference of every call is its result as the very first call of a fresh process (a fork of a
process that has only imported the library), compared bit for bit including types, shapes and error messages.
(1) per function: an alphabet of calls that differ from each other in one argument, the sign of zero, int or float, the unit, an option, the
ellipsoid (default, catalogue, custom ones sharing name, one axis, the flattening, or differing by 1e-15 to 1e-3 relative), scalar or array,
array shape and one element, equal instants in different time zones, times differing only in fold, and rejected calls; for every call A of the alphabet a fresh process runs A,
then B A B' A ... for all B, so that every ordered pair occurs adjacently and every call occurs first;  (2) across functions: the same with an alphabet
of calls of all functions, of cache clearing and of ellipsoid construction;  (3) every sequence up to the depth bound over alphabets around the
ellipsoid and geodesic caches, each in a fresh process;  (4) arguments changed in place between two calls with the same objects (arrays, Ellipsoids).
Returned arrays and lists are overwritten after every call.
State: history; transition: one call; trace: one result compared with its fresh-process reference."""
import itertools
import os
import pickle
import sys
from datetime import datetime, timedelta, timezone

import numpy as np

import api
import calls
from calls import A, Atom

A84, B84 = 6378137.0, 6356752.31424518
MUT = {}


# ------------------------------------------------------------------ fresh processes

def in_fresh(fn):
    """result of fn() in a fork of this process (which has made no library call)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                b = pickle.dumps(("ok", fn()))
            except BaseException as e:  # noqa: BLE001
                b = pickle.dumps(("err", f"{type(e).__name__}: {e}"))
            with os.fdopen(w, "wb") as fh:
                fh.write(b)
        except BaseException:  # noqa: BLE001
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        b = fh.read()
    _, st = os.waitpid(pid, 0)
    if st or not b:
        raise RuntimeError(f"a fresh process died with status {st}")
    k, v = pickle.loads(b)
    if k == "err":
        raise RuntimeError(v)
    return v


def poison(r):
    if isinstance(r, np.ndarray):
        if r.flags.writeable and r.dtype.kind == "f":
            r[...] = 777.25
    elif isinstance(r, list):
        for x in r:
            poison(x)
        r.clear()
    elif isinstance(r, tuple):
        for x in r:
            poison(x)


def step(a):
    """run one call, overwrite what it returned"""
    if a.mod == "!clear":
        from pymap3d.ellipsoid import clear_ellipsoid_caches
        clear_ellipsoid_caches()
        return None
    try:
        f, args, kw = a.build()
        r = f(*args, **kw)
        c = calls.canon(r)
        poison(r)
        return c
    except Exception as e:  # noqa: BLE001
        return ("!exc", type(e).__name__, str(e)[:200])


def refs(alpha):
    """each call as the first of a fresh process"""
    def one(a):
        return lambda: step(a)
    return [in_fresh(one(a)) for a in alpha]


def star(alpha, ref, i, cols):
    """in one process: A, then B A for every B of cols; returns what differs"""
    bad, n = [], 1
    h = step(alpha[i])
    if h != ref[i]:
        bad.append((i, None, h, 0))
    for j in cols:
        h = step(alpha[j])
        n += 1
        if h != ref[j]:
            bad.append((j, i, h, n))
            if len(bad) > 5:
                break
        h = step(alpha[i])
        n += 1
        if h != ref[i]:
            bad.append((i, j, h, n))
            if len(bad) > 5:
                break
    return n, bad


def report(ctx, alpha, ref, bad, what):
    for i, j, h, n in bad:
        ctx.viol(f"{what}: {alpha[i].label} after {'nothing' if j is None else alpha[j].label} (call {n} of the process) gives {str(calls.show(h))[:150]}, "
                 f"in a fresh process {str(calls.show(ref[i]))[:150]}", call=alpha[i].label, before=None if j is None else alpha[j].label)


def warm():
    """load Astropy's tables so that forked processes need not (no library call)"""
    try:
        from astropy.coordinates import GCRS, ITRS, CartesianRepresentation, AltAz, EarthLocation, SkyCoord
        from astropy.time import Time
        import astropy.units as u
        t = Time(datetime(2013, 1, 15, 12))
        GCRS(CartesianRepresentation(1e7 * u.m, 0 * u.m, 0 * u.m), obstime=t).transform_to(ITRS(obstime=t))
        SkyCoord(1 * u.deg, 2 * u.deg, frame="icrs").transform_to(AltAz(obstime=t, location=EarthLocation(lat=1 * u.deg, lon=2 * u.deg)))
        t.sidereal_time("apparent", longitude=0.1 * u.rad)
    except ImportError:
        pass


# ------------------------------------------------------------------ alphabets

def ell_ladder():
    f = (A84 - B84) / A84
    out = ["none", None, "mars", "wgs84", "grs80", (A84, B84), (A84, 6.2e6, "WGS-84 (1984)", "wgs84"), (6.3e6, 6.2e6, "WGS-84 (1984)", "wgs84"),
           (6.4e6, B84), (2 * A84, 2 * B84), (A84, A84)]
    for d in (1e-8, 1e-4, 1e-2, 1.0, 100.0, 1e4):
        out.append((A84, B84 - d))
        out.append((A84 + d, (A84 + d) * (1 - f)))
    return out


def local(s, thorough, astro):
    """calls of one function that differ in one thing"""
    n = len(s.args)
    base = [s.alphabet(i)[0] for i in range(n)]
    out = []

    def add(t, kw=None, ell="none", tag=""):
        out.append(Atom(s.mod, s.name, tuple(t), dict(kw or {}), ell, tag))

    combos = s.opt_combos()
    o0 = combos[0]
    add(base, o0)
    for o in combos[1:]:
        add(base, o)
    if s.deg:
        add(base, dict(o0, deg=False))
        add([float(np.radians(v)) if k in api.ANGLES else v for v, k in zip(base, s.kinds())], dict(o0, deg=False))
    for i in range(n):
        al = s.alphabet(i)
        ch = al[1:3] if not thorough else al[1:5]
        for v in ch:
            add(base[:i] + [v] + base[i + 1:], o0)
        if isinstance(base[i], float):
            add(base[:i] + [0.0] + base[i + 1:], o0)
            add(base[:i] + [-0.0] + base[i + 1:], o0)
            add(base[:i] + [1] + base[i + 1:], o0)
            add(base[:i] + [1.0] + base[i + 1:], o0)
            add(base[:i] + [np.nextafter(base[i], 1e300)] + base[i + 1:], o0)
            if i < 2 or thorough:
                add(base[:i] + ["x"] + base[i + 1:], o0)
                add(base[:i] + [float("nan")] + base[i + 1:], o0)
        elif isinstance(base[i], datetime):
            tz = timezone(timedelta(hours=3))
            add(base[:i] + [base[i].replace(tzinfo=timezone.utc)] + base[i + 1:], o0)
            add(base[:i] + [base[i].replace(tzinfo=timezone.utc).astimezone(tz)] + base[i + 1:], o0)
            add(base[:i] + [base[i].replace(tzinfo=tz)] + base[i + 1:], o0)
            add(base[:i] + [base[i] + timedelta(microseconds=1)] + base[i + 1:], o0)
            for t in calls.FOLD_TIMES:
                add(base[:i] + [t] + base[i + 1:], o0)
    if s.ell:
        ells = ell_ladder()
        for e in ells[1:]:
            add(base, o0, e)
    if s.arr and n:
        ti = [i for i, (nm, k) in enumerate(s.args) if nm in s.nonarr or k == "t"]
        for nn in (1, 3):
            t = tuple(v if i in ti else calls._arr(k, v, nn) for i, (v, k) in enumerate(zip(base, s.kinds())))
            add(t, o0, tag=f"[array {nn}]")
            if nn == 3:
                for i in range(n):
                    if i not in ti:
                        w = list(t[i])
                        w[-1] = w[-1] + 0.25 * abs(w[-1]) + 0.01
                        add(t[:i] + (tuple(w),) + t[i + 1:], o0, tag=f"[array 3, last element of argument {i} changed]")
                        add(t[:i] + (base[i],) + t[i + 1:], o0, tag=f"[array 3, scalar argument {i}]")
                if s.ell:
                    add(t, o0, "mars", tag="[array 3]")
                if s.deg:
                    add(t, dict(o0, deg=False), tag="[array 3]")
                if len(t) > 1:
                    k = [i for i in range(n) if i not in ti]
                    add(t[:k[0]] + (calls._arr("", base[k[0]], 2),) + t[k[0] + 1:], o0, tag="[mismatched arrays]")
    if astro:
        out = out[:10] + [a for a in out[10:] if any(t in calls.FOLD_TIMES for t in a.args if isinstance(t, datetime))]
    if len(out) > (90 if not thorough else 400):
        # keep everything of the first kinds and a regular selection of the rest
        st = -(-len(out) // 90)
        out = out[:30] + out[30::st]
    return out


def local_task(ctx, idxs, tier):
    specs = calls.all_specs()
    for idx in idxs:
        s = specs[idx]
        astro = "force_non_astropy" not in s.opts and ("t" in s.kinds())
        if astro:
            warm()
        alpha = local(s, tier == "thorough", astro)
        ref = refs(alpha)
        tot = 0
        for i in range(len(alpha)):
            n, bad = in_fresh(lambda: star(alpha, ref, i, [j for j in range(len(alpha)) if j != i]))
            tot += n
            report(ctx, alpha, ref, bad, s.key)
        ctx.add(states=len(alpha) ** 2, transitions=tot + len(alpha), traces=tot)
        ctx.sample({"function": s.key, "alphabet": len(alpha)})


def cross_alphabet(tier):
    th = tier == "thorough"
    out = []
    for s in api.SPECS:
        oc = s.opt_combos()
        out += calls.variants(s, opts=oc if th else oc[-1:], ells=("none", "mars", (A84, 6.3e6)) if th else ("none", "mars"),
                              arrays=(0, 3), degs=(True, False) if th or s.ell else (True,))
    out += calls.extras()
    for e in ell_ladder()[4:]:
        out.append(Atom("pymap3d", "geodetic2ecef", (42.0, -82.0, 100.0), {}, e))
        out.append(Atom("pymap3d.karney", "geodesic_inverse", (40.0, -70.0, 20.0, 10.0), {}, e))
        out.append(Atom("pymap3d.karney", "geodesic_direct", (40.0, -70.0, 20.0, 1e6), {}, e))
    out += [Atom("!clear", "clear_ellipsoid_caches", ())] * 1
    return out


def cross_task(ctx, part, parts, tier):
    alpha = cross_alphabet(tier)
    ref = refs(alpha)
    n = len(alpha)
    for i in range(part, n, parts):
        # B A only for B after A in cyclic order: both orders of every pair occur
        cols = [(i + d) % n for d in range(1, n // 2 + 1)]
        m, bad = in_fresh(lambda: star(alpha, ref, i, cols))
        ctx.add(states=len(cols), transitions=m, traces=m)
        report(ctx, alpha, ref, bad, "across functions")
    ctx.count("alphabet_size_sum", n)


# ------------------------------------------------------------------ sequences around the caches

def cache_alphabet(kind):
    K = "pymap3d.karney"
    inv = (40.0, -70.0, 20.0, 10.0)
    if kind == "geodesic":
        return [Atom(K, "geodesic_inverse", inv), Atom(K, "geodesic_inverse", inv, {}, "mars"), Atom(K, "geodesic_inverse", inv, {}, (A84, B84 - 1.0)),
                Atom(K, "geodesic_inverse", inv, {}, (A84 + 1.0, (A84 + 1.0) * (1 - (A84 - B84) / A84))),
                Atom(K, "geodesic_inverse", inv, {}, (A84, 6.2e6, "WGS-84 (1984)", "wgs84")), Atom(K, "geodesic_direct", (40.0, -70.0, 20.0, 1e6)),
                Atom(K, "geodesic_line", inv, {"npts": 3}), Atom(K, "geodesic_area", (("list", 0.0, 10.0, 20.0), ("list", 0.0, 20.0, 0.0))),
                Atom(K, "geodesic_inverse", inv, {"deg": False}), Atom(K, "geodesic_inverse", ("x", 0.0, 0.0, 0.0)),
                Atom("!clear", "clear_ellipsoid_caches", ())]
    if kind == "named":
        E = "pymap3d.ellipsoid"
        g = (42.0, -82.0, 100.0)
        return [Atom(E, "Ellipsoid.from_name", ("wgs84",)), Atom(E, "Ellipsoid.from_name", ("mars",)), Atom(E, "Ellipsoid.from_name", ("nosuch",)),
                Atom(E, "Ellipsoid.from_name", ("jupyter",)), Atom(E, "Ellipsoid", (A84, 6.2e6, "WGS-84 (1984)", "wgs84")), Atom("pymap3d", "geodetic2ecef", g),
                Atom("pymap3d", "geodetic2ecef", g, {}, "mars"), Atom("pymap3d", "geodetic2ecef", g, {}, (A84, 6.2e6, "WGS-84 (1984)", "wgs84")),
                Atom("pymap3d.vincenty", "vdist", (40.0, -70.0, 20.0, 10.0)), Atom("!clear", "clear_ellipsoid_caches", ())]
    if kind == "series":
        L = "pymap3d.latitude"
        out = []
        for nm in ("geodetic2rectifying", "authalic2geodetic", "geodetic2conformal"):
            for e in ("none", "mars", (A84, 6.2e6)):
                out.append(Atom(L, nm, (42.0,), {}, e))
        out.append(Atom("pymap3d.lox", "meridian_arc", (10.0, 42.0), {}, "mars"))
        out.append(Atom("pymap3d.rsphere", "authalic", (), {}, "mars"))
        return out
    T1, T2 = api.T0, datetime(2000, 1, 1, 12)
    F = {"force_non_astropy": True}
    out = []
    for t in (T1, T2, T1.replace(tzinfo=timezone.utc), T1.replace(tzinfo=timezone(timedelta(hours=3))), *calls.FOLD_TIMES):
        out.append(Atom("pymap3d", "eci2ecef", (1e7, 2e6, -3e6, t), F))
        out.append(Atom("pymap3d", "datetime2sidereal", (t, 0.5), F))
    out += [Atom("pymap3d", "eci2ecef", (1e7, 2e6, -3e6, T1), dict(F, delta_ut1=0.3)), Atom("pymap3d", "eci2ecef", (1e7, 2e6, -3e6, T1), dict(F, xp=0.3)),
            Atom("pymap3d", "eci2ecef_state", (1e7, 2e6, -3e6, 10.0, 20.0, 30.0, T1), F), Atom("pymap3d", "eci2ecef_state", (1e7, 2e6, -3e6, 10.0, 20.0, 30.0, T1), dict(F, yp=0.3))]
    return out


def seq_task(ctx, kind, depth, part, parts):
    alpha = cache_alphabet(kind)
    ref = refs(alpha)
    n = len(alpha)

    def run(prefix):
        # children of a prefix: each in its own fork of a process that executed exactly the prefix
        bad = []
        for k, i in enumerate(prefix):
            h = step(alpha[i])
            if h != ref[i]:
                bad.append((i, prefix[k - 1] if k else None, h, k + 1))
        return bad

    seqs = [q for q in itertools.product(range(n), repeat=depth)][part::parts]
    for q in seqs:
        bad = in_fresh(lambda: run(q))
        ctx.add(states=1, transitions=depth, traces=depth)
        if bad:
            ctx.viol(f"history {[alpha[i].label for i in q]}: {alpha[bad[0][0]].label} as call {bad[0][3]} gives {str(calls.show(bad[0][2]))[:200]}, alone {str(calls.show(ref[bad[0][0]]))[:200]}")


# ------------------------------------------------------------------ arguments changed between calls

def mutate_task(ctx, part, parts, tier):
    import pymap3d
    specs = [s for s in api.SPECS if s.args][part::parts]
    for s in specs:
        o = s.opt_combos()[-1]
        base = [s.alphabet(i)[0] for i in range(len(s.args))]
        ti = [i for i, (nm, k) in enumerate(s.args) if nm in s.nonarr or k == "t"]
        if s.arr:
            t = [v if i in ti else calls._arr(k, v, 3) for i, (v, k) in enumerate(zip(base, s.kinds()))]
            for i in range(len(t)):
                if i in ti:
                    continue
                w = list(t)
                w[i] = ("arr",) + tuple(x + 0.125 for x in t[i][1:])
                a1, a2 = Atom(s.mod, s.name, tuple(t), dict(o)), Atom(s.mod, s.name, tuple(w), dict(o))
                r1, r2 = refs([a1, a2])

                def hist():
                    f, args, kw = a1.build()
                    got = []
                    for _ in range(2):
                        c = calls.canon(f(*args, **kw))
                        got.append(c == r1)
                        args[i][...] = a2.build()[1][i]
                        c = calls.canon(f(*args, **kw))
                        got.append(c == r2)
                        args[i][...] = a1.build()[1][i]
                    return got
                if isinstance(r1, tuple) and r1[:1] == ("!exc",) or isinstance(r2, tuple) and r2[:1] == ("!exc",):
                    continue
                g = in_fresh(hist)
                ctx.add(states=1, transitions=4, traces=4)
                if not all(g):
                    ctx.viol(f"{s.key}: calling it again with the same array object after changing argument {i} in place gives another result than a fresh process ({g})")
        if s.ell:
            for (e1, e2) in (((A84, B84), (6.4e6, 6.2e6)), ((A84, B84), (A84, 6.3e6)), ((A84, B84, "n", "m"), (A84 * 2, B84 * 2, "n", "m"))):
                a1, a2 = Atom(s.mod, s.name, tuple(base), dict(o), e1), Atom(s.mod, s.name, tuple(base), dict(o), e2)
                r1, r2 = refs([a1, a2])

                def hist2():
                    E1, E2 = pymap3d.Ellipsoid(*e1), pymap3d.Ellipsoid(*e2)
                    E = pymap3d.Ellipsoid(*e1)
                    got = []
                    f, args, kw = a1.build()
                    kw["ell"] = E
                    for src, r in ((E1, r1), (E2, r2), (E1, r1)):
                        for k, v in vars(src).items():
                            try:
                                setattr(E, k, v)
                            except AttributeError:     # a frozen class rules this history out
                                return got
                        try:
                            c = calls.canon(f(*args, **kw))
                        except Exception as e:  # noqa: BLE001
                            c = ("!exc", type(e).__name__, str(e)[:200])
                        got.append(c == r)
                    return got
                g = in_fresh(hist2)
                ctx.add(states=1, transitions=3, traces=len(g))
                if not all(g):
                    ctx.viol(f"{s.key}: an Ellipsoid object changed from {e1} to {e2} and back between calls gives other results than fresh processes ({g})")


def tasks(tier):
    th = tier == "thorough"
    specs = calls.all_specs()
    out = []
    P = 32 if th else 16
    for p in range(P):
        out.append((f"across-{p}", cross_task, {"part": p, "parts": P, "tier": tier}))
    for i in range(len(specs)):
        out.append((f"local-{specs[i].key}-{i}", local_task, {"idxs": [i], "tier": tier}))
    for kind, dq, dt in (("geodesic", 3, 4), ("named", 3, 4), ("series", 3, 4), ("orientation", 3, 3)):
        d = dt if th else dq
        pp = 16 if th else 2
        for p in range(pp):
            out.append((f"sequences-{kind}-{d}-{p}", seq_task, {"kind": kind, "depth": d, "part": p, "parts": pp}))
    for p in range(6):
        out.append((f"changed-arguments-{p}", mutate_task, {"part": p, "parts": 6, "tier": tier}))
    return out
