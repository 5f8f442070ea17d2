"""Two threads of real library calls under a controlled scheduler (mc/sched.py): exactly one thread runs at a time, and control changes hands
only at chosen steps.  A step is a source line of library code, or a single bytecode in functions that touch module-level or class-level mutable
objects (found from the code objects at run time), or (thorough) a bytecode everywhere.
Preemption bound 1: A runs k steps, B runs from start to end, A finishes, for every k from 0 to the length of A, for every function paired with itself
(different arguments, units, ellipsoids; scalars and arrays; a rejected call) in a warm process and, forked afresh per schedule, as the very first
calls of a process (quick: for calls longer than 400 steps only preempted in functions that touch shared objects); and every function paired with calls that share lazily created state (cache clearing, named and custom ellipsoids, geodesics; quick: preempted in the functions that touch shared objects).
Preemption bound 2: A k steps, B m steps, A to its end, B to its end, for all k, m, around the caches (thorough: for every function of moderate length).
Each result is compared bit for bit with the call run alone in a fresh process, and both calls are repeated afterwards.
State: schedule; transition: one executed schedule; trace: one result compared."""
import os

import numpy as np

import api
import calls
import sched
from calls import Atom
from checks.c11 import in_fresh, warm, A84, B84

CLEAR = Atom("pymap3d.ellipsoid", "clear_ellipsoid_caches", ())
TIMEOUT = 600


def alone(a):
    return in_fresh(a.run)


def check(ctx, a, b, ra, rb, res, where):
    x, y, bl = res
    ok = True
    for who, at, got, ref in (("first", a, x, ra), ("second", b, y, rb)):
        if got != ref:
            ok = False
            ctx.viol(f"{a.label} || {b.label}, {where}: the {who} thread gets {str(calls.show(got))[:160]}, alone {str(calls.show(ref))[:160]}",
                     first=a.label, second=b.label, schedule=where)
    if bl:
        ctx.count("schedules_in_which_a_thread_waited_for_a_lock", bl)
    return ok


def after(ctx, a, b, ra, rb, where):
    for at, ref in ((a, ra), (b, rb)):
        got = at.run()
        if got != ref:
            ctx.viol(f"{at.label} after {a.label} || {b.label}, {where}: {str(calls.show(got))[:160]}, alone {str(calls.show(ref))[:160]}")
            return False
    return True


def bound1(ctx, a, b, ra, rb, grain, cold=False, stride=1):
    """every preemption point of a"""
    if cold:
        n, r = in_fresh(lambda: sched.solo(a.run, grain))
    else:
        a.run()
        b.run()
        n, r = sched.solo(a.run, grain)
    if r != ra:
        ctx.viol(f"{a.label} alone in a second thread gives {str(calls.show(r))[:160]}, in the first {str(calls.show(ra))[:160]}")
        return
    bad = 0
    for k in range(0, n + 1, stride):
        where = f"{'cold' if cold else 'warm'}, preempted after {k} of {n} steps ({grain})"

        def one():
            class C:     # collects in the forked process
                v = []
                c = 0
                viol = staticmethod(lambda m, **d: C.v.append((m, d)))
                count = staticmethod(lambda key, n=1: None)
            res = sched.run(a.run, b.run, k, None, grain)
            ok = check(C, a, b, ra, rb, res, where)
            if ok and (cold or k == n):      # warm: the next schedule runs the same calls again
                ok = after(C, a, b, ra, rb, where)
            return ok, C.v, res[2]
        try:
            if cold:
                ok, v, bl = in_fresh(one)
            else:
                ok, v, bl = one()
        except sched.Stuck:
            ok, v, bl = False, [(f"{a.label} || {b.label}, {where}: the threads block each other", {})], 0
        except RuntimeError as e:
            ok, v, bl = False, [(f"{a.label} || {b.label}, {where}: {e}", {})], 0
        if bl:
            ctx.count("schedules_in_which_a_thread_waited_for_a_lock")
        for m, d in v:
            ctx.viol(m, **d)
        if not ok:
            bad += 1
            if bad >= 3:
                break
    ctx.add(states=n // stride + 1, transitions=n // stride + 1, traces=4 * (n // stride + 1))


def bound2(ctx, a, b, ra, rb, grain, cold=False, cap=None):
    f = in_fresh if cold else (lambda g: g())
    na = f(lambda: sched.solo(a.run, grain))[0]
    nb = f(lambda: sched.solo(b.run, grain))[0]
    if cap and na * nb > cap:
        return False
    bad = 0
    for k in range(na + 1):
        for m in range(nb + 1):
            where = f"{'cold' if cold else 'warm'}, first {k} of {na} steps, second {m} of {nb}, first, second ({grain})"

            def one():
                class C:
                    v = []
                    viol = staticmethod(lambda msg, **d: C.v.append((msg, d)))
                    count = staticmethod(lambda key, n=1: None)
                res = sched.run(a.run, b.run, k, m, grain)
                ok = check(C, a, b, ra, rb, res, where)
                if ok and (cold or m == nb):
                    ok = after(C, a, b, ra, rb, where)
                return ok, C.v, res[2]
            try:
                ok, v, bl = in_fresh(one) if cold else one()
            except sched.Stuck:
                ok, v, bl = False, [(f"{a.label} || {b.label}, {where}: the threads block each other", {})], 0
            except RuntimeError as e:
                ok, v, bl = False, [(f"{a.label} || {b.label}, {where}: {e}", {})], 0
            for msg, d in v:
                ctx.viol(msg, **d)
            if not ok:
                bad += 1
                if bad >= 3:
                    return True
    ctx.add(states=(na + 1) * (nb + 1), transitions=(na + 1) * (nb + 1), traces=4 * (na + 1) * (nb + 1))
    return True


# ------------------------------------------------------------------ pairs

def pair_atoms(s):
    """(A, B) pairs of one function: everything different between them"""
    n = len(s.args)
    b0 = [s.alphabet(i)[0] for i in range(n)]
    b1 = []
    for i in range(n):
        al = s.alphabet(i)
        b1.append(al[4] if len(al) > 4 else al[-1])
    oc = s.opt_combos()
    kw1 = dict(oc[-1])
    if s.deg:
        b1 = [float(np.radians(v)) if k in api.ANGLES else v for v, k in zip(b1, s.kinds())]
        kw1["deg"] = False
    e1 = (6.4e6, 6.2e6) if s.ell else "none"
    A_ = Atom(s.mod, s.name, tuple(b0), dict(oc[0]))
    B_ = Atom(s.mod, s.name, tuple(b1), kw1)
    out = [("scalar", A_, B_), ("scalar reversed", B_, A_)]
    if s.arr and n:
        ti = [i for i, (nm, k) in enumerate(s.args) if nm in s.nonarr or k == "t"]

        def arr(t, m):
            return tuple(v if i in ti else calls.A(*[v + 0.004 * j * (1 if abs(v) < 1 else abs(v)) for j in range(m)]) for i, v in enumerate(t))
        out.append(("arrays", Atom(s.mod, s.name, arr(b0, 3), dict(oc[0]), tag="[array 3]"), Atom(s.mod, s.name, arr(b1, 3), kw1, e1, tag="[other array 3]")))
    if s.ell:
        out.append(("same arguments, other ellipsoid", A_, Atom(s.mod, s.name, tuple(b0), dict(oc[0]), "mars")))
    if n:
        out.append(("rejected", A_, Atom(s.mod, s.name, ("x",) + tuple(b0[1:]), dict(oc[0]))))
    return out


HEAVY = ("pymap3d.karney",)


LONG = 400      # steps


def self_task(ctx, idx, tier):
    s = calls.all_specs()[idx]
    astro = "force_non_astropy" not in s.opts and "t" in s.kinds()
    if astro:
        warm()
    th = tier == "thorough"
    for kind, a, b in pair_atoms(s):
        if astro and kind not in ("scalar", "arrays"):
            continue
        ra, rb = alone(a), alone(b)
        n = in_fresh(lambda: sched.solo(a.run, "mixed"))[0]
        long = n > LONG and not th
        bound1(ctx, a, b, ra, rb, "shared" if long and kind not in ("scalar", "arrays") else "mixed")
        if not astro and (th or kind == "scalar" or not long and kind in ("arrays", "same arguments, other ellipsoid")):
            bound1(ctx, a, b, ra, rb, "shared" if long else "mixed", cold=True)
        if th and not astro:
            if n < 2000:
                bound1(ctx, a, b, ra, rb, "op")
            if kind in ("scalar", "arrays"):
                if bound2(ctx, a, b, ra, rb, "mixed", cap=20000):
                    ctx.count("pairs_explored_with_two_preemptions")
    ctx.sample({"function": s.key})


def cross_partners():
    K = "pymap3d.karney"
    inv = (40.0, -70.0, 20.0, 10.0)
    return [CLEAR, Atom("pymap3d.ellipsoid", "Ellipsoid.from_name", ("mars",)), Atom(K, "geodesic_inverse", inv), Atom(K, "geodesic_inverse", inv, {}, "mars"),
            Atom(K, "geodesic_inverse", inv, {}, (A84, 6.2e6, "WGS-84 (1984)", "wgs84")), Atom("pymap3d", "geodetic2ecef", (42.0, -82.0, 100.0), {}, (6.4e6, 6.2e6)),
            Atom("pymap3d", "ecef2geodetic", (calls.A(6.4e6, 0.0), calls.A(0.0, 1.0), calls.A(0.0, 6.3e6))),
            Atom("pymap3d.vincenty", "vdist", (calls.A(40.0, 90.0), -70.0, calls.A(20.0, -90.0), 10.0)), Atom("pymap3d.vincenty", "vdist", ("x", 0.0, 0.0, 0.0)),
            Atom("pymap3d", "eci2ecef", (1e7, 2e6, -3e6, api.TIMES[1]), {"force_non_astropy": True, "xp": 0.1}),
            Atom("pymap3d.latitude", "geodetic2conformal", (calls.A(10.0, 90.0),)), Atom("pymap3d", "str2dt", (("list", "2013-01-15T12:00:05", "2000-01-01"),))]


def cross_task(ctx, part, parts, tier):
    th = tier == "thorough"
    partners = cross_partners()
    rp = [alone(b) for b in partners]
    specs = [s for s in api.SPECS]
    for s in specs[part::parts]:
        kinds = {k: (a, b) for k, a, b in pair_atoms(s)}
        for kind in (("scalar", "arrays") if th else ("scalar",)):
            if kind not in kinds:
                continue
            a = kinds[kind][0]
            ra = alone(a)
            m = in_fresh(lambda: sched.solo(a.run, "shared"))[0]
            for b, rb in list(zip(partners, rp))[:None if th or m <= 200 else 1]:
                bound1(ctx, a, b, ra, rb, "mixed" if th else "shared")
    for x in calls.extras()[part::parts]:
        rx = alone(x)
        m = in_fresh(lambda: sched.solo(x.run, "shared"))[0]
        for b, rb in list(zip(partners, rp))[:None if th or m <= 200 else 1]:
            bound1(ctx, x, b, rx, rb, "mixed" if th else "shared")
        n = in_fresh(lambda: sched.solo(x.run, "mixed"))[0]
        bound1(ctx, x, x, rx, rx, "mixed" if th or n <= LONG else "shared", cold=True)


def cache_pairs():
    K, E = "pymap3d.karney", "pymap3d.ellipsoid"
    inv = (40.0, -70.0, 20.0, 10.0)
    G = Atom(K, "geodesic_inverse", inv)
    out = []
    fn = [Atom(E, "Ellipsoid.from_name", ("mars",)), Atom(E, "Ellipsoid.from_name", ("nosuch",)), CLEAR,
          Atom("pymap3d", "geodetic2ecef", (42.0, -82.0, 100.0)), Atom("pymap3d", "geodetic2ecef", (42.0, -82.0, 100.0), {}, "mars"),
          Atom("pymap3d.latitude", "geodetic2rectifying", (42.0,), {}, "mars")]
    for i, a in enumerate(fn):
        for b in fn:
            out.append((a, b))
    return out


class _Probe(Atom):
    """the geodesic solver cache itself: which solver an ellipsoid gets"""
    def __init__(self, ell):
        super().__init__("pymap3d.ellipsoid", "get_cached_geodesic", (), {}, ell, tag="()")

    def run(self):
        import pymap3d.ellipsoid as e
        try:
            g = e.get_cached_geodesic(calls.ell_of(self.ell))
            return calls.canon(g.Inverse(40.0, -70.0, 20.0, 10.0)) if hasattr(g, "Inverse") else calls.canon([repr(type(g))])
        except Exception as x:  # noqa: BLE001
            return ("!exc", type(x).__name__, str(x)[:200])


def cache_task(ctx, part, parts, tier):
    """two preemptions around the caches, every bytecode"""
    grain = "op"
    for a, b in cache_pairs()[part::parts]:
        ra, rb = alone(a), alone(b)
        bound2(ctx, a, b, ra, rb, grain if tier == "thorough" else "mixed", cold=True, cap=2000000 if tier == "thorough" else 12000)
        bound2(ctx, a, b, ra, rb, "mixed", cap=2000000 if tier == "thorough" else 40000)


def geod_task(ctx, which, tier):
    """geodesics against each other and against cache clearing, every bytecode of shared code, as first calls and warm"""
    K = "pymap3d.karney"
    inv = (40.0, -70.0, 20.0, 10.0)
    G = [Atom(K, "geodesic_inverse", inv), Atom(K, "geodesic_inverse", inv, {}, "mars"), Atom(K, "geodesic_direct", (40.0, -70.0, 20.0, 1e6)),
         Atom(K, "geodesic_inverse", (10.0, 0.0, -10.1, 179.8)), Atom(K, "geodesic_line", inv, {"npts": 3}),
         Atom(K, "geodesic_area", (("list", 0.0, 10.0, 20.0), ("list", 0.0, 20.0, 0.0)))]
    a = G[which]
    ra = alone(a)
    th = tier == "thorough"
    for b in [CLEAR] + G[:4]:
        rb = alone(b)
        if th or (which < 4 and b in (CLEAR, G[1], G[3])):
            bound1(ctx, a, b, ra, rb, "op" if th and which < 4 else "mixed")
        else:
            bound1(ctx, a, b, ra, rb, "shared")
        # first calls of a process: the solver is built while the other thread asks for it
        bound1(ctx, a, b, ra, rb, "mixed" if th else "shared", cold=True)


def tasks(tier):
    out = []
    lean = {"_noastro": True, "_lean": True}
    P = 24
    for w in range(6):
        out.append((f"geodesics-{w}", geod_task, {"which": w, "tier": tier, **lean}))
    for p in range(P):
        out.append((f"across-{p}", cross_task, {"part": p, "parts": P, "tier": tier, **lean}))
    for p in range(18):
        out.append((f"caches-{p}", cache_task, {"part": p, "parts": 18, "tier": tier, **lean}))
    specs = calls.all_specs()
    for i, s in enumerate(specs):
        astro = "force_non_astropy" not in s.opts and "t" in s.kinds()
        out.append((f"self-{s.key}-{i}", self_task, {"idx": i, "tier": tier, **({} if astro else lean)}))
    out.sort(key=lambda t: 0 if t[0].startswith("geod") or "karney" in t[0] or "eci" in t[0] else 1)
    return out
