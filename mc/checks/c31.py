"""eci2ecef_state and ecef2eci_state on a lattice of instants x Earth orientation parameters x state vectors: positions must equal the
position transforms bit for bit, velocities the derivative of the transformed straight trajectory, taken from the real position
transforms by a sixth-order stencil at instants whose Julian dates are exact binary fractions (so that the 40 us resolution of a
Julian date does not enter); both directions compose to the identity in every state; arrays of every layout equal scalars;
stationary points; plain-Python, no-Astropy and Astropy installations.
State: (instant, Earth orientation parameters, state vector); transition: one call; trace: one compared state."""
from datetime import datetime, timedelta

import numpy as np

import engine
import lattices as T

Q = 10546875                       # 2**-13 day in microseconds
H = 32 * Q                         # stencil step
OMEGA = 7.292115e-5
DUT = [0.0, -0.334125, 0.87]
EOPS = [dict(delta_ut1=d, xp=x, yp=y) for d in DUT for x, y in ((0.0, 0.0), (0.14, -0.21))]
POS = T.pm(0.0, 6378137.0, 4.2e7)
VEL = T.pm(0.0, 7.5e3, 3.3)


def instants(n):
    """UT1 instants that are exact multiples of 2**-13 day"""
    out = []
    for k in range(n):
        d = datetime(1972, 7, 3) + timedelta(days=int(k * 28000 / n) + (k % 3))
        out.append(d + timedelta(microseconds=Q * ((k * 2711) % 8192)))
    # next to a leap second and to the turn of a day
    out += [datetime(2017, 1, 1), datetime(2016, 12, 31) + timedelta(microseconds=Q * 8191), datetime(2000, 1, 1, 12)]
    return out


def states():
    r = T.grid(POS, POS[:3], POS)
    v = T.grid(VEL, VEL, VEL[:3])
    n = len(r[0])
    m = len(v[0])
    i, j = np.meshgrid(np.arange(0, n, 2), np.arange(0, m, 3), indexing="ij")
    fill = T.kron(400, [(-5e7, 5e7)] * 3 + [(-9e3, 9e3)] * 3)
    return np.array([np.concatenate([c[i.ravel()], x]) for c, x in zip(r, fill)] + [np.concatenate([c[j.ravel()], x]) for c, x in zip(v, fill[3:])])


def call(name, S, t, eop, mode):
    import pymap3d as p
    if mode in ("std", "noastro"):
        r = engine.remote(mode, [("pymap3d", name, tuple(float(c) for c in S[:, i]) + (t,), eop, "none") for i in range(S.shape[1])])
        for x in r:
            if x and x[0] == "!exc":
                raise RuntimeError(f"{x[1]}: {x[2]}")
        return np.array(r, float).T
    kw = dict(eop, force_non_astropy=True) if mode == "force" else eop
    return np.array([np.asarray(c, float) for c in getattr(p, name)(*S.copy(), t, **kw)])


def explore(ctx, mode, n, eops, thin=1, part=(0, 1)):
    S = states()[:, ::thin]
    r, v = S[:3], S[3:]
    sc = np.sqrt((r ** 2).sum(0)) * OMEGA + np.sqrt((v ** 2).sum(0))
    R0 = np.sqrt((r ** 2).sum(0))
    rel, absol = (2.5e-9, 1e-13) if mode != "astropy" else (1e-7, 1e-12)
    for t0 in instants(n)[part[0]::part[1]]:
        for e in eops:
            t = t0 - timedelta(seconds=e["delta_ut1"])
            for pos, name, inv in (("eci2ecef", "eci2ecef_state", "ecef2eci_state"), ("ecef2eci", "ecef2eci_state", "eci2ecef_state")):
                what = f"{name} at {t.isoformat()} {e} [{mode}]"
                try:
                    got = call(name, S, t, e, mode)
                    here = call(pos, r, t, e, mode)
                    back = call(inv, got, t, e, mode)
                    d = 0
                    for k, w in ((1, 45), (2, -9), (3, 1)):
                        for s in (1, -1):
                            dt = s * k * H
                            d = d + s * w * call(pos, r + v * (dt * 1e-6), t + timedelta(microseconds=dt), e, mode)
                    d = d / (60 * H * 1e-6)
                except Exception as x:  # noqa: BLE001
                    ctx.viol(f"{what} raised {type(x).__name__}: {x}")
                    continue
                m = S.shape[1]
                ctx.add(states=m, transitions=9 if mode not in ("std", "noastro") else 9 * m, traces=3 * m)
                q1 = np.abs(got[:3] - here).max(0) / (R0 * (4e-16 if mode != "astropy" else 3e-9) + 1e-300)
                # one part in 1e8 of the velocity, 1e-6 m/s at 1e7 m
                q2 = np.abs(got[3:] - d).max(0) / (rel * sc + absol * R0 + 1e-12)
                q3 = np.maximum(np.abs(back[:3] - r).max(0) / (R0 * (4e-15 if mode != "astropy" else 6e-9) + 1e-300),
                                np.abs(back[3:] - v).max(0) / (sc * (1e-14 if mode != "astropy" else 1e-7) + 1e-300))
                for k, q in (("the position is not that of " + pos, q1), ("the velocity is not the derivative of the position", q2), (f"{inv} does not invert it", q3)):
                    q = np.where(np.isnan(q), np.inf, q)
                    kk = "worst_" + ("position" if q is q1 else "velocity" if "derivative" in k else "inverse" if "invert" in k else "position") + ("_astropy" if mode == "astropy" else "")
                    ctx.extra[kk] = max(ctx.extra.get(kk, 0), round(float(np.where(np.isfinite(q), q, 0).max()), 4))
                    if np.any(q > 1):
                        i = int(np.argmax(q))
                        ctx.viol(f"{what} of {S[:, i].tolist()} = {got[:, i].tolist()}: {k} ({q[i]:.3g} times the tolerance, {int((q > 1).sum())} of {m}); derivative {d[:, i].tolist()}",
                                 time=t.isoformat(), eop=e, state=S[:, i].tolist(), mode=mode)
                        break
    ctx.sample({"call": name, "time": t.isoformat(), "state": S[:, m // 2].tolist(), "result": got[:, m // 2].tolist()})


def layouts(ctx, mode, times, eops):
    """arrays of every layout, one-element arrays and scalars give the same states"""
    import pymap3d as p
    S = states()[:, ::3]
    S = S[:, : S.shape[1] // 2 * 2]
    for t in times:
        for e in eops:
            kw = dict(e, force_non_astropy=True) if mode == "force" else e
            for name in ("eci2ecef_state", "ecef2eci_state"):
                f = getattr(p, name)
                want = call(name, S, t, e, mode)
                for lay, a in (("2-D", [c.reshape(2, -1) for c in S]), ("Fortran", [np.asfortranarray(c.reshape(2, -1)) for c in S]),
                               ("strided", list(np.repeat(S, 2, axis=1)[:, ::2])), ("read-only", [ro(c) for c in S])):
                    g = f(*a, t, **kw)
                    ctx.add(states=S.shape[1], transitions=1, traces=S.shape[1])
                    if any(np.shape(c) != a[0].shape for c in g) or not same(np.array([np.ravel(c) for c in g]), want, mode):
                        ctx.viol(f"{name} of {lay} arrays differs from the flat arrays at {t.isoformat()} {e} [{mode}]")
                sel = range(0, S.shape[1], 7 if mode != "astropy" else 60)
                for lay, conv in (("scalar", float), ("one-element", lambda c: np.array([c])), ("NumPy scalar", np.float64)):
                    for i in sel:
                        g = f(*[conv(c) for c in S[:, i]], t, **kw)
                        ctx.add(states=1, transitions=1, traces=1)
                        if any(np.size(c) != 1 for c in g) or not same(np.array([float(np.asarray(c).reshape(())) for c in g]), want[:, i], mode):
                            ctx.viol(f"{name} of {lay} arguments {S[:, i].tolist()} gives {[float(np.asarray(c).ravel()[0]) for c in g]}, in an array {want[:, i].tolist()}")


def ro(c):
    c = c.copy()
    c.flags.writeable = False
    return c


def same(a, b, mode):
    return np.array_equal(a, b) if mode != "astropy" else bool(np.all(np.abs(a - b) <= 1e-8 * (np.abs(b) + 1)))


def tasks(tier):
    th = tier == "thorough"
    out = [(f"derivative-{k}", explore, {"mode": "force", "n": 240 if th else 16, "eops": EOPS, "thin": 2 if th else 6, "part": (k, 8 if th else 4)})
           for k in range(8 if th else 4)]
    out.append(("derivative-no-numpy", explore, {"mode": "std", "n": 12 if th else 3, "eops": EOPS[1:4:2], "thin": 6 if th else 25}))
    out.append(("derivative-no-astropy", explore, {"mode": "noastro", "n": 12 if th else 3, "eops": EOPS[1:4:2], "thin": 6 if th else 25}))
    out.append(("derivative-no-astropy-in-process", explore, {"mode": "plain", "n": 30 if th else 6, "eops": EOPS, "thin": 6, "_noastro": True}))
    for k in range(4):
        out.append((f"derivative-astropy-{k}", astropy_part, {"n": 40 if th else 8, "part": (k, 4)}))
    ts = instants(8)[:5]
    out.append(("layouts", layouts, {"mode": "force", "times": ts, "eops": EOPS[3:4]}))
    out.append(("layouts-no-astropy", layouts, {"mode": "plain", "times": ts[:2], "eops": EOPS[3:4], "_noastro": True}))
    out.append(("layouts-astropy", layouts, {"mode": "astropy", "times": ts[1:2], "eops": [{"delta_ut1": 0.0}]}))
    return out


def astropy_part(ctx, n, part):
    g = globals()
    old = g["instants"]
    try:
        # elapsed time across a leap second is not the difference of datetimes
        g["instants"] = lambda k: [t for t in old(k) if 1973 <= t.year < 2025 and abs((t - datetime(2017, 1, 1)).total_seconds()) > 7200]
        explore(ctx, "astropy", n, [{"delta_ut1": 0.0}], 6, part)
    finally:
        g["instants"] = old
