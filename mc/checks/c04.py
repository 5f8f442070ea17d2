"""Exhaustive deviation-bounded and full-product exploration of the frame rotation matrices and of the vector conversions, with
orthonormality, determinant and transpose invariants checked in every state, against the physical east/north/up axes."""
import numpy as np

import engine
import lattices as T
import refmodel as R
from api import spec
from checks import common as C

FR = ("enu", "ned", "nwu", "sez")
MATS = [f"ecef2{f}_matrix" for f in FR] + [f"{f}2ecef_matrix" for f in FR]
VEC = ["ecef2enuv", "ecef2nedv", "ecef2nwuv", "ecef2sezv", "enu2ecefv", "nwu2ecefv", "sez2ecefv", "enu2uvw", "uvw2enu"]
V = np.array([0.0, 1.0, -2.5, 1e-6, -7.0e8])


def matrices(ctx, name, dense):
    cols = T.grid(T.LAT, T.LON)
    if dense:
        cols = T.cat(cols, T.grid(np.linspace(-90, 90, 181), np.linspace(-360, 360, 241)))
    s = spec(name)
    C.cols_task(ctx, name, cols, [None], ("arr", "rad", "2d"))
    C.cols_task(ctx, name, T.grid(T.LAT_S, T.LON_S), [None], C.SC_MODES + ("np0",))
    for deg in (True, False):
        f = s.fn()
        m = f(*[c.copy() if deg else np.radians(c) for c in cols], deg=deg)
        m = np.array([[np.broadcast_to(x, cols[0].shape) for x in row] for row in m])
        I = np.einsum("ikn,jkn->ijn", m, m) - np.eye(3)[:, :, None]
        det = (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
               + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))
        w = max(np.abs(I).max(), np.abs(det - 1).max())
        ctx.add(transitions=1, traces=m.shape[2])
        if not w < 1e-14:
            ctx.viol(f"{name} deg={deg}: not a proper rotation, defect {w}")
        a, b = name.replace("_matrix", "").split("2")
        t = spec(f"{b}2{a}_matrix").fn()(*[c.copy() if deg else np.radians(c) for c in cols], deg=deg)
        t = np.array([[np.broadcast_to(x, cols[0].shape) for x in row] for row in t])
        if not np.abs(t.transpose(1, 0, 2) - m).max() < 1e-15:
            ctx.viol(f"{name} deg={deg}: the two directions are not transposes")


def vectors(ctx, name, th):
    s = spec(name)
    obs = T.grid(T.LAT if th else T.LAT_S, T.LON if th else T.LON_S)
    vec = T.grid(V, V, V)
    cols = C.product(vec, obs)
    C.cols_task(ctx, name, cols, [None], ("arr", "rad", "2d"))
    C.cols_task(ctx, name, C.product(T.grid(V[:4], V[1:4], V[:3]), T.grid(T.LAT_S[::2], T.LON_S[::2])) if not th else cols, [None],
                ("py", "stdrad"))
    # sizes
    for n in (1, 2, 3, 5, 17, 64, 65, 255, 256, 1000):
        C.cols_task(ctx, name, [c[:n] for c in cols], [None], ("arr",))


def tasks(tier):
    th = tier == "thorough"
    out = [(f"matrix-{n}", matrices, {"name": n, "dense": th}) for n in MATS]
    out += [(f"vector-{n}", vectors, {"name": n, "th": th}) for n in VEC]
    return out + C.family(VEC, tier)
