"""Exhaustive deviation-bounded exploration of all body-frame functions and options plus the full product of attitudes
(gimbal lock and multiple turns included), every call mode, against Rx(roll)Ry(pitch)Rz(yaw) relative to NED in extended
precision; orthonormality and determinant checked in every attitude."""
import numpy as np

import lattices as T
from api import spec
from checks import common as C

FR = ("ned", "enu", "sez", "nwu")
MATS = ["body_matrix"] + [f"{f}2body_matrix" for f in FR] + [f"body2{f}_matrix" for f in FR]
VEC = [f"{f}2body" for f in FR] + [f"body2{f}" for f in FR]
FULL = ["ecef2body", "body2ecef", "ecef2bodyv", "body2ecefv", "geodetic2body", "body2geodetic"]
ANG = np.array([0.0, 30.0, 90.0, 120.0, 180.0, 225.0, 270.0, 359.9, -45.0, -90.0, -180.0, 400.5, -725.25, 1e-9])
PIT = np.array([0.0, 10.0, 90.0, -90.0, -35.5, 89.99999, 100.25, 180.0, -1e-9, 45.0])


def matrices(ctx, name, fine):
    a, p = (ANG, PIT) if not fine else (np.linspace(-360, 360, 49), np.linspace(-180, 180, 37))
    cols = T.grid(a, p, a)
    s = spec(name)
    C.cols_task(ctx, name, cols, [None], ("arr", "rad", "2d"))
    C.cols_task(ctx, name, [c[::1 if not fine else 29] for c in cols], [None], ("py", "stdrad"))
    for deg in (True, False):
        m = s.fn()(*[c.copy() if deg else np.radians(c) for c in cols], deg=deg)
        m = np.array([[np.broadcast_to(x, cols[0].shape) for x in row] for row in m])
        d = np.abs(np.einsum("ikn,jkn->ijn", m, m) - np.eye(3)[:, :, None]).max()
        det = (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
               + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))
        ctx.add(transitions=1, traces=len(cols[0]))
        if not max(d, np.abs(det - 1).max()) < 1e-14:
            ctx.viol(f"{name} deg={deg}: not a proper rotation")


def vectors(ctx, name, fine):
    v = T.grid([0.0, 1.0, -3.5, 1e-6], [0.0, 2.0, -7e5], [0.0, -1.0, 4e8])
    a = ANG if fine else ANG[::2]
    C.cols_task(ctx, name, C.product(v, T.grid(a, PIT if fine else PIT[::2], a)), [None], ("arr", "rad"))


def tasks(tier):
    th = tier == "thorough"
    out = [(f"matrix-{n}", matrices, {"name": n, "fine": False}) for n in MATS]
    out += [(f"vector-{n}", vectors, {"name": n, "fine": th}) for n in VEC]
    if th:
        out += [(f"fine-{n}", matrices, {"name": n, "fine": True}) for n in MATS]
    return out + C.family(MATS + VEC + FULL, tier)
