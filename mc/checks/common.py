"""Shared task builders."""
import numpy as np

import engine
import lattices as T
import oracles
from api import spec

ARR_MODES = ("arr", "rad", "2d")
SC_MODES = ("py", "pyrad", "std", "stdrad")


def chunks(seq, k):
    seq = list(seq)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def tuples_task(ctx, name, d, ells, modes, opts=None, stride=1):
    s = spec(name)
    engine.run_value(ctx, s, T.cols_of(s.tuples(d)), ells, modes, oracles.oracle(s.name), opts=opts, scalar_stride=stride)


def cols_task(ctx, name, cols, ells, modes, opts=None):
    s = spec(name)
    engine.run_value(ctx, s, cols, ells, modes, oracles.oracle(s.name), opts=opts)


def fill(ctx, name, n, ells, modes, shift=0, stride=1):
    """a lattice filling the whole space of all arguments"""
    s = spec(name)
    kinds = [k for _, k in s.args]
    engine.run_value(ctx, s, T.kron(n, kinds, shift), ells, modes, oracles.oracle(s.name), scalar_stride=stride)


def family(names, tier, ells=True):
    """deviation-bounded argument tuples for each function"""
    th = tier == "thorough"
    out = []
    for n in names:
        s = spec(n)
        big = len(s.args) >= 8
        el = T.ellipsoids("all") if s.ell else [None]
        d = 2
        if not big:
            out.append((f"{n}-all", tuples_task, {"name": n, "d": d, "ells": el, "modes": ("arr", "rad")}))
        else:
            out.append((f"{n}-all", tuples_task, {"name": n, "d": 2 if th else 1, "ells": el, "modes": ("arr", "rad")}))
            for o in s.opt_combos():
                out.append((f"{n}-arr-{list(o.values())}", tuples_task,
                            {"name": n, "d": 2, "ells": [None, "mars"] if s.ell else [None], "modes": ARR_MODES, "opts": [o]}))
        for e in ([None, "jupiter"] if s.ell else [None]):
            out.append((f"{n}-scalar-{e}", tuples_task,
                        {"name": n, "d": 2 if (th or not big) else 1, "ells": [e], "modes": SC_MODES + (("2d", "2drad", "np0") if not big else ())}))
        if all(k in T.SPAN for _, k in s.args):
            for e in ([None, "mars"] if s.ell else [None]):
                out.append((f"{n}-fill-{e}", fill, {"name": n, "n": 40000 if th else 3000, "ells": [e], "modes": ("arr", "rad"), "shift": 0 if e is None else 1}))
            out.append((f"{n}-fill-scalars", fill, {"name": n, "n": 4000 if th else 400, "ells": [None], "modes": SC_MODES, "shift": 2}))
        if th:
            for o in s.opt_combos():
                for e in (T.ellipsoids("some") if s.ell else [None]):
                    out.append((f"{n}-3-{e}-{list(o.values())}", tuples_task,
                                {"name": n, "d": 3, "ells": [e], "modes": ("arr", "rad"), "opts": [o]}))
            for e in ([None, "mars", (1000.0, 900.0)] if s.ell else [None]):
                out.append((f"{n}-3s-{e}", tuples_task, {"name": n, "d": 2 if big else 3, "ells": [e], "modes": SC_MODES,
                                                        "stride": 1 if len(s.args) < 6 else 3}))
    return out


# ------------------------------------------------------------------ geometric products

OBS_LAT = np.array([0.0, -90.0, 90.0, 42.0, -33.5, 60.25, -75.0, 89.9999, -1e-9, 12.5, -45.0, 85.0])
OBS_LON = np.array([0.0, -82.0, 180.0, -180.0, 90.0, 13.7, -135.0, 179.99999, 359.0, 250.0])
OBS_H = np.array([0.0, 200.0, -400.0, 9000.0])
AZ = np.array([0.0, 33.0, 45.0, 90.0, 120.0, 180.0, 200.0, 270.0, 300.0, 359.9, -10.0, 725.0])
ELV = np.array([-90.0, -45.0, -10.0, 0.0, 1e-6, 30.0, 60.0, 89.0, 90.0])
RNG = np.array([0.0, 5e-4, 2e-3, 0.5, 1000.0, 2.5e5, 8.0e6, 4.2e7, 1.0e9])


def obs(k):
    """observer lattice, thinned by index modulo for k>1 (covers every value of each axis)"""
    g = T.grid(OBS_LAT, OBS_LON, OBS_H)
    n = len(g[0])
    i = np.arange(n)
    return [c[(i * 7) % n][: n // k] for c in g]


NEAR = [1e-6, 1e-4, 1.7e-3, 6e-3, 0.02, 0.11, 3.0, 40.0]


def disp(k, rng=None):
    g = T.grid(AZ, ELV, RNG if rng is None else np.array(rng))
    n = len(g[0])
    i = (np.arange(n) * 11) % n
    return [c[i][: n // k] for c in g]


def product(*colsets):
    """every combination of rows of the column sets"""
    n = 1
    for c in colsets:
        n *= len(c[0])
    out = []
    rep = n
    til = 1
    for c in colsets:
        rep //= len(c[0])
        for x in c:
            out.append(np.tile(np.repeat(x, rep), til))
        til *= len(c[0])
    return out
