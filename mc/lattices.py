"""Finite input lattices (degrees, metres on an Earth-sized body)."""
from __future__ import annotations

import itertools

import numpy as np


def pm(*v):
    out = []
    for x in v:
        out.append(x)
        if x != 0:
            out.append(-x)
    return out


LAT = np.array(pm(0, 1e-12, 1e-9, 1e-6, 1e-3, 0.5, 5.25, 10, 23.4567, 30, 36.87, 41.999, 42, 44.99999, 45, 45.00001, 52.3,
                  60, 66.6, 75.123, 80, 85, 88, 89, 89.9, 89.99, 89.999, 89.9999, 89.99999, 89.999999, 89.9999999,
                  89.99999999, 89.999999999, 89.9999999999, 90))
LAT_S = np.array(pm(0, 1e-9, 0.5, 23.4567, 42, 45, 66.6, 85, 89.9, 89.999999, 90))
LON = np.array(pm(0, 1e-12, 1e-6, 1e-3, 1, 30.5, 45, 82, 89.999999, 90, 90.000001, 105, 135, 150.1, 179, 179.9999,
                  179.99999999, 180, 180.5, 200, 270, 359.999, 360, 540, 725.5))
LON_S = np.array(pm(0, 1e-6, 45, 82, 90, 135, 179.9999, 180, 200, 359.5))
ALT = np.array([0, 1e-3, -1e-3, 1, -1, 200, -50, 1000, -1000, 8848.86, -1.1e4, 2.5e4])
ALT_FAR = np.array([1e5, -1e5, 4e5, -4e5, 8e5, 1e6, -1e6, -2e6, -3e6, 2.02e7, 3.5786e7, 1e8])


def grid(*axes):
    """full product as a list of columns"""
    m = np.meshgrid(*[np.asarray(a, float) for a in axes], indexing="ij")
    return [x.ravel() for x in m]


def dense(nlat=73, nlon=49, alts=(0.0, 1234.5)):
    return grid(np.linspace(-90, 90, nlat), np.linspace(-180, 180, nlon), alts)


def cols_of(tuples):
    return [np.array(c, float) for c in zip(*tuples)]


def cat(*colsets):
    return [np.concatenate(x) for x in zip(*colsets)]


def product_tuples(*axes):
    return list(itertools.product(*axes))


def ellipsoids(which="all"):
    """catalogue names; custom axis pairs; None = default"""
    import pymap3d
    names = list(pymap3d.Ellipsoid.models)
    if which == "all":
        return [None] + names + CUSTOM
    if which == "some":
        return [None] + [n for n in ("clarke1866", "everest1830", "mars", "moon", "jupiter", "io", "venus") if n in names] + CUSTOM[:2]
    if which == "few":
        return [None] + [n for n in ("mars", "jupiter") if n in names] + CUSTOM[:1]
    if which == "earth":
        return [n for n in names if 6.3e6 < pymap3d.Ellipsoid.models[n]["a"] < 6.5e6]
    raise KeyError(which)


# (semimajor, semiminor): sphere; slightly different from WGS84; Earth-sized, 1/50; strongly oblate
CUSTOM = [(6371000.0, 6371000.0), (6378137.0, 6356000.0), (6.4e6, 6.272e6), (1000.0, 900.0)]


# ------------------------------------------------------------------ rank-1 lattices

PRIMES = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)
SPAN = {"lat": (-90, 90), "lon": (-200, 400), "az": (-200, 400), "head": (-200, 400), "yaw": (-200, 400), "roll": (-200, 400), "pitch": (-180, 180),
        "el": (-90, 90), "alt": ("log", -1e5, 1e8), "x": ("pos",), "y": ("pos",), "z": ("pos",), "e": ("log", -1e8, 1e8), "n": ("log", -1e8, 1e8),
        "u": ("log", -1e8, 1e8), "rng": ("log", 0, 1e9)}


def stretch(u, span):
    """numbers in [0, 1) to a linear range, or to logarithmic ones on both sides of zero, from 1 cm"""
    if span[0] == "log":
        lo, hi = span[1:]
        if lo == 0:
            return 10 ** (-2 + u * (np.log10(hi) + 2))
        neg = u < 0.5
        w = np.where(neg, 2 * u, 2 * u - 1)
        return np.where(neg, -(10 ** (-2 + w * (np.log10(-lo) + 2))), 10 ** (-2 + w * (np.log10(hi) + 2)))
    if span[0] == "pos":
        # coordinates of points near an Earth-sized body and far away
        w = (u * 4) % 1
        return np.where(u < 0.75, -8.5e6 + 1.7e7 * ((u * 4 / 3) % 1), np.where(w < 0.5, -1, 1) * 10 ** (-2 + 11 * ((2 * w) % 1)))
    return span[0] + u * (span[1] - span[0])


def kron(n, spans, shift=0):
    """a rank-1 lattice: n points which fill the whole space of all arguments, each argument evenly"""
    i = np.arange(1, n + 1, dtype=float)
    return [stretch((i * np.sqrt(PRIMES[(j + shift) % len(PRIMES)]) + 0.1 * j) % 1.0, SPAN[s] if isinstance(s, str) else s) for j, s in enumerate(spans)]
