"""Helper run inside the other installations."""
import importlib


def names(mod):
    return list(getattr(importlib.import_module(mod), "__all__", []))


def ellipsoid(a, b):
    from pymap3d import Ellipsoid
    e = Ellipsoid(a, b)
    return [e.semimajor_axis, e.semiminor_axis, e.flattening, e.thirdflattening, e.eccentricity]
