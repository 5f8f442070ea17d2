"""Plain-Python (or NumPy-without-Astropy) worker: executes batches of library calls sent over a pipe.

argv: SRC MODE ; MODE is `std` (must have no NumPy) or `noastro` (Astropy hidden)
protocol: 8-byte length + pickle of [(mod, name, args, kwargs, ell), ...] -> same framing of [result, ...]
"""
import os
import pickle
import struct
import sys

sys.dont_write_bytecode = True
SRC, MODE = sys.argv[1], sys.argv[2]
HIDE = {"std": ("numpy", "astropy", "pyproj", "xarray", "pandas"), "noastro": ("astropy", "erfa")}[MODE]


class Block:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in HIDE:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


sys.meta_path.insert(0, Block())
if MODE == "noastro":
    import numpy
    numpy.seterr(all="ignore")
import logging
import warnings

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
sys.pycache_prefix = os.path.join(sys.argv[3], "pycw-" + MODE)
sys.path.insert(0, SRC)
import importlib

import pymap3d

assert os.path.realpath(pymap3d.__file__).startswith(os.path.realpath(SRC) + os.sep)
assert not any(h in sys.modules for h in HIDE), HIDE


def ellipsoid(e):
    if e is None:
        return None
    if isinstance(e, str):
        return pymap3d.Ellipsoid.from_name(e)
    return pymap3d.Ellipsoid(*e)


def plain(r):
    if isinstance(r, (tuple, list)):
        return tuple(plain(x) for x in r)
    if hasattr(r, "tolist"):
        return plain(r.tolist()) if getattr(r, "ndim", 0) else r.item()
    return r


out = os.fdopen(os.dup(1), "wb")
os.dup2(2, 1)
inp = sys.stdin.buffer
cache = {}
while True:
    h = inp.read(8)
    if len(h) < 8:
        break
    calls = pickle.loads(inp.read(struct.unpack("<Q", h)[0]))
    res = []
    for mod, name, args, kwargs, ell in calls:
        key = (mod, name)
        try:
            f = cache.get(key)
            if f is None:
                f = cache[key] = getattr(importlib.import_module(mod), name)
            kw = dict(kwargs)
            if ell != "none":
                kw["ell"] = ellipsoid(ell)
            res.append(plain(f(*args, **kw)))
        except Exception as e:
            res.append(("!exc", type(e).__name__, str(e)[:200]))
    b = pickle.dumps(res)
    out.write(struct.pack("<Q", len(b)) + b)
    out.flush()
