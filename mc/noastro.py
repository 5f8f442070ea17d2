"""Runs one task of a check in an interpreter without Astropy (started by harness._child)."""
import os
import pickle
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib  # noqa: E402

import harness  # noqa: E402

mod, name, kw, prop, tier, seed, label, path = pickle.load(open(sys.argv[1], "rb"))
try:
    harness.load_library()
    assert "astropy" not in sys.modules
    fn = getattr(importlib.import_module(mod), name)
except Exception as e:  # noqa: BLE001
    err = f"{type(e).__name__}: {e}"

    def fn(ctx, **k):
        ctx.viol("the library cannot be loaded without Astropy: " + err)
harness._child(fn, kw, prop, tier, seed, label, path)
