#!/usr/bin/env python3
"""Nothing is compiled: verify that the interpreters, packages and the library in /repo are usable, and the reference model sane."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
CODE = r'''
import sys
sys.path.insert(0, %r)
import harness
p = harness.load_library()
import numpy as np, pyproj, erfa
import refmodel as R
el = R.El(6378137.0, 6356752.314245179)
g = R.geodetic2ecef(R.rad(42.0), R.rad(-82.0), R.ld(200.0), el)
b = R.ecef2geodetic(*g, el)
assert abs(float(R.deg(b[0])) - 42) < 1e-12 and abs(float(b[2]) - 200) < 1e-8
assert np.finfo(np.longdouble).eps < 1e-18, "80-bit extended precision needed"
d = pyproj.Geod(a=6378137.0, b=6356752.314245179).inv(0, 0, 1, 0)[2]
assert abs(d - 111319.490793) < 1e-5
print("library", p.__file__)
''' % HERE
py = "/opt/venv/bin/python"
env = {"PATH": os.environ.get("PATH", ""), "MC_CHILD": "1", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "HOME": os.environ.get("HOME", "/root")}
rc = subprocess.call([py if os.path.exists(py) else sys.executable, "-B", "-c", CODE], env=env)
std = "/opt/venv-stdlib/bin/python"
rc |= subprocess.call([std if os.path.exists(std) else sys.executable, "-B", "-c", "import sys; print(sys.version)"], env=env)
os.makedirs(os.path.join(os.path.dirname(HERE), "evidence"), exist_ok=True)
sys.exit(rc)
