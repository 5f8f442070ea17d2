"""Evaluate library functions in several call modes and compare with the reference model."""
from __future__ import annotations

import os
import pickle
import struct
import subprocess

import numpy as np

import api
import harness
import refmodel as R

L = R.L
EPS = R.EPS
STDPY = "/opt/venv-stdlib/bin/python"
MAINPY = "/opt/venv/bin/python"

_workers = {}


class WorkerError(RuntimeError):
    pass


def worker(mode):
    key = (mode, os.getpid())
    if key not in _workers:
        py = STDPY if mode == "std" and os.path.exists(STDPY) else MAINPY
        env = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": "0", "TZ": "UTC", "OMP_NUM_THREADS": "1",
               "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"}
        _workers[key] = subprocess.Popen(
            [py, "-B", os.path.join(harness.HERE, "worker.py"), harness.SRC, mode, harness.scratch()],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
    return _workers[key]


def remote(mode, calls):
    """run calls [(mod, name, args, kwargs, ell)] in the other installation; ell 'none' = do not pass"""
    w = worker(mode)
    b = pickle.dumps(calls)
    try:
        w.stdin.write(struct.pack("<Q", len(b)) + b)
        w.stdin.flush()
        h = w.stdout.read(8)
        if len(h) < 8:
            raise BrokenPipeError
        return pickle.loads(w.stdout.read(struct.unpack("<Q", h)[0]))
    except BrokenPipeError:
        raise WorkerError(f"the {mode} installation of the library does not load or died") from None


_ells = {}


def ellipsoid(e):
    """library ellipsoid for a name, an (a, b) pair, or None"""
    import pymap3d
    if e is None:
        return None
    if isinstance(e, str):
        return pymap3d.Ellipsoid.from_name(e)
    return pymap3d.Ellipsoid(*e)


def el_axes(e):
    import pymap3d
    if e is None:
        e = "wgs84"
    if isinstance(e, str):
        m = pymap3d.Ellipsoid.models[e]
        return m["a"], m["b"]
    return e[0], e[1]


def el_ref(e):
    return R.El(*el_axes(e))


def flat(r, n_out):
    """flatten a library result (tuple / nested matrix / scalar) to a list"""
    if isinstance(r, (tuple, list)) and r and isinstance(r[0], (tuple, list)):
        return [x for row in r for x in row]
    if isinstance(r, (tuple, list)):
        return list(r)
    return [r]


def nouts(spec):
    return 9 if spec.outs == ["mat"] else len(spec.outs)


def out_kinds(spec):
    return ["unit"] * 9 if spec.outs == ["mat"] else spec.outs


class Bad(Exception):
    pass


def evaluate(spec, cols, ell, opts, mode):
    """cols: list of float64 arrays (degrees).  Returns (ref_args, raw_outs, outs):
    ref_args: longdouble columns, angles in radians exactly as the library received them
    raw_outs: float64 result columns as returned (units of the call)
    outs: longdouble result columns, angles in radians"""
    ang = [k in api.ANGLES for _, k in spec.args]
    radm = mode in ("rad", "pyrad", "stdrad", "2drad")
    if radm and not spec.deg:
        return None
    N = len(cols[0])
    given = [np.radians(c) if (a and radm) else np.asarray(c, float) for c, a in zip(cols, ang)]
    # functions without deg flag but with angle kinds take degrees always
    ref_args = [(R.ld(g) if radm else R.rad(g)) if a else R.ld(g) for g, a in zip(given, ang)]
    kw = dict(opts)
    if spec.deg and radm:
        kw["deg"] = False
    n = nouts(spec)
    if mode in ("arr", "rad", "2d", "2drad"):
        if spec.ell:
            kw["ell"] = ellipsoid(ell)
        if mode in ("2d", "2drad"):
            shp = (2, N // 2) if N % 2 == 0 and N > 2 else (1, N)
            r = flat(spec.fn()(*[g.reshape(shp).copy() for g in given], **kw), n)
        else:
            shp = None
            r = flat(spec.fn()(*[g.copy() for g in given], **kw), n)
        if len(r) != n:
            raise Bad(f"{spec.key} returned {len(r)} values instead of {n}")
        raw = []
        for x in r:
            x = np.asarray(x, dtype=float)
            if x.size == 1 and N > 1:
                x = np.broadcast_to(x.reshape(()), (N,))
            if x.size != N:
                raise Bad(f"{spec.key} returned shape {x.shape} for input shape {shp or (N,)}")
            raw.append(x.ravel())
    else:
        rows = list(zip(*[g.tolist() for g in given]))
        if mode in ("py", "pyrad", "np0"):
            if spec.ell:
                kw["ell"] = ellipsoid(ell)
            f = spec.fn()
            if mode == "np0":
                rows = list(zip(*given))
            res = [flat(f(*row, **kw), n) for row in rows]
        else:
            got = remote("std" if mode in ("std", "stdrad") else mode,
                         [(spec.mod, spec.name, row, kw, ell if spec.ell else "none") for row in rows])
            res = []
            for row, g in zip(rows, got):
                if isinstance(g, tuple) and g and g[0] == "!exc":
                    raise Bad(f"{spec.key}{row} raised {g[1]}: {g[2]} in the {mode} installation")
                res.append(flat(g, n))
        a = np.array([[float(np.asarray(v).reshape(())) for v in x] for x in res], dtype=float)
        if a.shape != (N, n):
            raise Bad(f"{spec.key} returned {a.shape[1:]} values instead of {n}")
        raw = [a[:, i] for i in range(n)]
    ks = out_kinds(spec)
    outs = [(R.ld(x) if radm else R.rad(x)) if k in api.ANGLES else R.ld(x) for x, k in zip(raw, ks)]
    return ref_args, raw, outs


# ------------------------------------------------------------------ comparators: return (error/tolerance) arrays

def _nanbad(q):
    q = np.asarray(q, dtype=float)
    return np.where(np.isnan(q), np.inf, q)


def ratio_vec(outs, ref, tol):
    return _nanbad(R.dist3(outs, ref) / tol)


def ratio_list(outs, ref, tols):
    q = np.zeros(len(np.atleast_1d(outs[0])))
    for o, r, t in zip(outs, ref, tols):
        q = np.maximum(q, _nanbad(np.abs(o - r) / t))
    return q


def ratio_geo(raw, outs, xyz, el, tol, radm, prob=None):
    """(ratio to exact, ratio to the one-correction closed form)"""
    lat, lon, alt = outs
    lim = np.pi / 2 if radm else 90.0
    lim2 = np.pi if radm else 180.0
    bad = ~(np.abs(raw[0]) <= lim * (1 + 2 * EPS)) | ~(np.abs(raw[1]) <= lim2 * (1 + 2 * EPS)) | ~np.isfinite(raw[2])
    got = R.geodetic2ecef(lat, lon, alt, el)
    xyz = [np.broadcast_to(R.ld(c), lat.shape) for c in xyz]
    tol = np.broadcast_to(np.asarray(tol, float), lat.shape)
    # geodetic coordinates are unique above the evolute: alt > -b^2/a
    bad |= ~(alt > -el.b ** 2 / el.a)
    q = np.where(bad, np.inf, _nanbad(R.dist3(got, xyz) / tol))
    qy = q.copy()
    i = np.flatnonzero(~(q <= 1))
    if i.size:
        pt = [c[i] for c in xyz]
        you = R.you_one_step(*pt, el)
        w = np.maximum(_nanbad(R.dist3([c[i] for c in got], R.geodetic2ecef(*you, el)) / tol[i]),
                       _nanbad(np.abs(alt[i] - you[2]) / tol[i]))
        qy[i] = np.where(bad[i], np.inf, w)
    return q, qy


def ratio_aer(raw, outs, enu, tol, radm, trim=1e-3):
    """line of sight: components below 1 mm may be taken as zero"""
    az, el, rng = outs
    full = 2 * np.pi if radm else 360.0
    half = np.pi / 2 if radm else 90.0
    # a full turn is only right as the rounded value of an azimuth just short of it
    edge = np.asarray((R.ld(enu[0]) < 0) & (R.ld(enu[1]) > 0) & (-R.ld(enu[0]) < 1e-13 * R.ld(enu[1])), bool)
    bad = ~((raw[0] >= 0) & ((raw[0] < full) | (edge & (raw[0] == full)))) | ~(np.abs(raw[1]) <= half * (1 + 2 * EPS)) | ~(raw[2] >= 0)
    got = R.aer2enu(az, el, rng)
    ref = [R.ld(v) for v in enu]
    t = [np.where(np.abs(v) < trim + tol, trim, 0.0) for v in ref]
    q = np.zeros(len(raw[0]))
    # each trimmed component may be off by its own size, the others only by rounding
    for g, r, tt in zip(got, ref, t):
        allow = np.where(tt > 0, np.abs(r) * (1 + 1e-9) + tol, tol)
        q = np.maximum(q, _nanbad(np.abs(g - r) / allow))
    # azimuth of vertical or zero lines of sight is 0
    return np.where(bad, np.inf, q)


def run_value(ctx, spec, cols, ells, modes, oracle, *, opts=None, scalar_stride=1, label=""):
    """enumerate ellipsoids x options x modes over the lattice `cols` and compare with the oracle

    oracle(ref_args, el, opts) -> dict(kind, ref, tol)"""
    opts = opts if opts is not None else spec.opt_combos()
    N = len(cols[0])
    uniq = len(np.unique(np.column_stack(cols), axis=0)) if N < 200000 else N
    for ell in (ells if spec.ell else [None]):
        el = el_ref(ell)
        sc = float(el.a) / api.A0 if spec.ell else 1.0
        ecols = [c * sc if k in api.LENGTHS else c for c, (_, k) in zip(cols, spec.args)]
        ctx.add(states=uniq * len(opts))
        for o in opts:
            for mode in modes:
                st = 1 if mode in ("arr", "rad", "2d", "2drad") else scalar_stride
                mcols = [c[::st] for c in ecols]
                if mode in ("std", "stdrad") and not spec.std:
                    continue
                try:
                    ev = evaluate(spec, mcols, ell, o, mode)
                except Exception as e:  # noqa: BLE001
                    ctx.viol(f"{spec.key} ell={ell} {o} mode={mode}: {type(e).__name__}: {e}", mode=mode, ell=ell)
                    continue
                if ev is None:
                    continue
                ref_args, raw, outs = ev
                n = len(mcols[0])
                ctx.add(transitions=1 if mode in ("arr", "rad", "2d", "2drad") else n, traces=n)
                c = oracle(ref_args, el, o)
                judge(ctx, spec, ell, o, mode, mcols, raw, outs, c, el, label)


def judge(ctx, spec, ell, o, mode, mcols, raw, outs, c, el, label=""):
    radm = mode in ("rad", "pyrad", "stdrad", "2drad")
    known = None
    k = c["kind"]
    if k == "vec":
        q = ratio_vec(outs, c["ref"], c["tol"])
    elif k == "list":
        q = ratio_list(outs, c["ref"], c["tol"])
    elif k == "geo":
        q, qy = ratio_geo(raw, outs, c["ref"], el, c["tol"], radm)
        known = (q > 1) & (qy <= 1)
    elif k == "aer":
        q = ratio_aer(raw, outs, c["ref"], c["tol"], radm)
    elif k == "fn2":
        q, qy = c["fn"](raw, outs, radm)
        q, qy = _nanbad(q), _nanbad(qy)
        known = (q > 1) & (qy <= 1)
    elif k == "fn":
        q = _nanbad(c["fn"](raw, outs, radm))
    else:
        raise AssertionError(k)
    if "skip" in c:
        q = np.where(c["skip"], 0, q)
    key = "worst_ratio"
    fin = q[np.isfinite(q)] if known is None else q[np.isfinite(q) & ~known]
    if fin.size:
        ctx.extra[key] = max(ctx.extra.get(key, 0), round(float(fin.max()), 4))
    bad = q > 1
    if known is not None and np.any(known):
        ctx.extra["worst_known_ratio"] = max(ctx.extra.get("worst_known_ratio", 0), round(float(qy[known].max()), 4))
        ctx.know("KF1", f"{spec.key} ell={ell}: single-correction closed form")
        ctx.known["KF1"]["n"] += int(known.sum()) - 1
        bad &= ~known
    if np.any(bad):
        idx = np.flatnonzero(bad)
        i = int(idx[np.argmax(np.where(np.isfinite(q[idx]), q[idx], 1e300))])
        args = [float(m[i]) for m in mcols]
        ref = c.get("ref")
        ctx.viol(f"{spec.key}({', '.join(repr(a) for a in args)}) ell={ell} {o or ''} mode={mode} {label}: returned "
                 f"{[float(r[i]) for r in raw]}, error {float(q[i]):.3g} times the tolerance ({len(idx)} of {len(q)} elements)",
                 function=spec.key, args=args, ell=ell, opts=o, mode=mode,
                 result=[float(r[i]) for r in raw],
                 reference=None if ref is None else [float(np.broadcast_to(np.asarray(r), q.shape)[i]) for r in ref])
    if len(ctx.samples) < 2:
        j = len(mcols[0]) // 3
        ctx.sample({"call": spec.key, "args": [float(m[j]) for m in mcols], "ell": ell, "mode": mode,
                    "result": [float(r[j]) for r in raw]})
