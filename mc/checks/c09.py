"""For every array-capable public function: exhaustive exploration of argument tuples (every pair of special values), memory
layouts and shapes (sizes 1..40 and larger, 0-d, 1-D, 2-D, 3-D, Fortran order, strided, reversed, read-only), number types (signed and
unsigned integers of 8 to 64 bits, both byte orders, single and extended precision, as arrays and scalars), broadcasting
patterns (subsets of the arguments as arrays, the others as plain floats, in degrees and in radians; rows against columns; 0-d and empty arrays) and positions of an exceptional element (NaN or each special value of each
argument at each position), differentially against one scalar call per element.
State: (function, options, layout, arguments); transition: one array call; trace: one element compared with its scalar call."""
import itertools
import math

import numpy as np

import api
import engine
import lattices as T
from api import spec
from checks import common as C

NAMES = [s.key for s in api.SPECS if s.arr and s.args] + ["eci2geodetic", "geodetic2eci", "eci2aer", "aer2eci"]
# these assert that all coordinates have one shape: mixing may raise, but must not return wrong values
SAMESHAPE = {"eci2ecef", "ecef2eci", "eci2ecef_state", "ecef2eci_state", "eci2geodetic", "geodetic2eci", "eci2aer", "aer2eci"}


def kinds_of(s):
    return [k for _, k in s.args]


def scale_rows(s, ell, rows):
    el = engine.el_ref(ell)
    sc = float(el.a) / api.A0 if s.ell else 1.0
    ks = kinds_of(s)
    return [tuple(v * sc if k in api.LENGTHS else v for v, k in zip(t, ks)) for t in rows], el


ILL = {"lox.loxodrome_inverse": 1e-9, "lox.loxodrome_direct": 1e-9, "vincenty.vdist": 1e-9, "rsphere.euler": 1e-9, "los.lookAtSpheroid": 1e-9,
       "haversine.anglesep_meeus": 1e-8, "haversine.anglesep": 1e-8, "nvector2geodetic": 1e-8, "spherical2geodetic": 1e-8,
       "geodetic2spherical": 1e-8, "ecef2nvector": 1e-10, "azel2radec": 1e-8, "radec2azel": 1e-8, "nvector_cross_track_distance": 1e-10,
       "latitude.geodetic2conformal": 1e-7, "nvector2ecef": 1e-8}


def tolerance(s):
    return ILL.get(s.key, 1e-12)


def compare(s, kinds, got, ref, scale, radians=False):
    """got/ref: columns; returns error/tolerance"""
    t = tolerance(s)
    q = np.zeros(np.shape(ref[0]))
    lat = [np.radians(r) for k, r in zip(kinds, ref) if k == "lat"]
    for i, (k, g, r) in enumerate(zip(kinds, got, ref)):
        g = np.asarray(g, float)
        with np.errstate(all="ignore"):
            e = np.abs(g - r)
            e = np.where((g == r), 0, e)
            if k in api.ANGLES or k == "uang":
                full = 360.0 if k in api.ANGLES else 2 * np.pi
                e = np.minimum(e, np.abs(full - e))
                if k in ("lon", "az") and lat:
                    e = e * np.abs(np.cos(lat[0]))
                tol = t * full
            elif k in ("unit", "u1", "u2", "u3"):
                tol = max(t, 1e-15)
            else:
                tol = t * (np.abs(r) + scale)
            v = e / tol
        v = np.where(np.isnan(g) & np.isnan(r), 0, np.where(np.isnan(v), np.inf, v))
        q = np.maximum(q, v)
    return q


def outs(r, shape, n):
    """columns of a result; every array result must have the input's shape, or be a scalar that stands for all"""
    cols, bad = [], None
    for x in engine.flat(r, n):
        x = np.asarray(x, float)
        if x.shape != shape and not (x.ndim == 0) and not (x.size == 1 and int(np.prod(shape)) == 1):
            bad = f"shape {x.shape} instead of {shape}"
            return cols, bad
        cols.append(np.broadcast_to(x, shape) if x.ndim == 0 else x.reshape(shape))
    return cols, bad


def call(ctx, s, args, kw, what):
    try:
        return s.fn()(*args, **kw)
    except Exception as e:  # noqa: BLE001
        ctx.viol(f"{s.key} {what}: {type(e).__name__}: {e}")
        return None


def setup(s, ell, o, rows):
    kw = dict(o)
    if s.ell:
        kw["ell"] = engine.ellipsoid(ell)
    f = s.fn()
    n = engine.nouts(s)
    if not rows:
        return kw, n, None
    ref = np.array([[float(np.asarray(v).reshape(())) for v in engine.flat(f(*r, **kw), n)] for r in rows])
    return kw, n, [ref[:, i] for i in range(ref.shape[1])]


def columns(s, rows):
    return [np.array([r[i] for r in rows], float) if nm not in s.nonarr else None for i, (nm, _) in enumerate(s.args)]


def valid_rows(s, rows):
    """the nonarr arguments are held at their base value"""
    base = [s.alphabet(i)[0] for i in range(len(s.args))]
    return [r for r in rows if all(r[i] is base[i] or r[i] == base[i] for i, (nm, _) in enumerate(s.args) if nm in s.nonarr)]


def layouts(ctx, name, d, ells, few=False):
    s = spec(name)
    ks = kinds_of(s)
    ko = engine.out_kinds(s)
    base = [s.alphabet(i)[0] for i in range(len(s.args))]
    for ell in (ells if s.ell else [None]):
        rows, el = scale_rows(s, ell, valid_rows(s, s.tuples(d)))
        if len(rows) % 2:
            rows.append(rows[0])
        scale = float(el.a) if s.ell else 1.0
        for o in s.opt_combos()[:: (3 if few else 1)]:
            kw, n, ref = setup(s, ell, o, rows)
            cols = columns(s, rows)
            N = len(rows)

            def build(fn):
                return [fn(c) if c is not None else base[i] for i, c in enumerate(cols)]

            def ro(c):
                c = c.copy()
                c.flags.writeable = False
                return c

            lay = {
                "1-D": (build(lambda c: c.copy()), (N,), lambda r: r),
                "read-only": (build(ro), (N,), lambda r: r),
                "2-D": (build(lambda c: c.reshape(2, -1).copy()), (2, N // 2), lambda r: r.reshape(2, -1)),
                "column": (build(lambda c: c.reshape(-1, 1).copy()), (N, 1), lambda r: r.reshape(-1, 1)),
                "Fortran": (build(lambda c: np.asfortranarray(c.reshape(2, -1))), (2, N // 2), lambda r: r.reshape(2, -1)),
                "3-D": (build(lambda c: c.reshape(1, 2, -1).copy()), (1, 2, N // 2), lambda r: r.reshape(1, 2, -1)),
                "strided": (build(lambda c: np.repeat(c, 2)[::2]), (N,), lambda r: r),
                "reversed": (build(lambda c: c.copy()[::-1]), (N,), lambda r: r[::-1]),
                "transposed": (build(lambda c: c.reshape(-1, 2).copy().T), (2, N // 2), lambda r: r.reshape(-1, 2).T),
            }
            ctx.add(states=N * len(lay))
            for w, (args, shape, view) in lay.items():
                r = call(ctx, s, args, kw, f"{o} ell={ell} layout {w}")
                if r is None:
                    continue
                got, bad = outs(r, shape, n)
                ctx.add(transitions=1, traces=N)
                if bad or len(got) != len(ko):
                    ctx.viol(f"{name} {o} layout {w}: {bad or 'number of results'}")
                    continue
                q = compare(s, ko, got, [view(c) for c in ref], scale)
                report(ctx, name, o, ell, f"layout {w}", q, [view(np.array([r_[i] for r_ in rows], dtype=object)) for i in range(len(ks))], got,
                       [view(c) for c in ref])
            # sizes: every prefix length, so every combination of vector-loop remainder
            for m in list(range(1, 41)) + [63, 64, 65, 127, 129, 255, 257, 511, 513, 999, 1001]:
                if m > N:
                    break
                r = call(ctx, s, [c[:m].copy() if c is not None else base[i] for i, c in enumerate(cols)], kw, f"{o} size {m}")
                if r is None:
                    continue
                got, bad = outs(r, (m,), n)
                ctx.add(states=m, transitions=1, traces=m)
                if bad:
                    ctx.viol(f"{name} {o} size {m}: {bad}")
                    continue
                q = compare(s, ko, got, [c[:m] for c in ref], scale)
                report(ctx, name, o, ell, f"size {m}", q, [np.array([r_[i] for r_ in rows[:m]], dtype=object) for i in range(len(ks))], got,
                       [c[:m] for c in ref])
            # every element alone as a one-element array of 0, 1 and 2 dimensions
            for j in range(0, N, max(1, N // 60)):
                for shape in ((), (1,), (1, 1)):
                    args = [np.array(rows[j][i]).reshape(shape) if c is not None else base[i] for i, c in enumerate(cols)]
                    r = call(ctx, s, args, kw, f"{o} {rows[j]} as one-element array of shape {shape}")
                    if r is None:
                        continue
                    got = [np.asarray(x, float) for x in engine.flat(r, n)]
                    ctx.add(states=1, transitions=1, traces=1)
                    if any(x.size != 1 for x in got):
                        ctx.viol(f"{name} {o} one-element array: result shapes {[x.shape for x in got]}")
                        continue
                    q = compare(s, ko, [x.reshape(1) for x in got], [c[j:j + 1] for c in ref], scale)
                    report(ctx, name, o, ell, f"one-element array {shape}", q, [np.array([rows[j][i]], dtype=object) for i in range(len(ks))], got,
                           [c[j:j + 1] for c in ref])


def report(ctx, name, o, ell, what, q, argcols, got, ref):
    fin = q[np.isfinite(q)]
    if fin.size:
        ctx.extra["worst_ratio"] = max(ctx.extra.get("worst_ratio", 0), round(float(fin.max()), 4))
    if np.any(q > 1):
        i = int(np.argmax(np.where(np.isfinite(q), q, 1e300)))
        a = tuple(np.ravel(c)[i] for c in argcols)
        ctx.viol(f"{name}{a} {o} ell={ell} {what}: array element {[float(np.ravel(g)[i]) for g in got]}, "
                 f"alone {[float(np.ravel(r)[i]) for r in ref]} ({int((q > 1).sum())} elements)")
    if len(ctx.samples) < 2 and argcols:
        j = len(np.ravel(ref[0])) // 2
        ctx.sample({"call": name, "args": [str(np.ravel(c)[j]) for c in argcols], "what": what})


def broadcast(ctx, name, arrays=3):
    """every subset of the arguments as arrays and the others as plain floats, in degrees and radians"""
    s = spec(name)
    ks, ko = kinds_of(s), engine.out_kinds(s)
    al = [s.alphabet(i) for i in range(len(s.args))]
    base = [a[0] for a in al]
    free = [i for i, (nm, _) in enumerate(s.args) if nm not in s.nonarr]
    if len(free) < 2:
        return
    subsets = [c for k in range(1, len(free)) for c in itertools.combinations(free, k) if k <= arrays or len(free) - k <= 1]
    for o in s.opt_combos()[:2]:
        for rad in ((False, True) if s.deg else (False,)):
            conv = [(math.radians if rad and ks[i] in api.ANGLES else float) if i in free else (lambda v: v) for i in range(len(ks))]
            back = [np.degrees if rad and k in api.ANGLES else np.asarray for k in ko]
            oo = dict(o, deg=False) if rad else o
            for sub in subsets:
                # all arrays of the subset run through their values together, each with its own offset
                m = max(len(al[i]) for i in sub)
                rows = [tuple(conv[j](al[j][(r + sub.index(j)) % len(al[j])] if j in sub else base[j]) for j in range(len(base))) for r in range(m)]
                if len(sub) == 1:
                    fixed = [rows]
                else:
                    fixed = [rows[:5]]
                for rows in fixed:
                    kw, n, ref = setup(s, None, oo, rows)
                    args = [np.array([r[j] for r in rows], float) if j in sub else rows[0][j] for j in range(len(base))]
                    what = f"arrays {[s.args[j][0] for j in sub]}, floats otherwise{' (radians)' if rad else ''}"
                    ctx.add(states=len(rows), transitions=1, traces=len(rows))
                    try:
                        r = s.fn()(*args, **kw)
                    except Exception as e:  # noqa: BLE001
                        if name not in SAMESHAPE:
                            ctx.viol(f"{name} {what}: {type(e).__name__}: {e}")
                        continue
                    got, bad = outs(r, (len(rows),), n)
                    if bad:
                        ctx.viol(f"{name} {what}: {bad}")
                        continue
                    got = [b(g) for b, g in zip(back, got)]
                    rf = [b(g) for b, g in zip(back, ref)]
                    q = compare(s, ko, got, rf, api.A0 if s.ell else 1.0)
                    report(ctx, name, oo, None, what, q, [np.array([r_[j] for r_ in rows], dtype=object) for j in range(len(ks))], got, rf)
        # every argument as a special scalar among arrays
        for i in free:
            kw, n, ref = setup(s, None, o, [tuple(v if j == i else base[j] for j in range(len(base))) for v in al[i]])
            ctx.add(states=len(al[i]))
            for v, rf in zip(al[i], zip(*ref)):
                args2 = [v if j == i else base[j] if j not in free else np.full(5, base[j]) for j in range(len(base))]
                try:
                    r = s.fn()(*args2, **kw)
                except Exception as e:  # noqa: BLE001
                    if name not in SAMESHAPE:
                        ctx.viol(f"{name} scalar {s.args[i][0]}={v} with arrays otherwise: {type(e).__name__}: {e}")
                    continue
                got, bad = outs(r, (5,), n)
                ctx.add(transitions=1, traces=5)
                if bad:
                    ctx.viol(f"{name} scalar {s.args[i][0]} with arrays otherwise: {bad}")
                    continue
                q = compare(s, ko, got, [np.full(5, x) for x in rf], api.A0 if s.ell else 1.0)
                if q.max() > 1:
                    ctx.viol(f"{name} {o} scalar {s.args[i][0]}={v} with arrays otherwise: {[float(g[0]) for g in got]}, alone {list(rf)}")


def outer(ctx, name, arrays, rot):
    """every split of the arguments into columns and rows (of different lengths) that broadcast against each other; 0-d arrays and one-element
    arrays among arrays; empty arrays of several shapes"""
    s = spec(name)
    ks, ko = kinds_of(s), engine.out_kinds(s)
    al = [s.alphabet(i) for i in range(len(s.args))]
    base = [a[0] for a in al]
    free = [i for i, (nm, _) in enumerate(s.args) if nm not in s.nonarr]
    n = engine.nouts(s)
    splits = [c for k in range(1, len(free)) for c in itertools.combinations(free, k) if k <= arrays or len(free) - k <= arrays]
    rng = range(len(base))
    for o in s.opt_combos()[:2]:
        for e in ([None, "mars"] if s.ell else [None]):
            kw = setup(s, e, o, [])[0]
            for shape in ((0,), (0, 1), (3, 0)):
                r = call(ctx, s, [np.zeros(shape) if i in free else base[i] for i in rng], kw, f"{o} empty arrays of shape {shape}")
                ctx.add(states=1, transitions=1, traces=1)
                if r is not None and any(np.shape(x) not in (shape, ()) for x in engine.flat(r, n)):
                    ctx.viol(f"{name} {o} empty arrays of shape {shape}: results of shapes {[np.shape(x) for x in engine.flat(r, n)]}")
            for m0, m1, kind in ((3, 4, "outer"), (1, 5, "outer"), (5, 1, "outer"), (4, 0, "0-d")):
                for sub in splits:
                    for ro in rot:
                        A = []
                        for i in rng:
                            if i not in free:
                                A.append(base[i])
                                continue
                            m = m0 if i in sub else m1
                            v = [al[i][(j + ro * (i + 1)) % len(al[i])] for j in range(max(m, 1))]
                            A.append(np.array(v[0] if m == 0 else v, float).reshape(() if m == 0 else (m,) if kind == "0-d" else (-1, 1) if i in sub else (1, -1)))
                        shape = (m0,) if kind == "0-d" else (m0, m1)
                        full = [np.broadcast_to(a, shape) if i in free else None for i, a in enumerate(A)]
                        rows = [tuple(float(full[i].flat[j]) if i in free else base[i] for i in rng) for j in range(int(np.prod(shape)))]
                        _, _, ref = setup(s, e, o, rows)
                        ref = [c.reshape(shape) for c in ref]
                        what = f"{o} arguments {[s.args[j][0] for j in sub]} along one axis, the others {'0-d' if m1 == 0 else 'along another'}"
                        ctx.add(states=len(rows), transitions=1, traces=len(rows))
                        try:
                            r = s.fn()(*A, **kw)
                        except AssertionError:
                            if name not in SAMESHAPE:
                                raise
                            continue
                        except Exception as x:  # noqa: BLE001
                            ctx.viol(f"{name} {what}: {type(x).__name__}: {x}")
                            continue
                        # a result that depends on some arguments only may have their shape
                        got, bad = [], None
                        for x in engine.flat(r, n):
                            x = np.asarray(x, float)
                            if x.size == 1:
                                x = x.reshape(())
                            try:
                                got.append(np.broadcast_to(x, shape))
                            except ValueError:
                                bad = f"shape {x.shape} does not broadcast to {shape}"
                        if bad:
                            ctx.viol(f"{name} {what}: {bad}")
                            continue
                        q = compare(s, ko, got, ref, float(engine.el_ref(e).a) if s.ell else 1.0)
                        report(ctx, name, o, e, what, q, [np.array([r_[i] for r_ in rows], dtype=object) for i in rng], got, ref)


def contain(ctx, name, n_pos):
    """an exceptional element at each position leaves its neighbours alone"""
    s = spec(name)
    ks, ko = kinds_of(s), engine.out_kinds(s)
    al = [s.alphabet(i) for i in range(len(s.args))]
    base = tuple(a[0] for a in al)
    free = [i for i, (nm, _) in enumerate(s.args) if nm not in s.nonarr]
    # normal neighbours: vary the arguments mildly
    normal = [tuple(al[i][(1 + j) % 2 * 0] if i not in free else base[i] + (0.001 * (j + 1) * abs(base[i])) * (1 if i % 2 else -1)
                    if ks[i] not in ("u1", "u2", "u3", "frac") else base[i] for i in range(len(base))) for j in range(n_pos)]
    for o in s.opt_combos()[:2]:
        kw, n, ref = setup(s, None, o, normal)
        scale = api.A0 if s.ell else 1.0
        special = []
        for i in free:
            for v in al[i][1:] + [math.nan, math.inf, -math.inf]:
                special.append((i, v))
        second = [tuple(base)]
        for i, v in special:
            for p in range(n_pos):
                rows = list(normal)
                rows[p] = tuple(v if j == i else x for j, x in enumerate(rows[p]))
                cols = columns(s, rows)
                try:
                    r = s.fn()(*[c.copy() if c is not None else base[j] for j, c in enumerate(cols)], **kw)
                except ValueError:
                    # documented range checks may reject the whole call for an invalid element
                    if math.isfinite(v):
                        ctx.viol(f"{name} with {s.args[i][0]}={v} at {p}: rejected")
                    continue
                got, bad = outs(r, (n_pos,), n)
                ctx.add(states=1, transitions=1, traces=n_pos - 1)
                if bad:
                    ctx.viol(f"{name} {s.args[i][0]}={v} at position {p}: {bad}")
                    continue
                q = compare(s, ko, got, ref, scale)
                q[p] = 0
                if np.any(q > 1):
                    m = int(np.argmax(q))
                    ctx.viol(f"{name} {o}: element {p} with {s.args[i][0]}={v} changes element {m}: {[float(g[m]) for g in got]} instead of "
                             f"{[float(x[m]) for x in ref]}")


DTYPES = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", ">i4", ">f8", "f4", "g"]
PLAIN = [s.key for s in api.SPECS if not s.arr and s.args and not {"t", "jd"} & {k for _, k in s.args}]   # functions of single numbers
# functions of plain numbers, which NumPy computes in the precision that belongs to the type; n-vectors are no integers
OWN = {"i1": 1e-2, "u1": 1e-2, "i2": 1e-5, "u2": 1e-5}


def dtypes(ctx, name, d):
    """integers of every size and sign, other byte orders, single and extended precision: arrays (all arguments, or one alone) and
    scalars of the type mean the numbers which they hold"""
    s = spec(name)
    ks, ko = kinds_of(s), engine.out_kinds(s)
    base = [s.alphabet(i)[0] for i in range(len(s.args))]
    free = [i for i, (nm, _) in enumerate(s.args) if nm not in s.nonarr]
    units = any(k in ("u1", "u2", "u3", "frac", "rlon", "uang", "jd") for k in ks)
    raw = [r for r in valid_rows(s, s.tuples(d, limit=1000000))]
    tol = tolerance(s)
    for rad in ((False, True) if s.deg else (False,)):
        o = dict(s.opt_combos()[0], **({"deg": False} if rad else {}))
        back = [np.degrees if rad and k in api.ANGLES else np.asarray for k in ko]
        for dt in DTYPES:
            kind = np.dtype(dt).kind
            if kind in "iu" and (units or rad):
                continue
            rows = []
            for r in raw:
                if dt == "f4" and "isometric" in name + s.name and any(85 < abs(v) < 89.99999 for v, k in zip(r, ks) if k == "lat"):
                    continue    # ill-conditioned
                r = [math.radians(v) if rad and ks[i] in api.ANGLES else v for i, v in enumerate(r)]
                for i in free:
                    if kind in "iu":
                        info = np.iinfo(dt)
                        r[i] = float(int(min(max(r[i], info.min + (kind == "i")), min(info.max, 2**53))))
                    else:
                        r[i] = float(np.array(r[i], dtype=dt))
                rows.append(tuple(r))
            rows = list(dict.fromkeys(rows))
            try:
                kw, n, ref = setup(s, None, o, rows)
            except ValueError:
                # a latitude of pi/2 in single precision is beyond the pole
                rows = [r for r in rows if not any(k == "lat" and abs(v) > math.pi / 2 for k, v in zip(ks, r))]
                kw, n, ref = setup(s, None, o, rows)
            keep = [j for j in range(len(rows)) if all(math.isfinite(c[j]) or name == "latitude.geodetic2isometric" for c in ref)]
            rows, ref = [rows[j] for j in keep], [c[keep] for c in ref]
            if not rows:
                continue
            size = np.array([(api.A0 if s.ell else 1.0) + max([abs(r[i]) for i in free if ks[i] not in api.ANGLES] + [0]) for r in rows])
            lim = 3e-5 / tol if dt == "f4" else OWN[dt] / tol if dt in OWN and s.mod == "pymap3d.utils" else 10
            cols = [np.array([r[i] for r in rows], dtype=dt) if i in free else base[i] for i in range(len(base))]
            for which in [] if not s.arr and name in PLAIN else [free] + ([[i] for i in free] if len(free) > 1 else []):
                if which is free:
                    rr, rf, cc, sc = rows, ref, cols, size
                else:
                    sel = [q for q, r in enumerate(rows) if all(r[i] == rows[0][i] for i in free if i not in which)]
                    rr, rf, sc = [rows[q] for q in sel], [c[sel] for c in ref], size[sel]
                    cc = [cols[i][sel] if i in which else rows[0][i] for i in range(len(base))]
                what = f"{np.dtype(dt)} arrays{' for ' + s.args[which[0]][0] if which is not free else ''}{' (radians)' if rad else ''}"
                ctx.add(states=len(rr), transitions=1, traces=len(rr))
                try:
                    r = s.fn()(*[c.copy() if isinstance(c, np.ndarray) else c for c in cc], **kw)
                except Exception as e:  # noqa: BLE001
                    if name not in SAMESHAPE or which is free:
                        ctx.viol(f"{name} {what}: {type(e).__name__}: {e}")
                    continue
                got, bad = outs(r, (len(rr),), n)
                if bad:
                    ctx.viol(f"{name} {what}: {bad}")
                    continue
                q = compare(s, ko, [b(g) for b, g in zip(back, got)], [b(g) for b, g in zip(back, rf)], sc) / lim
                report(ctx, name, o, None, what, q, [np.array([r_[i] for r_ in rr], dtype=object) for i in range(len(ks))], got, rf)
            # scalars: Python integers and NumPy scalars of the type
            for j in range(0, len(rows), max(1, len(rows) // 40)):
                ways = [[np.dtype(dt).type(rows[j][i]) if i in free else base[i] for i in range(len(base))]]
                if dt == "i8":
                    ways.append([int(rows[j][i]) if i in free else base[i] for i in range(len(base))])
                for a in ways:
                    r = call(ctx, s, a, kw, f"{np.dtype(dt)} scalars {a}")
                    ctx.add(transitions=1, traces=1)
                    if r is None:
                        return
                    got = [b(np.asarray(x, float).reshape(1)) for b, x in zip(back, engine.flat(r, n))]
                    q = compare(s, ko, got, [b(c[j:j + 1]) for b, c in zip(back, ref)], size[j]) / lim
                    if q.max() > 1:
                        ctx.viol(f"{name}{a}: {np.dtype(dt)} scalars give {[float(g[0]) for g in got]}, floats {[float(c[j]) for c in ref]}")
                        return


def tasks(tier):
    th = tier == "thorough"
    out = []
    for n in NAMES:
        s = spec(n)
        heavy = s in api.ASTRO
        big = len(s.args) > 6 or heavy
        out.append((f"layouts-{n}", layouts, {"name": n, "d": (2 if th else 1) if big else 2, "ells": T.ellipsoids("some" if th else "few") if not heavy else [None],
                                              "few": heavy}))
        out.append((f"broadcast-{n}", broadcast, {"name": n, "arrays": 3 if th else 2}))
        out.append((f"outer-{n}", outer, {"name": n, "arrays": 3 if th else 2 if len(s.args) < 7 else 1, "rot": (0, 1, 2) if th else (0, 1)}))
        if not heavy:
            out.append((f"contain-{n}", contain, {"name": n, "n_pos": 8 if th else 5}))
        out.append((f"dtypes-{n}", dtypes, {"name": n, "d": 2 if not big and (th or len(s.args) < 5) else 1}))
    for n in PLAIN:
        out.append((f"dtypes-{n}", dtypes, {"name": n, "d": 2 if th else 1}))
    return out
