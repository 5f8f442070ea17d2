"""Every public function x options x units x ellipsoids x argument layouts (whole lattice in one array, single-element and 0-d arrays of
every argument tuple with bounded deviations, strided views of a larger array, one array passed for several arguments, read-only arrays,
arrays mixed with scalars, integer and single-precision arrays, lists, arrays with an invalid element so the call is rejected):
before and after every call the arguments are compared byte for byte (including the memory around views), the Ellipsoid field by field,
and the process-wide state (warning filters, NumPy error handling and printing, logging, random generators, working directory, environment,
locale, catalogue of ellipsoids, ...) as a whole.  The state is set to unusual values first, once to each of
two choices that differ in every component.  For the base calls of every function
the process-wide state is also compared at every executed line, so that a temporary change that other threads can see is found.
State: (function, options, unit, ellipsoid, layout, arguments); transition: one call; trace: one call whose effects were compared."""
import copy
import decimal
import gc
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import warnings

import numpy as np

import api
import calls
import engine
import harness
import lattices as T

SKIP_CALLS = set()


def light():
    """cheap state compared at every line"""
    return (tuple(map(id, warnings.filters)), warnings.showwarning, os.getcwd(), os.environ.get("TZ"), len(os.environ), logging.root.level,
            logging.root.manager.disable, len(logging.root.handlers), sys.getrecursionlimit(), gc.isenabled(), sys.stdout, sys.stderr, warnings.filters)


def state():
    import pymap3d
    r = np.random.get_state()
    return {
        "warning filters": tuple(warnings.filters), "warning display": (warnings.showwarning, warnings.formatwarning),
        "numpy error handling": (tuple(sorted(np.geterr().items())), np.geterrcall(), np.getbufsize()),
        "numpy printing": repr(sorted(np.get_printoptions().items(), key=str)),
        "logging": (logging.root.level, logging.root.manager.disable, len(logging.root.handlers), logging.getLogger("pymap3d").level),
        "random state": random.getstate(), "numpy random state": (r[0], r[1].tobytes(), r[2:]),
        "working directory": os.getcwd(), "environment": dict(os.environ), "files": tuple(sorted(os.listdir("."))),
        "locale": locale.setlocale(locale.LC_ALL), "trace": (sys.gettrace(), sys.getprofile(), threading.gettrace()),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.displayhook), id(sys.excepthook)),
        "interpreter": (sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(), tuple(sys.path), sys.dont_write_bytecode),
        "threads": threading.active_count(), "signals": (signal.getsignal(signal.SIGINT), signal.getsignal(signal.SIGALRM)),
        "decimal context": repr(decimal.getcontext()), "sockets": socket.getdefaulttimeout(),
        "catalogue": copy.deepcopy(pymap3d.Ellipsoid.models),
        "named ellipsoids": tuple(calls.canon(pymap3d.Ellipsoid.from_name(n)) for n in pymap3d.Ellipsoid.models),
    }


def odd_state(k=0):
    """process state unlike any default, so that resetting to a default shows; the two states differ from each other in every component,
    so that setting anything to a fixed value shows in at least one of them"""
    d = os.path.join(harness.scratch(), f"cwd{os.getpid()}-{k}")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    e = [("ignore", "warn", "ignore", "ignore"), ("warn", "ignore", "warn", "warn")][k]
    np.seterr(divide=e[0], over=e[1], under=e[2], invalid=e[3])
    np.seterrcall([None, len][k])
    np.setbufsize([8192, 16384][k])
    np.set_printoptions(precision=5 + k, suppress=bool(k))
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    warnings.filterwarnings(["always", "ignore"][k], message=f"nothing like this {k}", category=UserWarning)
    warnings.showwarning = [SHOW, quiet][k]
    logging.disable([logging.CRITICAL, logging.CRITICAL + 7][k])
    logging.root.setLevel(17 + k)
    logging.getLogger("pymap3d").setLevel(k * 13)
    random.seed(4 + k)
    np.random.seed(5 + k)
    os.environ["MC_PROBE"] = str(k)
    os.environ["TZ"] = ["UTC", "XYZ-3"][k]
    sys.setrecursionlimit(1777 + k)
    sys.setswitchinterval([0.005, 0.0047][k])
    decimal.getcontext().prec = 28 - k
    socket.setdefaulttimeout([None, 77.0][k])
    gc.set_threshold(700 + k, 10, 10)
    (gc.disable if k else gc.enable)()


SHOW = warnings.showwarning


def quiet(*a, **k):
    pass


class Watch:
    def __init__(self, ctx, s):
        self.ctx, self.s, self.n = ctx, s, 0
        self.st = state()

    def same_state(self, what):
        new = state()
        for k, v in self.st.items():
            if new[k] != v:
                self.ctx.viol(f"{what} changed process-wide state: {k} {str(v)[:80]} -> {str(new[k])[:80]}")
        self.st = new


def _arg_image(a):
    if isinstance(a, np.ndarray):
        b = a if a.base is None else a.base
        return ("a", a.dtype.str, a.shape, a.strides, a.tobytes(), b.tobytes() if isinstance(b, np.ndarray) else None)
    if isinstance(a, list):
        return ("l", repr(a), tuple(id(x) for x in a))
    if hasattr(a, "semimajor_axis"):
        return ("E", repr(sorted(vars(a).items())))
    return ("v", repr(a))


def call(w, f, args, kw, label, full=False, must=True):
    """run one call and compare everything around it; returns (ok, result)"""
    before = [_arg_image(a) for a in args] + [_arg_image(v) for v in kw.values()]
    lt = light()
    try:
        r = f(*args, **kw)
        ok = True
    except Exception as e:  # noqa: BLE001
        r, ok = e, False
    after = [_arg_image(a) for a in args] + [_arg_image(v) for v in kw.values()]
    w.ctx.add(transitions=1, traces=1)
    if before != after:
        i = next(i for i, (x, y) in enumerate(zip(before, after)) if x != y)
        a = (list(args) + list(kw.values()))[i]
        w.ctx.viol(f"{label} changed its argument {i} in place: now {np.asarray(a).ravel()[:6] if isinstance(a, np.ndarray) else a!r}",
                   function=label, args=[x.tolist() if isinstance(x, np.ndarray) and x.size < 50 else str(x)[:80] for x in args])
    if light() != lt or full:
        w.same_state(label)
    return ok, r


def kinds(s):
    return s.kinds()


def conv(s, cols, rad):
    return [np.radians(c) if rad and k in api.ANGLES else c for c, k in zip(cols, kinds(s))]


def fn_task(ctx, name, idx, opts, tier):
    s = calls.all_specs()[idx]
    assert s.key == name
    for k in (1, 0):
        odd_state(k)
        fn_state(ctx, s, opts, tier, k)


def fn_state(ctx, s, opts, tier, lite):
    """every layout in the first state, a selection of the calls in the second"""
    w = Watch(ctx, s)
    f = s.fn()
    th = tier == "thorough"
    na = len(s.args)
    astro = "force_non_astropy" not in opts and any(x.key == s.key and "force_non_astropy" in x.opts for x in api.SPECS) or s in api.ASTRO
    tt = [i for i, (nm, k) in enumerate(s.args) if nm in s.nonarr or k == "t"]
    d = 1 if astro else 2
    while d > 1 and len(s.tuples(d)) > (6000 if th else 2500):
        d -= 1
    lat = s.tuples(d)
    small = s.tuples(1) if len(lat) > (2000 if th else 500) else lat
    if astro:
        small = small[::1 if th else 3]
    if lite and not th:
        small = small[::4]
    for rad in ((False, True) if s.deg else (False,)):
        for ell in ((None, (6400000.0, 6300000.0)) if s.ell else ("none",)):
            kw = dict(opts)
            if rad:
                kw["deg"] = False
            if ell != "none":
                kw["ell"] = engine.ellipsoid(ell)
            lb = f"{s.key} {opts or ''} {'rad' if rad else 'deg'} ell={ell}"
            ctx.add(states=len(lat) + len(small))
            # scalars (NumPy scalars cannot change; lists and Ellipsoid can)
            if not s.arr:
                for t in small:
                    a = [float(np.radians(v)) if rad and k in api.ANGLES else v for v, k in zip(t, kinds(s))]
                    call(w, f, a, kw, lb + f" {t}")
                w.same_state(lb)
                continue
            fi = [i for i in range(na) if i not in tt]
            groups = {}
            for t in lat:
                groups.setdefault(tuple(t[i] for i in tt), []).append(t)
            sgroups = list(groups.items()) if not astro else list(groups.items())[:2]

            def mk(rows, tv):
                cols = [np.array([r[i] for r in rows], float) if i in fi else None for i in range(na)]
                cols = [np.radians(c) if rad and c is not None and k in api.ANGLES else c for c, k in zip(cols, kinds(s))]
                return cols

            def fill(cols, tv):
                it = iter(tv)
                return [next(it) if i in tt else cols[i] for i in range(na)]

            for tv, rows in sgroups:
                cols = mk(rows, tv)
                n = len(rows)
                okc, _ = call(w, f, fill([None if c is None else c.copy() for c in cols], tv), kw, lb + " lattice", full=True)
                # read-only
                ro = [None if c is None else c.copy() for c in cols]
                for c in ro:
                    if c is not None:
                        c.flags.writeable = False
                ok2, r2 = call(w, f, fill(ro, tv), kw, lb + " read-only lattice")
                if okc and not ok2:
                    ctx.viol(f"{lb}: read-only arrays rejected: {type(r2).__name__}: {r2}")
                if lite and not th:
                    call(w, f, fill([None if c is None else c[:min(n, 40)].tolist() for c in cols], tv), kw, lb + " lists")
                    for i in fi:
                        for badv in (np.nan, 95.0 if not rad else 1.7, -1.0):
                            z = [None if c is None else c[:5].copy() for c in cols]
                            z[i][-1] = badv
                            call(w, f, fill(z, tv), kw, lb + f" argument {i} has {badv}")
                    continue
                # strided views of one larger array, and reversed views
                big = np.full((n, 2 * len(cols) + 1), 7.25)
                vw = []
                for j, c in enumerate(cols):
                    if c is None:
                        vw.append(None)
                    else:
                        big[:, 2 * j + 1] = c
                        vw.append(big[:, 2 * j + 1])
                ok3, r3 = call(w, f, fill(vw, tv), kw, lb + " strided views")
                if okc and not ok3:
                    ctx.viol(f"{lb}: strided views rejected: {type(r3).__name__}: {r3}")
                call(w, f, fill([None if c is None else c.copy()[::-1] for c in cols], tv), kw, lb + " reversed views")
                if n % 2 == 0:
                    call(w, f, fill([None if c is None else np.asfortranarray(c.reshape(2, -1)) for c in cols], tv), kw, lb + " 2-d arrays")
                # the same array object for all arguments of one kind
                by = {}
                al = [None if c is None else by.setdefault(k, c.copy()) for c, k in zip(cols, kinds(s))]
                call(w, f, fill(al, tv), kw, lb + " shared arrays")
                # other element types
                for dt in (np.int64, np.float32, object):
                    call(w, f, fill([None if c is None else c.astype(dt) for c in cols], tv), kw, lb + f" {np.dtype(dt)} arrays")
                m = min(n, 40)
                call(w, f, fill([None if c is None else c[:m].tolist() for c in cols], tv), kw, lb + " lists")
                # arrays mixed with scalars
                for i in fi:
                    mix = [None if c is None else float(c[0]) for c in cols]
                    al_i = np.array([x for x in s.alphabet(i)], float)
                    if rad and kinds(s)[i] in api.ANGLES:
                        al_i = np.radians(al_i)
                    mix[i] = al_i
                    call(w, f, fill(mix, tv), kw, lb + f" array for argument {i} only")
                    mix = [None if c is None else c[:1].copy() for c in cols]
                    mix[i] = al_i.copy()
                    call(w, f, fill(mix, tv), kw, lb + f" array for argument {i}, one-element arrays elsewhere")
                    # rejected or special elements
                    for badv in (np.nan, np.inf, 95.0 if not rad else 1.7, -1.0):
                        z = [None if c is None else c[:5].copy() for c in cols]
                        z[i][-1] = badv
                        call(w, f, fill(z, tv), kw, lb + f" argument {i} has {badv}")
            for t in small:
                a = [np.radians(v) if rad and k in api.ANGLES else v for v, k in zip(t, kinds(s))]
                for sh in ((1,), ()):
                    call(w, f, [v if i in tt else np.full(sh, v) for i, v in enumerate(a)], kw, f"{lb} {t} shape {sh}")
                ro = [v if i in tt else np.full((1,), v) for i, v in enumerate(a)]
                for i, v in enumerate(ro):
                    if i not in tt:
                        v.flags.writeable = False
                ok, r = call(w, f, ro, kw, f"{lb} {t} read-only")
                if not ok and isinstance(r, ValueError) and "read-only" in str(r):
                    ctx.viol(f"{lb} {t}: read-only arrays rejected: {r}")
            w.same_state(lb)
    ctx.sample({"function": s.key, "options": opts, "lattice": len(lat), "small": len(small)})


def extra_task(ctx):
    for k in (1, 0):
        odd_state(k)
        extra_state(ctx)


def extra_state(ctx):
    w = Watch(ctx, None)
    for a in calls.extras():
        for ro in (False, True):
            try:
                f, args, kw = a.build()
            except KeyError:
                continue
            if ro:
                for x in args:
                    if isinstance(x, np.ndarray):
                        x.flags.writeable = False
            call(w, f, args, kw, a.label, full=True)
            ctx.add(states=1)
    import pymap3d
    from pymap3d import Ellipsoid
    from pymap3d.ellipsoid import clear_ellipsoid_caches
    f = pymap3d.track2 if hasattr(pymap3d, "track2") else __import__("pymap3d.vincenty", fromlist=["x"]).track2
    for npts in (1, 2, 3, 7):
        for deg in (True, False):
            call(w, f, [40.0, -80.0, 41.0, -70.0] if deg else [0.7, -1.4, 0.71, -1.2], {"npts": npts, "deg": deg, "ell": Ellipsoid(6.4e6, 6.3e6)}, f"track2 npts={npts}", full=True)
    for n in list(Ellipsoid.models) + ["nosuch"]:
        call(w, Ellipsoid.from_name, [n], {}, f"from_name {n}", full=True)
    call(w, clear_ellipsoid_caches, [], {}, "clear_ellipsoid_caches", full=True)


def line_task(ctx, part, parts, tier):
    """process-wide state at every executed line of the base calls (scalar, poles, arrays with special elements)"""
    nrun = 0
    src = os.path.realpath(harness.SRC)
    specs = calls.all_specs()[part::parts]
    ref = [None]
    cur = [None]
    hits = [0]
    bad = {}

    def local(frame, event, arg):
        if event in ("line", "return"):
            hits[0] += 1
            if light() != ref[0]:
                ln = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                if cur[0] not in bad:
                    bad[cur[0]] = ln
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(src) else None

    for s in specs:
        ops = s.opt_combos()
        for o in (ops if tier == "thorough" else ops[:1] + ops[-1:] if len(ops) > 1 else ops):
            tl = s.tuples(1)
            if s.mod == "pymap3d.karney" or len(s.args) > 7:
                tl = tl[::3] if tier != "thorough" else tl
            for rad in ((False, True) if s.deg else (False,)):
                kw = dict(o)
                if rad:
                    kw["deg"] = False
                if s.ell:
                    kw["ell"] = None
                f = s.fn()
                runs = []
                rows = [[float(np.radians(v)) if rad and k in api.ANGLES else v for v, k in zip(t, kinds(s))] for t in tl]
                if not (s in api.ASTRO or (s.arr and "t" in kinds(s) and "force_non_astropy" not in o)):
                    runs += rows
                else:
                    runs += rows[:2]
                if s.arr:
                    ti = [i for i, (nm, k) in enumerate(s.args) if nm in s.nonarr or k == "t"]
                    runs.append([rows[0][i] if i in ti else np.array([r[i] for r in rows], float) for i in range(len(s.args))])
                for a in runs:
                    nrun += 1
                    if nrun % 8 in (0, 4):
                        odd_state(nrun // 4 % 2)
                    cur[0] = f"{s.key} {o or ''} {'rad' if rad else 'deg'}"
                    ref[0] = light()
                    sys.settrace(glob)
                    try:
                        f(*a, **kw)
                    except Exception:  # noqa: BLE001
                        pass
                    finally:
                        sys.settrace(None)
                    ctx.add(states=1, transitions=1, traces=1)
    ctx.count("lines_monitored", hits[0])
    for k, v in bad.items():
        ctx.viol(f"{k}: process-wide state differs at {v} while the call runs")


def import_task(ctx):
    """importing the library in a fresh process changes no process-wide state either (Astropy, NumPy, ... imported beforehand)"""
    import subprocess
    code = ("import sys,os,warnings,logging,random,locale,gc,signal\n"
            "import numpy as np, importlib\n"
            "for m in ('astropy.units','astropy.coordinates','astropy.time','pyproj','argparse','json','csv'):\n"
            "    try: importlib.import_module(m)\n"
            "    except ImportError: pass\n"
            "warnings.simplefilter('always'); np.seterr(over='ignore'); np.set_printoptions(precision=5); random.seed(3); np.random.seed(3)\n"
            "def st(): return (tuple(warnings.filters), sorted(np.geterr().items()), repr(np.get_printoptions()), logging.root.level, logging.root.manager.disable,"
            " len(logging.root.handlers), random.getstate(), np.random.get_state()[1].tobytes(), os.getcwd(), dict(os.environ), locale.setlocale(locale.LC_ALL),"
            " sys.getrecursionlimit(), gc.isenabled(), signal.getsignal(signal.SIGINT), id(sys.stdout), tuple(sorted(os.listdir('.'))))\n"
            "a=st()\n"
            f"sys.path.insert(0, {harness.SRC!r})\n"
            "import pymap3d\n"
            "for m in sys.argv[1:]:\n"
            "    try: importlib.import_module('pymap3d.'+m)\n"
            "    except ModuleNotFoundError as e:\n"
            "        if not str(e.name).startswith('pymap3d'): raise\n"
            "b=st()\n"
            "d=[i for i,(x,y) in enumerate(zip(a,b)) if x!=y]\n"
            "print('DIFF', d)\n")
    d = os.path.join(harness.scratch(), f"imp{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    mods = ["aer", "azelradec", "body", "dca", "ecef", "eci", "ellipsoid", "enu", "haversine", "karney", "latitude", "los", "lox", "ned", "nvector",
            "nwu", "rcurve", "rsphere", "sez", "sidereal", "spherical", "timeconv", "utils", "vallado", "vincenty", "__main__"]
    r = subprocess.run([sys.executable, "-B", "-c", code] + mods, cwd=d, capture_output=True, text=True, timeout=120)
    ctx.add(states=len(mods), transitions=len(mods), traces=1)
    if "DIFF []" not in r.stdout:
        ctx.viol(f"importing the library changes process-wide state: {r.stdout[-300:]} {r.stderr[-500:]}")


def tasks(tier):
    out = [("extras", extra_task, {}), ("import", import_task, {})]
    for i, s in enumerate(calls.all_specs()):
        oc = s.opt_combos()
        astro = i >= len(api.SPECS)
        if tier != "thorough":
            oc = oc[:1] + (oc[-1:] if len(oc) > 1 and not astro else [])
        for o in oc:
            out.append((f"{s.key}-{i}-{list(o.values())}", fn_task, {"name": s.key, "idx": i, "opts": o, "tier": tier}))
    for p in range(16):
        out.append((f"lines-{p}", line_task, {"part": p, "parts": 16, "tier": tier}))
    out.sort(key=lambda t: 0 if "eci" in t[0] or "lines" in t[0] or "sky" in t[0] else 1)
    return out
