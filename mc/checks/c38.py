"""Every command of the command line is run in process (pymap3d.__main__.main with sys.argv set) for all argument
tuples with at most d deviations from a base tuple, and for all configurations with at most two deviations from the
default (output mode x precision x ellipsoid x unit flag x each option of the function, each spelling of times), in
the installation with NumPy and Astropy, the one without Astropy and the plain-Python one.  Oracle: the library
function called directly with the same values; printed floats must parse to the very doubles (or be their fixed-point
rounding under --precision), JSON must reproduce values and nesting, and a call the library rejects must print
nothing and fail."""
import itertools
import json
import math
import os
import re
import subprocess
from datetime import datetime

import api
import clirun
import engine
import harness

SPECS = [s for s in api.SPECS + api.ASTRO if s.mod == "pymap3d"]
ELLS = [None, "wgs84", "mars", "clarke1866", "jupiter", "io", "venus"]
TIMES = ["2013-01-15T12:00:05", "2016-12-31T23:59:59.999999", "2013-01-15 12:00:05+05:30", "2020-02-29T06:30:00Z"]

# functions of the top level which the registry does not hold as (args -> outs)
EXTRA = {
    "nvector_mean": [(["0.48,0.6", "0.64,0.0", "0.6,0.8"], ([0.48, 0.6], [0.64, 0.0], [0.6, 0.8]))],
    "greenwichsrt": [(["2456308.0000579"], (2456308.0000579,)), (["2.4513e6"], (2451300.0,))],
    "str2dt": [([t], (datetime.fromisoformat(t),)) for t in TIMES],
}
TOP = {"authalic2geodetic": "pymap3d.latitude", "conformal2geodetic": "pymap3d.latitude", "geodetic2authalic": "pymap3d.latitude",
       "geodetic2conformal": "pymap3d.latitude", "geodetic2isometric": "pymap3d.latitude", "isometric2geodetic": "pymap3d.latitude",
       "geodetic2parametric": "pymap3d.latitude", "parametric2geodetic": "pymap3d.latitude", "geodetic2rectifying": "pymap3d.latitude",
       "rectifying2geodetic": "pymap3d.latitude", "geodetic2geocentric": "pymap3d.latitude", "geocentric2geodetic": "pymap3d.latitude",
       "geod2geoc": "pymap3d.latitude", "geoc2geod": "pymap3d.latitude", "geocentric_radius": "pymap3d.rcurve",
       "parallel": "pymap3d.rcurve", "meridian": "pymap3d.rcurve", "transverse": "pymap3d.rcurve"}
SPECS += [s for s in api.SPECS if TOP.get(s.name) == s.mod]
SPECS = [s for s in SPECS if s.name not in EXTRA]
NAMES = sorted({s.name for s in SPECS} | set(EXTRA))
BOOL = {"force_non_astropy"}


def spell(v, k):
    """the k-th way of writing a number that means the same double"""
    if isinstance(v, datetime):
        return v.isoformat() if k % 2 else v.isoformat(sep=" ")
    s = repr(float(v))
    ways = [s, "%.17e" % v, s[:-2] if s.endswith(".0") else s, s.replace("e", "E"), f"{v:.20g}"]
    w = ways[k % len(ways)]
    return w if float(w) == float(v) else s


def configs(spec, ells, d=2):
    """(cli global args, cli command args, kwargs, ell, mode, precision) with at most d deviations"""
    dims = [("output", [None, "text", "json"]), ("precision", [None, 0, 3, 12]), ("ell", ells if spec.ell else [None, "mars"]),
            ("deg", [None, True, False] if spec.deg else [None])]
    for o, vals in spec.opts.items():
        dims.append((o, [None] + (list(vals) if o not in BOOL else [True, False])))
    for k in range(d + 1):
        for pos in itertools.combinations([i for i, x in enumerate(dims) if len(x[1]) > 1], k):
            for vals in itertools.product(*[dims[p][1][1:] for p in pos]):
                yield {dims[p][0]: v for p, v in zip(pos, vals)}


def build(spec, tup, cfg, k):
    """argv and direct call of one configuration"""
    g, c, kw = [], [], {}
    for name, v in cfg.items():
        if name in ("output", "precision"):
            g += [f"--{name}", str(v)] if k % 2 == 0 else [f"--{name}={v}"]
        elif name == "ell":
            g += ["--ellipsoid", v]
        elif name == "deg" or name in BOOL:
            c.append(f"--{name}".replace("_", "-") if v else f"--no-{name}".replace("_", "-"))
            kw[name] = v
        elif v is not None:
            c += [f"--{name.replace('_', '-')}", v if isinstance(v, str) else spell(v, k)]
            kw[name] = v
    pos = [spell(v, k + i) if not isinstance(v, datetime) else v.isoformat() for i, v in enumerate(tup)]
    ell = cfg.get("ell") or ("wgs84" if spec.ell else "none")
    return g + [spec.name] + pos + c, kw, (ell if spec.ell else "none")


def optional_args(spec):
    """positional arguments of the registry that are options on the command line"""
    return {"nvector2ecef": {3: "--alt"}}.get(spec.name, {})


def leaves(r):
    if isinstance(r, (tuple, list)):
        return [x for v in r for x in leaves(v)]
    return [r]


def same(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def judge(ctx, what, out, how, ref, cfg):
    """compare printed output with the library result `ref` (plain Python values)"""
    if isinstance(ref, tuple) and len(ref) == 3 and ref[0] == "!exc":
        if how == "ok" or out.strip():
            ctx.viol(f"{what}: printed {out.strip()[:120]!r} ({how}) where the library raises {ref[1]}")
        return
    if how != "ok":
        ctx.viol(f"{what}: failed ({how}) where the library returns {str(ref)[:120]}")
        return
    vals = leaves(ref)
    if cfg.get("output") == "json":
        try:
            got = json.loads(out)
        except ValueError:
            ctx.viol(f"{what}: no JSON: {out[:120]!r}")
            return

        def nest(r):
            if isinstance(r, (tuple, list)):
                return [nest(v) for v in r]
            return r.isoformat() if isinstance(r, datetime) else r
        exp = nest(ref)

        def eq(a, b):
            if isinstance(b, list):
                return isinstance(a, list) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
            return not isinstance(a, list) and same(a, b)
        if isinstance(exp, str) and isinstance(got, str):
            ok = datetime.fromisoformat(got) == datetime.fromisoformat(exp)
        else:
            ok = eq(got, exp)
        if not ok:
            ctx.viol(f"{what}: JSON {out.strip()[:200]} instead of {str(exp)[:200]}")
        return
    if any(isinstance(v, datetime) for v in vals):
        try:
            ok = datetime.fromisoformat(out.strip()) == vals[0] and len(vals) == 1
        except ValueError:
            ok = False
        if not ok:
            ctx.viol(f"{what}: printed {out.strip()[:100]!r} instead of {vals}")
        return
    tok = [t for t in re.split(r"[\s,()\[\]]+", out.strip()) if t]
    p = cfg.get("precision")
    if p is not None:
        exp = [f"{v:.{p}f}" for v in vals]
        ok = tok == exp
    else:
        try:
            ok = len(tok) == len(vals) and all(same(float(t), float(v)) for t, v in zip(tok, vals))
        except ValueError:
            ok = False
        exp = vals
    if not ok:
        ctx.viol(f"{what}: printed {out.strip()[:200]!r} instead of {exp}")


def _cases(spec, tuples, ells, cfg_d, base_d):
    k = 0
    opt = optional_args(spec)
    for i, t in enumerate(tuples):
        cfgs = list(configs(spec, ells, cfg_d)) if i == 0 else list(configs(spec, ells[:2], 1))[:: 1 if base_d else 3]
        if i and not base_d:
            cfgs = [({}, {"output": "json"})[i % 2]]
        for cfg in cfgs:
            k += 1
            argv, kw, ell = build(spec, t, cfg, k)
            if opt:
                j = argv.index(spec.name) + 1
                pos = argv[j:j + len(t)]
                rest = argv[j + len(t):]
                argv = argv[:j] + [v for q, v in enumerate(pos) if q not in opt] + rest
                for q, flag in opt.items():
                    argv += [flag, pos[q]]
            yield t, cfg, argv, kw, ell


def command(ctx, names, d, cfg_d, install, ells=None, allcfg=False):
    """all tuples and configurations of the commands in one installation"""
    for name in names:
        spec = api.spec(name) if name not in TOP else next(s for s in SPECS if s.name == name)
        tuples = spec.tuples(d)
        n = 0
        batch = []
        for t, cfg, argv, kw, ell in _cases(spec, tuples, ells or ELLS, cfg_d, allcfg):
            batch.append((t, cfg, argv, kw, ell))
        if install == "std":
            outs = engine.remote("std", [("clirun", "run", (b[2],), {}, "none") for b in batch])
            refs = engine.remote("std", [(spec.mod, spec.name, tuple(float(v) if not isinstance(v, datetime) else v for v in b[0]), b[3], b[4]) for b in batch])
        else:
            outs = [clirun.run(b[2]) for b in batch]
            refs = [direct(spec, b) for b in batch]
        for b, o, r in zip(batch, outs, refs):
            n += 1
            judge(ctx, f"[{install}] pymap3d {' '.join(b[2])}", o[0], o[1], r, b[1])
        ctx.add(states=n, transitions=n, traces=n)
        ctx.sample({"argv": batch[-1][2], "printed": outs[-1][0].strip()})


def plain(r):
    if isinstance(r, (tuple, list)):
        return tuple(plain(x) for x in r)
    if hasattr(r, "tolist"):
        return plain(r.tolist()) if getattr(r, "ndim", 0) else r.item()
    return r


def direct(spec, b):
    t, cfg, argv, kw, ell = b
    kw = dict(kw)
    if ell != "none":
        kw["ell"] = engine.ellipsoid(ell)
    try:
        return plain(spec.fn()(*[float(v) if not isinstance(v, datetime) else v for v in t], **kw))
    except Exception as e:  # noqa: BLE001
        return ("!exc", type(e).__name__, str(e))


def times(ctx, install):
    """every spelling of a time for every command with a time"""
    for spec in SPECS:
        ks = spec.kinds()
        if "t" not in ks:
            continue
        j = ks.index("t")
        base = spec.tuples(0)[0]
        fna = {} if spec.name in ("eci2geodetic", "geodetic2eci", "eci2aer", "aer2eci") else {"force_non_astropy": True}
        for s in TIMES + ["2013-01-15", "1999-12-31T23:59", "20130115T120005Z", "2013-01-15T12:00:05.5-08:00"]:
            for o in (None, "json"):
                for a in ([fna] if install != "full" or not fna else [fna, {}]):
                    argv = (["--output", o] if o else []) + [spec.name] + [repr(float(v)) if q != j else s for q, v in enumerate(base)]
                    argv += ["--force-non-astropy"] if a else []
                    tup = list(base)
                    tup[j] = datetime.fromisoformat(s)
                    out, how = clirun.run(argv)
                    ref = direct(spec, (tup, {}, argv, a, "wgs84" if spec.ell else "none"))
                    judge(ctx, f"[{install}] pymap3d {' '.join(argv)}", out, how, ref, {"output": o})
                    ctx.add(states=1, transitions=1, traces=1)


NUMBERS = ["inf", "-inf", "nan", "Infinity", "1e3", "1E3", "+5", ".5", "5.", "-0", "-0.0", "1e-320", "1_000", "007", " 12 ", "-1e-3", "-.5", "1e400", "+1.5e+2", "0x10",
           "", "1e", "--1", "x5", "\u0665"]


def numbers(ctx, install, names, every):
    """every spelling of a number, also special ones and ones which are no number, at every argument of the commands"""
    for name in names:
        spec = api.spec(name) if name not in TOP else next(s for s in SPECS if s.name == name)
        base = spec.tuples(0)[0]
        opt = optional_args(spec)
        batch = []
        for j, k in enumerate(spec.kinds()):
            if k == "t" or j in opt:
                continue
            for i, w in enumerate(NUMBERS):
                if not every and (i + j) % 4:
                    continue
                try:
                    v = float(w)
                except ValueError:
                    v = None
                cfg = {"output": "json"} if i % 3 == 1 else {}
                argv, kw, ell = build(spec, base, cfg, 0)
                q = argv.index(spec.name) + 1
                pos = [x for p, x in enumerate(argv[q:q + len(base)]) if p not in opt]
                rest = argv[q + len(base):] + [x for p, flag in opt.items() for x in (flag, argv[q + p])]
                pos[j] = w
                batch.append((tuple(v if p == j else x for p, x in enumerate(base)), cfg, argv[:q] + pos + rest, kw, ell))
        if install == "std":
            outs = engine.remote("std", [("clirun", "run", (b[2],), {}, "none") for b in batch])
        else:
            outs = [clirun.run(b[2]) for b in batch]
        for b, o in zip(batch, outs):
            what = f"[{install}] pymap3d {b[2]}"
            ctx.add(states=1, transitions=1, traces=1)
            if any(v is None for v in b[0]):
                if o[1] == "ok" or o[0].strip():
                    ctx.viol(f"{what}: printed {o[0].strip()[:100]!r} ({o[1]}) for an argument which is no number")
                continue
            if any(w[:1] == "-" and not w[1:2].isdigit() and w[1:2] != "." for w in b[2][b[2].index(spec.name):]) and o[1] != "ok" and not o[0].strip():
                continue  # taken for an option
            if install == "std":
                r = engine.remote("std", [(spec.mod, spec.name, tuple(float(v) if not isinstance(v, datetime) else v for v in b[0]), b[3], b[4])])[0]
            else:
                r = direct(spec, b)
            judge(ctx, what, o[0], o[1], r, b[1])


def lists(ctx, install, names):
    """comma lists: in every argument at once, and in each argument alone, of lengths one to three"""
    for name in names:
        spec = api.spec(name) if name not in TOP else next(s for s in SPECS if s.name == name)
        ks, opt, tuples = spec.kinds(), optional_args(spec), spec.tuples(1)
        base = tuples[0]
        nums = [j for j, k in enumerate(ks) if k != "t"]
        # columns of up to three values per argument: the base one and its first deviations
        col = {j: [base[j]] + [v for v in dict.fromkeys(t[j] for t in tuples) if v != base[j]][:2] for j in nums}
        batch = []
        for n, which in [(n, nums) for n in (2, 3)] + [(2, [j]) for j in nums]:
            tup = [[float(v) for v in (col[j] * n)[:n]] if j in which else base[j] for j in range(len(base))]
            for o, p in itertools.product((None, "json"), (None, 0, 4)):
                cfg = {k: v for k, v in (("output", o), ("precision", p)) if v is not None}
                argv = [w for k, v in cfg.items() for w in (f"--{k}", str(v))] + [name]
                words = [",".join(map(repr, v)) if isinstance(v, list) else v.isoformat() if isinstance(v, datetime) else repr(float(v)) for v in tup]
                argv += [w for j, w in enumerate(words) if j not in opt] + [w for j in opt for w in (opt[j], words[j])]
                kw = {}
                if "force_non_astropy" in spec.opts and p is None:
                    argv.append("--force-non-astropy")
                    kw["force_non_astropy"] = True
                batch.append((tup, cfg, argv, kw, "wgs84" if spec.ell else "none"))
        args = [tuple(v if isinstance(v, (list, datetime)) else float(v) for v in b[0]) for b in batch]
        if install == "std":
            outs = engine.remote("std", [("clirun", "run", (b[2],), {}, "none") for b in batch])
            refs = engine.remote("std", [(spec.mod, name, a, b[3], b[4]) for a, b in zip(args, batch)])
        else:
            outs, refs = [clirun.run(b[2]) for b in batch], []
            for a, b in zip(args, batch):
                kw = dict(b[3], **({} if b[4] == "none" else {"ell": engine.ellipsoid(b[4])}))
                try:
                    refs.append(plain(spec.fn()(*a, **kw)))
                except Exception as e:  # noqa: BLE001
                    refs.append(("!exc", type(e).__name__, str(e)))
        for b, o, r in zip(batch, outs, refs):
            judge(ctx, f"[{install}] pymap3d {' '.join(b[2])}", o[0], o[1], r, b[1])
            ctx.add(states=1, transitions=1, traces=1)
        ctx.sample({"argv": batch[0][2], "printed": outs[0][0].strip()})


def extras(ctx, install):
    import importlib
    import pymap3d
    for name, cases in EXTRA.items():
        for argv0, args in cases:
            for o, p in itertools.product((None, "text", "json"), (None, 0, 5)):
                argv = (["--output", o] if o else []) + (["--precision", str(p)] if p is not None else []) + [name] + argv0
                if install == "std":
                    (out, how), ref = engine.remote("std", [("clirun", "run", (argv,), {}, "none"), ("pymap3d", name, args, {}, "none")])
                else:
                    out, how = clirun.run(argv)
                    ref = plain(getattr(pymap3d, name)(*args))
                judge(ctx, f"[{install}] pymap3d {' '.join(argv)}", out, how, ref, {"output": o, "precision": p})
                ctx.add(states=1, transitions=1, traces=1)


def ellipsoids(ctx):
    """every ellipsoid of the catalogue by name"""
    import pymap3d
    for name in pymap3d.Ellipsoid.models:
        for spec in [s for s in SPECS if s.ell and s.name in ("geodetic2ecef", "ecef2geodetic", "aer2geodetic", "meridian", "geodetic2body")]:
            for cfg in ({"ell": name}, {"ell": name, "output": "json"}, {"ell": name, "deg": False}):
                t = spec.tuples(0)[0]
                argv, kw, ell = build(spec, t, cfg, 0)
                out, how = clirun.run(argv)
                judge(ctx, f"pymap3d {' '.join(argv)}", out, how, direct(spec, (t, cfg, argv, kw, ell)), cfg)
                ctx.add(states=1, transitions=1, traces=1)


def offered(ctx):
    """every conversion function of the top level is offered, and wrong usage is refused"""
    import pymap3d
    out, how = clirun.run(["--help"])
    words = set(re.split(r"[^\w]+", out))
    for n in sorted(set(NAMES) | {n for n in pymap3d.__all__ if n != "Ellipsoid"}):
        ctx.add(states=1, transitions=1)
        if n not in words:
            ctx.viol(f"the command {n} is not offered")
        o, h = clirun.run([n])
        if h == "ok" or o.strip():
            ctx.viol(f"pymap3d {n} without arguments: {h}, printed {o[:80]!r}")
    for argv in (["--ellipsoid", "nosuch", "geodetic2ecef", "1", "2", "3"], ["nosuch", "1"], [], ["--output", "xml", "geodetic2ecef", "1", "2", "3"],
                 ["--precision", "x", "geodetic2ecef", "1", "2", "3"], ["geodetic2ecef", "1", "2"], ["geodetic2ecef", "1", "2", "3", "4"],
                 ["geodetic2ecef", "a", "2", "3"], ["geodetic2ecef", "1", "2", "3", "--nosuch"],
                 ["ecef2body", "1", "2", "3", "4", "5", "6", "7", "8", "9", "--frame", "nosuch"],
                 ["body_matrix", "1", "2", "3", "--sequence", "xyz"], ["azel2radec", "1", "2", "95", "4", "2013-01-15", "--force-non-astropy"],
                 ["eci2ecef", "1", "2", "3", "notatime"]):
        o, h = clirun.run(argv)
        ctx.add(states=1, transitions=1)
        if h == "ok" or o.strip():
            ctx.viol(f"pymap3d {' '.join(argv)}: {h}, printed {o[:80]!r}")


def entry(ctx, py):
    """`python -m pymap3d` in a process of its own"""
    env = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": harness.SRC, "PYTHONDONTWRITEBYTECODE": "1", "HOME": harness.scratch(),
           "XDG_CONFIG_HOME": os.environ.get("XDG_CONFIG_HOME", ""), "XDG_CACHE_HOME": os.environ.get("XDG_CACHE_HOME", "")}
    for argv, name, args, ell in ((["geodetic2ecef", "42", "-82", "200"], "geodetic2ecef", (42.0, -82.0, 200.0), "wgs84"),
                                  (["--ellipsoid", "mars", "--output", "json", "ecef2geodetic", "-3e6", "1.5e6", "-1e-3"], "ecef2geodetic", (-3e6, 1.5e6, -1e-3), "mars"),
                                  (["--precision", "0", "aer2enu", "33", "70", "1000"], "aer2enu", (33.0, 70.0, 1000.0), "none")):
        r = subprocess.run([py, "-B", "-m", "pymap3d"] + argv, capture_output=True, text=True, env=env, cwd=harness.scratch(), timeout=120)
        ref = engine.remote("std" if "stdlib" in py else "noastro", [("pymap3d", name, args, {}, ell)])[0]
        judge(ctx, f"{py} -m pymap3d {' '.join(argv)}", r.stdout, "ok" if r.returncode == 0 else f"exit {r.returncode}", ref,
              {"output": "json" if "json" in argv else None, "precision": 0 if "--precision" in argv else None})
        ctx.add(states=1, transitions=1, traces=1)
    r = subprocess.run([py, "-B", "-m", "pymap3d", "geodetic2ecef", "42"], capture_output=True, text=True, env=env, cwd=harness.scratch(), timeout=120)
    if r.returncode == 0:
        ctx.viol(f"{py} -m pymap3d with missing arguments exits 0")


def tasks(tier):
    th = tier == "thorough"
    names = [s.name for s in SPECS]
    out = [("offered", offered, {}), ("ellipsoids", ellipsoids, {}), ("times", times, {"install": "full"}),
           ("times-noastro", times, {"install": "noastro", "_noastro": True}),
           ("entry", entry, {"py": engine.MAINPY}), ("entry-std", entry, {"py": engine.STDPY})]
    for i in ("full", "noastro", "std"):
        out.append((f"extras-{i}", extras, {"install": i, **({"_noastro": True} if i == "noastro" else {})}))
    # quick: single deviations of the arguments and pairs of configuration changes at the base tuple
    few = ELLS if th else ELLS[:4]
    step = 12
    for i in range(step):
        part = names[i::step]
        out.append((f"full-{i}", command, {"names": part, "d": 1, "cfg_d": 3 if th else 2, "install": "full", "allcfg": th, "ells": few}))
        out.append((f"std-{i}", command, {"names": part, "d": 1, "cfg_d": 3 if th else 1, "install": "std", "allcfg": th, "ells": few}))
    for i in range(4):
        out += [(f"numbers-{k}-{i}", numbers, {"install": k, "names": names[i::4], "every": th}) for k in ("full", "std")]
    for i in range(2):
        out += [(f"lists-{k}-{i}", lists, {"install": k, "names": names[i::2]}) for k in ("full", "std")]
    for i in range(4):
        out.append((f"noastro-{i}", command, {"names": [n for n in names if "eci" in n or "radec" in n or "sidereal" in n][i::4],
                                              "d": 1, "cfg_d": 2 if th else 1, "install": "noastro", "_noastro": True, "ells": few}))
    return out
