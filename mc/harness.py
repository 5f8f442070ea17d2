"""Task scheduling, evidence, violations and known findings."""
from __future__ import annotations

import argparse
import atexit
import hashlib
import importlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

SCRATCH = None


def scratch() -> str:
    """private directory of this run, removed at exit of the process that made it"""
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="mc-")
        owner = os.getpid()

        def _rm(path=SCRATCH):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(_rm)
    return SCRATCH


class _Block:
    """an installation without Astropy"""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in ("astropy", "erfa"):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def load_library():
    """import pymap3d from /repo's working tree, never from a stale bytecode cache"""
    d = scratch()
    for k, sub in (("XDG_CONFIG_HOME", "xc"), ("XDG_CACHE_HOME", "xk")):
        p = os.path.join(d, sub)
        os.makedirs(os.path.join(p, "astropy"), exist_ok=True)
        os.environ[k] = p
    with open(os.path.join(d, "xc", "astropy", "astropy.cfg"), "w") as fh:
        fh.write("[utils.iers.iers]\nauto_download = False\niers_degraded_accuracy = warn\n")
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    import numpy  # noqa: F401
    if os.environ.get("MC_NOASTRO") == "1":
        sys.meta_path.insert(0, _Block())
    try:
        import astropy.units  # noqa: F401
        import astropy.coordinates  # noqa: F401
        import astropy.time  # noqa: F401
        from astropy.utils import iers
        iers.conf.auto_download = False
        iers.conf.auto_max_age = None
    except ImportError:
        pass
    if os.environ.get("MC_LEAN") != "1":
        try:
            import pyproj  # noqa: F401
        except ImportError:
            pass
    warnings.simplefilter("ignore")
    numpy.seterr(all="ignore")
    old = sys.pycache_prefix
    sys.pycache_prefix = os.path.join(d, "pyc")
    if sys.path[0] != SRC:
        sys.path.insert(0, SRC)
    import pymap3d
    mods = ["_dummy", "_typing", "aer", "azelradec", "body", "dca", "earth_orientation", "ecef", "eci", "ellipsoid",
            "enu", "frames", "haversine", "karney", "latitude", "los", "lox", "mathfun", "ned", "nvector", "nwu",
            "rcurve", "rsphere", "sez", "sidereal", "spherical", "timeconv", "utils", "vallado", "vincenty"]
    for m in mods:
        try:
            importlib.import_module("pymap3d." + m)
        except ModuleNotFoundError as e:
            if e.name != "pymap3d." + m:   # private modules may be reorganised
                raise
    sys.pycache_prefix = old
    f = os.path.realpath(pymap3d.__file__)
    assert f.startswith(os.path.realpath(SRC) + os.sep), f
    return pymap3d


class Ctx:
    """what one task explored and found"""

    MAXV = 12

    def __init__(self, prop, tier, seed, label):
        self.prop, self.tier, self.seed, self.label = prop, tier, seed, label
        self.thorough = tier == "thorough"
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.known = {}
        self.assumptions = []
        self.extra = {}

    def add(self, states=0, transitions=0, traces=0):
        self.states += int(states)
        self.transitions += int(transitions)
        self.traces += int(traces)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + int(n)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def viol(self, msg, **detail):
        self.nviol += 1
        if len(self.violations) < self.MAXV:
            self.violations.append({"msg": msg, "detail": {k: _plain(v) for k, v in detail.items()}})

    def know(self, kid, what):
        k = self.known.setdefault(kid, {"n": 0, "what": what})
        k["n"] += 1

    def dump(self):
        return {k: getattr(self, k) for k in ("label", "states", "transitions", "traces", "samples", "violations",
                                              "nviol", "known", "extra")}


def _plain(v):
    try:
        import numpy as np
        if isinstance(v, np.ndarray):
            v = v.tolist() if v.size <= 50 else {"shape": list(v.shape), "head": v.ravel()[:20].tolist()}
        elif isinstance(v, np.generic):
            v = v.item()
    except Exception:  # pragma: no cover
        pass
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def load_known():
    """{(property, finding id): text}; lines `finding: property=Cxx id=KFn <what fails>`"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("finding:"):
                parts = ln.split(None, 3)
                d = dict(x.split("=", 1) for x in parts[1:3])
                out[(d["property"], d["id"])] = parts[3].strip()
    return out


def _child(fn, kwargs, prop, tier, seed, label, path):
    ctx = Ctx(prop, tier, seed, label)
    if kwargs.get("_noastro") and os.environ.get("MC_NOASTRO") != "1":
        # a fresh interpreter in which Astropy cannot be imported
        with open(path + ".in", "wb") as fh:
            pickle.dump((fn.__module__, fn.__name__, kwargs, prop, tier, seed, label, path), fh)
        os.execve(sys.executable, [sys.executable, "-B", os.path.join(HERE, "noastro.py"), path + ".in"],
                  dict(os.environ, MC_NOASTRO="1", **({"MC_LEAN": "1"} if kwargs.get("_lean") else {})))
    kwargs = {k: v for k, v in kwargs.items() if k not in ("_noastro", "_lean")}
    try:
        fn(ctx, **kwargs)
    except BaseException as e:  # noqa: BLE001
        tb = traceback.format_exc()
        ctx.viol(f"unexpected {type(e).__name__}: {e}", traceback=tb[-3000:])
    with open(path + ".tmp", "wb") as fh:
        pickle.dump(ctx.dump(), fh)
    os.rename(path + ".tmp", path)


def run_tasks(prop, tasks, tier, seed, jobs, timeout):
    """each task in its own forked process; a crash or a hang is a violation"""
    d = scratch()
    pend = list(enumerate(tasks))
    live = {}
    res = {}
    while pend or live:
        while pend and len(live) < jobs:
            i, (label, fn, kw) = pend.pop(0)
            path = os.path.join(d, f"task{i}.pkl")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setsid()
                    _child(fn, kw, prop, tier, seed, label, path)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 3
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            live[pid] = (i, label, path, time.time())
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, (i, label, path, t0) in list(live.items()):
                if now - t0 > timeout:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except ProcessLookupError:
                        os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    del live[p]
                    c = Ctx(prop, tier, seed, label)
                    c.viol(f"no result after {timeout} s: a call does not terminate")
                    res[i] = c.dump()
            time.sleep(0.005)
            continue
        if pid not in live:
            continue
        i, label, path, t0 = live.pop(pid)
        if os.path.exists(path):
            with open(path, "rb") as fh:
                res[i] = pickle.load(fh)
            os.unlink(path)
            res[i]["wall"] = round(time.time() - t0, 2)
        else:
            c = Ctx(prop, tier, seed, label)
            c.viol(f"the exploring process died (status {status})")
            res[i] = c.dump()
    return [res[i] for i in range(len(tasks))]


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--task", default=None, help="run only the tasks whose label contains this text")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from levels import LEVELS
    prop = a.prop
    technique, level, note = LEVELS.get(prop, ("", "model_checking", ""))
    try:
        load_library()
        sys.pycache_prefix = os.path.join(scratch(), "pyc2")
        mod = importlib.import_module("checks." + prop.lower())
        tasks = mod.tasks(a.tier)
        if a.task:
            tasks = [t for t in tasks if a.task in t[0]]
        timeout = getattr(mod, "TIMEOUT", 300) if a.tier == "quick" else 3600
        results = run_tasks(prop, tasks, a.tier, seed, a.jobs, timeout)
    except Exception as e:  # the library cannot even be loaded or driven
        c = Ctx(prop, a.tier, seed, "load")
        c.viol(f"the library cannot be loaded and driven: {type(e).__name__}: {e}", traceback=traceback.format_exc()[-3000:])
        results = [c.dump()]
        mod = None
    known_file = load_known()
    viols, known, extra, samples = [], {}, {}, []
    states = transitions = traces = nviol = 0
    for r in results:
        states += r["states"]
        transitions += r["transitions"]
        traces += r["traces"]
        for k, v in r["extra"].items():
            extra[k] = max(extra.get(k, 0), v) if k.startswith("worst") else extra.get(k, 0) + v
        if len(samples) < 6:
            samples += [{"task": r["label"], "case": _plain(s)} for s in r["samples"][:1]]
        for kid, kv in r["known"].items():
            if (prop, kid) in known_file:
                k = known.setdefault(kid, {"n": 0})
                k["n"] += kv["n"]
            else:
                viols.append((r["label"], {"msg": kv["what"], "detail": {}}))
                nviol += kv["n"]
        nviol += r["nviol"]
        viols += [(r["label"], v) for v in r["violations"]]
        if a.v:
            print(f"  {r['label']}: states={r['states']} transitions={r['transitions']} traces={r['traces']} "
                  f"violations={r['nviol']} wall={r.get('wall')}")
    for kid in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {kid}: {known_file[(prop, kid)]} ({known[kid]['n']} cases of this run)")
    rp = None
    if viols:
        body = {"property": prop, "tier": a.tier, "seed": seed, "tasks": sorted({l for l, _ in viols}),
                "violations": [{"task": l, **v} for l, v in viols[:40]],
                "replay": f"python3 mc/replay.py <this file>"}
        txt = json.dumps(body, indent=1, default=repr)
        rd = os.path.join(ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{prop}-{hashlib.sha1(txt.encode()).hexdigest()[:10]}.json")
        with open(rp, "w") as fh:
            fh.write(txt + "\n")
        for l, v in viols[:12]:
            print(f"  [{l}] {v['msg']}")
            if a.v:
                print("      ", json.dumps(v["detail"], default=repr)[:2000])
    wall = time.time() - t0
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": level,
          "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": traces,
                       "samples": samples or [{"task": "none", "case": None}],
                       "exhaustive": not viols,
                       "explanation": (mod.__doc__ or "").strip() if mod else "", **extra},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
          "wall_s": round(wall, 3), "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{prop}.{os.getpid()}")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)
        fh.write("\n")
    os.rename(tmp, os.path.join(ROOT, "evidence", f"{prop}.json"))
    print(f"{prop} {a.tier}: states={states} transitions={transitions} traces={traces} violations={nviol} "
          f"known={sum(k['n'] for k in known.values())} wall={wall:.1f}s {extra if a.v else ''}")
    if viols:
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0
