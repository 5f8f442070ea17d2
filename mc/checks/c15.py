"""(1) Every catalogue entry against published constants (own table) and, for Earth, PROJ's list; (2) every pair of axes of a lattice
from sphere to disk, sizes from 1e-3 to 1e12: derived parameters against exact rational arithmetic; (3) all histories up to the depth
bound over {from_name, cache clearing, subclass, custom ellipsoid of the same name, conversions, unknown names}: after each history
every model has its catalogued axes and parameters.  State: (entry or axes) or (history, entry); transition: one construction."""
import itertools
import math
from fractions import Fraction as F


import engine

# published equatorial axis and inverse flattening or (axis, polar axis); metres
EARTH = {
    "maupertuis": (6397300.0, 191.0), "plessis": (6376523.0, 308.64), "everest1830": (6377299.365, 300.80172554), "everest1830m": (6377304.063, 300.8017),
    "everest1967": (6377298.556, 300.8017), "airy": (6377563.396, 299.3249646), "bessel": (6377397.155, 299.1528128), "clarke1866": (6378206.4, 294.9786982),
    "clarke1878": (6378190.0, 293.4659980), "clarke1860": (6378249.145, 293.465), "helmert": (6378200.0, 298.3), "hayford": (6378388.0, 297.0),
    "international1924": (6378388.0, 297.0), "krassovsky1940": (6378245.0, 298.3), "wgs66": (6378145.0, 298.25), "australian": (6378160.0, 298.25),
    "international1967": (6378157.5, 298.24961539), "grs67": (6378160.0, 298.247167427), "sa1969": (6378160.0, 298.25), "wgs72": (6378135.0, 298.26),
    "grs80": (6378137.0, 298.257222101), "wgs84": (6378137.0, 298.257223563), "iers1989": (6378136.0, 298.257), "pz90.11": (6378136.0, 298.25784),
    "iers2003": (6378136.6, 298.25642), "gsk2011": (6378136.5, 298.2564151), "wgs84_mean": (6371008.7714, math.inf),
}
# historic definitions are rounded in the sources; iers2003 is catalogued with b to 0.1 m
SLACK = {"plessis": 0.1, "clarke1860": 0.1, "iers2003": 0.2, "maupertuis": 1e-2, "pz90.11": 1e-3, "wgs66": 1e-2, "clarke1878": 0.05, "international1967": 1e-2}
EXACT = {"wgs84": 2e-4, "grs80": 1e-4, "wgs72": 1e-4}
PROJ = {"maupertuis": "mprts", "plessis": "plessis", "everest1830m": "evrst48", "everest1967": "evrstSS", "airy": "airy", "bessel": "bessel",
        "clarke1866": "clrk66", "clarke1860": "clrk80", "helmert": "helmert", "hayford": "intl", "international1924": "intl", "krassovsky1940": "krass",
        "australian": "aust_SA", "sa1969": "aust_SA", "grs67": "GRS67", "wgs72": "WGS72", "grs80": "GRS80", "wgs84": "WGS84", "gsk2011": "GSK2011",
        "pz90.11": "PZ90", "international1967": "new_intl"}
# NASA fact sheets: equatorial and polar radius (km)
BODIES = {"mercury": (2440.5, 2438.3), "venus": (6051.8, 6051.8), "moon": (1738.1, 1736.0), "mars": (3396.2, 3376.2), "jupiter": (71492, 66854),
          "jupyter": (71492, 66854), "io": (1829.7, 1815.8), "saturn": (60268, 54364), "uranus": (25559, 24973), "neptune": (24764, 24341),
          "pluto": (1188, 1188)}


def catalogue(ctx):
    import pymap3d
    import pyproj
    M = pymap3d.Ellipsoid.models
    ref = pyproj.get_ellps_map()
    for n in sorted(set(EARTH) | set(BODIES)):
        ctx.add(states=1, transitions=1, traces=1)
        if n not in M:
            ctx.viol(f"model {n} is missing")
            continue
        e = pymap3d.Ellipsoid.from_name(n)
        a, b = e.semimajor_axis, e.semiminor_axis
        if not (isinstance(M[n]["name"], str) and M[n]["name"] and a == M[n]["a"] and b == M[n]["b"] and e.model == n and e.name == M[n]["name"]):
            ctx.viol(f"from_name({n!r}) is {e}, catalogued {M[n]}")
        if n in EARTH:
            pa, rf = EARTH[n]
            pb = pa * (1 - 1 / rf)
            t = EXACT.get(n, SLACK.get(n, 2e-3))
            if not (abs(a - pa) < 1e-6 and abs(b - pb) <= t):
                ctx.viol(f"model {n}: axes {a}, {b}; published {pa}, {pb} (1/f = {rf})")
            if n in PROJ and n not in SLACK:
                p = ref[PROJ[n]]
                pb = p["b"] if "b" in p else p["a"] * (1 - 1 / p["rf"])
                if not (abs(a - p["a"]) < 1e-3 and abs(b - pb) <= max(t, 1e-3)):
                    ctx.viol(f"model {n}: axes {a}, {b}; PROJ has {p}")
        else:
            pa, pb = (v * 1000 for v in BODIES[n])
            if n == "io" and (a, b) == (1829.7, 1815.8):
                ctx.know("KF3", "model io has its axes in kilometres")
                continue
            if not (abs(a / pa - 1) < 2e-3 and abs(b / pb - 1) < 2e-3):
                ctx.viol(f"model {n}: axes {a}, {b}; published {pa}, {pb}")
    for n, m in M.items():
        ctx.add(states=1)
        if not (m["a"] >= m["b"] > 0 and math.isfinite(m["a"])):
            ctx.viol(f"model {n} is not oblate: {m}")
    if M["jupyter"] != M["jupiter"]:
        ctx.viol("jupyter differs from jupiter")
    if pymap3d.Ellipsoid.from_name("wgs84").flattening is None or abs(1 / pymap3d.Ellipsoid.from_name("wgs84").flattening - 298.257223563) > 3e-9:
        ctx.viol("WGS84's inverse flattening is not 298.257223563")
    ctx.sample({"models": len(M)})


def isqrt(x, bits=200):
    """square root of a non-negative Fraction to `bits` bits"""
    n = (x.numerator << (2 * bits)) // x.denominator
    return F(math.isqrt(n), 1 << bits)


def params_ok(a, b, f, n, e):
    """errors in units of the last place of each parameter"""
    fa, fb = F(a), F(b)
    out = []
    for got, want in ((f, (fa - fb) / fa), (n, (fa - fb) / (fa + fb))):
        w = float(want)
        out.append(float(abs(F(got) - want)) / max(math.ulp(w), 5e-324))
    e2 = (fa * fa - fb * fb) / (fa * fa)
    w = isqrt(e2)
    out.append(float(abs(F(e) - w)) / max(math.ulp(float(w)), 5e-324))
    return out


RATIO = [0.0, 2.0 ** -52, 1e-15, 1e-13, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1 / 300, 1 / 298.257223563, 1 / 150, 0.01, 1 / 50, 0.05, 1 / 15, 0.1, 0.25,
         1 / 3, 0.5, 0.6, 0.75, 0.9, 0.99, 0.999999, 1.0]
SIZE = [1e-3, 0.5, 1.0, 3.0, 1000.0, 1829.7, 1e5, 2440500.0, 6371008.7714, 6378136.3, 6378137.0, 6378249.145, 6378388.0, 7.1492e7, 6.96e8, 1e12]


def axes(ctx, std, extra):
    """derived parameters against exact arithmetic"""
    import pymap3d
    pairs = [(a, a * (1 - r)) for a in SIZE for r in RATIO] + [(float(a), float(b)) for a in SIZE for b in (a - 1e-3 * a, math.nextafter(a, 0)) if b <= a]
    pairs += [(m["a"], m["b"]) for m in pymap3d.Ellipsoid.models.values()]
    if extra:
        pairs += [(a * (1 + k * 1e-3), a * (1 + k * 1e-3) * (1 - r * j / 7)) for a in SIZE for k in range(1, 12) for r in RATIO for j in range(1, 8)]
    pairs += [(6378137, 6356752), (1000, 900), (7, 7)]          # integers
    if std:
        got = engine.remote("std", [("importlib_probe", "ellipsoid", (a, b), {}, "none") for a, b in pairs])
    for i, (a, b) in enumerate(pairs):
        E = pymap3d.Ellipsoid(a, b)
        p = (E.semimajor_axis, E.semiminor_axis, E.flattening, E.thirdflattening, E.eccentricity)
        ctx.add(states=1, transitions=1, traces=1)
        if std and tuple(got[i]) != p:
            ctx.viol(f"Ellipsoid({a}, {b}) without NumPy has {got[i]}, with NumPy {p}")
        if p[:2] != (a, b):
            ctx.viol(f"Ellipsoid({a}, {b}) has axes {p[:2]}")
            continue
        q = params_ok(a, b, *p[2:])
        # e = sqrt(2f - f^2) passes the rounding of f on
        lim = (3, 3, 8)
        for w, v, L in zip(("flattening", "thirdflattening", "eccentricity"), q, lim):
            ctx.extra["worst_ulp"] = max(ctx.extra.get("worst_ulp", 0), round(v, 2))
            if not v <= L:
                ctx.viol(f"Ellipsoid({a}, {b}).{w} = {getattr(E, w)!r} is off by {v:.3g} units of the last place")
        # mutual identities of the three parameters
        f, n, e = p[2:]
        if f < 0.9 and not (abs(n - f / (2 - f)) <= 4e-16 * n + 1e-320 and abs(e * e - f * (2 - f)) <= 2e-15 * e * e + 1e-320):
            ctx.viol(f"Ellipsoid({a}, {b}): flattening {f}, thirdflattening {n}, eccentricity {e} contradict each other")
        # given parameters are kept
        G = pymap3d.Ellipsoid(a, b, name="N", model="M", flattening=f, thirdflattening=n, eccentricity=e)
        H = pymap3d.Ellipsoid(a, b, "N", "M", f, n, e)
        if (G.flattening, G.thirdflattening, G.eccentricity, G.name, G.model) != (f, n, e, "N", "M") or G != H:
            ctx.viol(f"Ellipsoid({a}, {b}, ...) does not keep the given parameters: {G}, {H}")
    ctx.sample({"axes": pairs[len(pairs) // 2]})


def history(ctx, depth, part, parts):
    """construction histories; the references were taken before any of them"""
    import pymap3d
    import pymap3d.ellipsoid as EM
    E = pymap3d.Ellipsoid
    cat = {n: (m["a"], m["b"], m["name"]) for n, m in E.models.items()}
    par = {n: E(a, b, name=t, model=n) for n, (a, b, t) in cat.items()}
    snap = {n: dict(m) for n, m in E.models.items()}

    class Sub(E):
        pass

    wrong = {w for n in cat for w in (n.upper(), n.title(), n.capitalize(), n.swapcase(), " " + n, n + " ", n[:-1], n[1:], n + n, n + "0", n.replace("-", "_"),
                                      n.replace("_", "-"), cat[n][2], cat[n][2].lower(), "".join(c for c in n if c.isalpha()))} - set(cat)
    wrong |= {"", "no such model", "default", "none", "None", "earth", "Earth", "wgs", "84"} - set(cat)
    wrong = sorted(wrong)

    def unknown():
        for w in wrong:
            for c in (E, Sub):
                try:
                    got = c.from_name(w)
                except KeyError:
                    continue
                ctx.viol(f"from_name({w!r}) of an unknown model raises no KeyError but gives {got}")
                return

    acts = {"wgs84": lambda: E.from_name("wgs84"), "mars": lambda: E.from_name("mars"), "clear": EM.clear_ellipsoid_caches, "sub": lambda: Sub.from_name("wgs84"),
            "sub-mars": lambda: Sub.from_name("mars"), "custom": lambda: E(7e6, 6.9e6, name="WGS-84 (1984)", model="wgs84"),
            "custom-mars": lambda: E(1000.0, 900.0, name="Mars", model="mars"), "unknown": unknown, "use": lambda: pymap3d.geodetic2ecef(1.0, 2.0, 3.0),
            "use-mars": lambda: pymap3d.geodetic2ecef(1.0, 2.0, 3.0, E.from_name("mars")), "default": lambda: EM.resolve_ellipsoid(None),
            "geodesic": lambda: pymap3d.karney.geodesic_inverse(1.0, 2.0, 3.0, 4.0, ell=E.from_name("mars")),
            "custom geodesic": lambda: pymap3d.karney.geodesic_inverse(1.0, 2.0, 3.0, 4.0, ell=E(3396900.0, 3376000.0, model="mars"))}
    import pymap3d.karney  # noqa: F401
    for k in range(1, depth + 1):
        for i, h in enumerate(itertools.product(acts, repeat=k)):
            if i % parts != part:
                continue
            for a in h:
                acts[a]()
            ctx.add(states=1, transitions=k, traces=1)
            for n in (("wgs84", "mars") if k > 1 else cat):
                e = E.from_name(n)
                s = Sub.from_name(n)
                for o in (e, s):
                    if (o.semimajor_axis, o.semiminor_axis, o.flattening, o.thirdflattening, o.eccentricity, o.name, o.model) != (
                            par[n].semimajor_axis, par[n].semiminor_axis, par[n].flattening, par[n].thirdflattening, par[n].eccentricity, cat[n][2], n):
                        ctx.viol(f"after {h}: from_name({n!r}) of {type(o).__name__} is {o}")
                if type(e) is not E or type(s) is not Sub:
                    ctx.viol(f"after {h}: from_name({n!r}) gives {type(e).__name__} and {type(s).__name__}")
            d = EM.resolve_ellipsoid(None)
            if (d.semimajor_axis, d.semiminor_axis) != cat["wgs84"][:2]:
                ctx.viol(f"after {h}: the default ellipsoid is {d}")
    if {n: dict(m) for n, m in E.models.items()} != snap:
        ctx.viol("the catalogue was changed")


def tasks(tier):
    th = tier == "thorough"
    out = [("catalogue", catalogue, {}), ("axes", axes, {"std": False, "extra": th}), ("axes-std", axes, {"std": True, "extra": th})]
    parts = 8 if th else 2
    out += [(f"history-{i}", history, {"depth": 5 if th else 3, "part": i, "parts": parts}) for i in range(parts)]
    return out


