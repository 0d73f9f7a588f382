"""Orbit and stellar parameters are mutually consistent."""
import itertools

from checks.common import *

NAMES = ("period", "a", "m_star", "r_star", "rho_star")


def accepted(p):
    given = set(p)
    if not given & {"a", "period"}:
        return False
    star = given & {"m_star", "r_star", "rho_star"}
    if {"a", "period"} <= given:
        return not (star & {"m_star", "rho_star"})
    return len(star) == 2 or star == set() or star == {"rho_star"}


PATTERNS = [p for k in range(6) for p in itertools.combinations(NAMES, k)]


def consistent(c, pat, n=1, mp="tensor", vec_star=False):
    """n planets (n=0: scalars)"""
    vals = {}
    nice = dict(period=(1., 8.), a=(3., 20.), m_star=(.5, 2.), r_star=(.5, 2.), rho_star=(.5, 3.))

    def new(nm, m):
        return [c.real("%s%d" % (nm, i), 0, nice=nice.get(nm, (.01, .3))) for i in range(m)] if m else \
            c.real(nm, 0, nice=nice.get(nm, (.01, .3)))
    kw = {}
    for nm in pat:
        m = n if nm in ("period", "a") or vec_star else 0
        vals[nm] = new(nm, m)
        kw[nm] = c.tensor(vals[nm])
    if mp == "tensor":
        vals["m_planet"] = new("m_planet", n)
        kw["m_planet"] = c.tensor(vals["m_planet"])
    elif mp == "none":
        kw["m_planet"] = None
    if {"a", "period"} <= set(pat):
        for i in range(max(n, 1)):
            g = (lambda x: x[i] if isinstance(x, list) else x)
            if "m_planet" in vals:
                c.assume(4 * c.pi ** 2 * g(vals["a"]) ** 3 > G(c) * g(vals["period"]) ** 2 * g(vals["m_planet"]))
    orb = KeplerianOrbit(**kw)
    at = ("a", "period", "m_star", "r_star", "rho_star", "m_planet", "m_total")
    out = dict(zip(at, c.ev([getattr(orb, k) for k in at])))
    for nm, v in vals.items():
        c.eq("echo." + nm, out[nm], v)
    if not set(pat) & {"r_star", "m_star"}:
        c.eq("default.r_star", out["r_star"] - 0, 1)
    if not set(pat) & {"rho_star", "m_star", "r_star"} and not {"a", "period"} <= set(pat):
        c.eq("default.m_star", out["m_star"] - 0, 1)
    shp = (n,) if n else ()
    for nm in ("a", "period"):
        c.shape(nm, out[nm], shp)
    b = {k: np.broadcast_to(v, shp) for k, v in out.items()}
    for idx in np.ndindex(shp):
        g = {k: v[idx] for k, v in b.items()}
        c.eq("total", g["m_total"], g["m_star"] + g["m_planet"])
        c.eq("kepler3", G(c) * g["m_total"] * g["period"] ** 2, 4 * c.pi ** 2 * g["a"] ** 3)
        c.eq("density", g["rho_star"] * 4 * c.pi * g["r_star"] ** 3, 3 * gcc(c) * g["m_star"])
        c.true("period>0", g["period"] > 0)
        c.true("a>0", g["a"] > 0)
        if mp != "tensor":
            c.eq("massless", g["m_planet"], 0)


def accept(n, mp="tensor", vec_star=False):
    def h(c):
        pats = [p for p in PATTERNS if accepted(p)]
        consistent(c, c.choice("pattern", pats), n, mp, vec_star)
    return h


def reject(c):
    for p in PATTERNS:
        if not accepted(p):
            kw = {nm: c.tensor(c.real("%s_%s" % (nm, "_".join(p)), 0)) for nm in p}
            c.raises("reject(%s)" % ",".join(p), ValueError, lambda: KeplerianOrbit(**kw))


B = "all positive reals; the 13 accepted presence patterns of (period, a, m_star, r_star, rho_star)"
F = ["KeplerianOrbit.__init__", "_get_consistent_inputs", "orbits.constants"]
HARNESSES = [
    dict(name="scalar", fn=accept(0), functions=F, bounds=B + "; scalar planet parameters"),
    dict(name="two-planets", fn=accept(2), functions=F, bounds=B + "; two planets with different parameters"),
    dict(name="two-planets-vector-star", fn=accept(2, vec_star=True), functions=F, bounds=B + "; per-planet stellar parameters"),
    dict(name="default-mass", fn=accept(1, "default"), functions=F, bounds=B + "; m_planet omitted"),
    dict(name="none-mass", fn=accept(1, "none"), functions=F, bounds=B + "; m_planet=None"),
    dict(name="reject", fn=reject, functions=F, bounds="all 19 other presence patterns"),
]
