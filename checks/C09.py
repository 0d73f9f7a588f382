"""Swapping primary and secondary gives the same motion."""
from checks.common import *

TRUSTED = [KEPLER]


def flip(ecc, tilt, Om, ref="t0", par="stellar", sincos=False):
    def h(c):
        P = c.real("period", 0, nice=(1., 8.))
        mp = c.real("m_planet", 0, nice=(.01, .5))
        rp = c.real("r_planet", 0, nice=(.05, .5))
        rs = c.real("r_star", 0, nice=(.5, 2.))
        kw = dict(period=c.tensor(P), r_star=c.tensor(rs), m_planet=c.tensor(mp))
        if par == "stellar":
            ms = c.real("m_star", 0, nice=(.5, 2.))
            kw["m_star"] = c.tensor(ms)
            a = c.cbrt(G(c) * (ms + mp) * P ** 2 / (4 * c.pi ** 2))
        else:
            a = c.real("a", 0, nice=(3., 20.))
            kw["a"] = c.tensor(a)
            ms = 4 * c.pi ** 2 * a ** 3 / (G(c) * P ** 2) - mp
            c.assume(ms > 0)
        if Om:
            kw["Omega"] = c.tensor(c.angle("Omega"))
        e, sw = c.num(0), c.num(0)
        if ecc:
            e = c.real("ecc", 0, 1, nice=(.05, .8))
            w = c.angle("omega")
            sw = c.sin(w)
            kw["ecc"] = c.tensor(e)
            if sincos:
                kw.update(sin_omega=c.tensor(sw), cos_omega=c.tensor(c.cos(w)))
            else:
                kw["omega"] = c.tensor(w)
        if tilt == "b":
            b = c.real("b", 0, nice=(0.1, .9))
            c.assume(b * rs * (1 + e * sw) < a * (1 - e * e))
            kw["b"] = c.tensor(b)
        else:
            kw["incl"] = c.tensor(c.angle("incl", 0, 1))
        kw[ref] = c.tensor(c.real("tref", nice=(-3., 3.)))
        orb = KeplerianOrbit(**kw)
        fl = orb._flip(c.tensor(rp))
        for x, y in (("period", "period"), ("incl", "incl"), ("m_star", "m_planet"), ("m_planet", "m_star"), ("a", "a"),
                     ("m_total", "m_total")):
            c.eq("%s -> %s" % (x, y), c.ev(getattr(fl, y)), c.ev(getattr(orb, x)))
        c.eq("r_star", c.ev(fl.r_star), rp)
        if ecc:
            c.eq("ecc", c.ev(fl.ecc), e)
        T = c.tensor(c.real("t", nice=(-4., 9.)))
        for k in ("position", "velocity", "acceleration"):
            o = {b: c.ev(list(getattr(orb, "get_%s_%s" % (b, k))(T))) for b in ("star", "planet", "relative")}
            f = {b: c.ev(list(getattr(fl, "get_%s_%s" % (b, k))(T))) for b in ("star", "planet", "relative")}
            vec(c, "planet %s is the star's" % k, f["planet"], o["star"])
            vec(c, "star %s is the planet's" % k, f["star"], o["planet"])
            vec(c, "relative %s is reversed" % k, f["relative"], [-v for v in o["relative"]])
    return h


F = ORBIT_FNS + ["_flip", "all getters of KeplerianOrbit"]
B = "all reals: period, m_star, m_planet, r_star, r_planet > 0, 0<=ecc<1, omega, Omega, b or incl, t; one planet"
HARNESSES = [
    dict(name="ecc-incl", fn=flip(True, "incl", True), functions=F, bounds=B),
    dict(name="ecc-b", fn=flip(True, "b", False), functions=F, bounds=B),
    dict(name="ecc-tp-sincos", fn=flip(True, "incl", True, "t_periastron", sincos=True), functions=F, bounds=B),
    dict(name="ecc-a", fn=flip(True, "incl", True, par="a"), functions=F, bounds=B + "; a and period given"),
    dict(name="circ-incl", fn=flip(False, "incl", True), functions=F, bounds=B),
    dict(name="circ-b", fn=flip(False, "b", False), functions=F, bounds=B),
    dict(name="circ-tp", fn=flip(False, "incl", True, "t_periastron"), functions=F, bounds=B),
    dict(name="circ-a", fn=flip(False, "b", True, par="a"), functions=F, bounds=B + "; a and period given"),
]
