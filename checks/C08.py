"""A circular orbit equals an eccentric orbit with zero eccentricity."""
from checks.common import *

TRUSTED = [KEPLER]


def same(tilt, ref, Om, sincos=False):
    def h(c):
        P = c.real("period", 0, nice=(1., 8.))
        ms = c.real("m_star", 0, nice=(.5, 2.))
        rs = c.real("r_star", 0, nice=(.5, 2.))
        mp = c.real("m_planet", 0, nice=(.01, .5), strict=False)
        kw = dict(period=c.tensor(P), m_star=c.tensor(ms), r_star=c.tensor(rs), m_planet=c.tensor(mp))
        if Om:
            kw["Omega"] = c.tensor(c.angle("Omega"))
        a = c.cbrt(G(c) * (ms + mp) * P ** 2 / (4 * c.pi ** 2))
        if tilt == "b":
            b = c.real("b", nice=(-.9, .9))
            c.assume(b * rs < a)
            c.assume(b * rs > -a)
            kw["b"] = c.tensor(b)
        elif tilt == "incl":
            i = c.angle("incl", 0, 1)
            kw["incl"] = c.tensor(i)
        w = c.angle("omega")
        if ref == "t0":
            kw["t0"] = c.tensor(c.real("t0", nice=(-3., 3.)))
        circ = KeplerianOrbit(**kw)
        if sincos:
            ek = dict(sin_omega=c.tensor(c.sin(w)), cos_omega=c.tensor(c.cos(w)))
        else:
            ek = dict(omega=c.tensor(w))
        zero = KeplerianOrbit(ecc=c.tensor(c.num(0)), **ek, **kw)
        T = c.tensor(c.real("t", nice=(-4., 9.)))
        for k in ("position", "velocity", "acceleration"):
            for b in ("star", "planet", "relative"):
                g1, g2 = [c.ev(list(getattr(o, "get_%s_%s" % (b, k))(T))) for o in (circ, zero)]
                vec(c, "%s %s" % (b, k), g1, g2)
        c.eq("rv", c.ev(circ.get_radial_velocity(T)), c.ev(zero.get_radial_velocity(T)))
        K = c.tensor(c.real("K", nice=(1., 50.)))
        for at in ("b", "incl", "cos_incl", "sin_incl", "a", "period", "rho_star", "t0", "dcosidb"):
            c.eq(at, c.ev(getattr(circ, at)), c.ev(getattr(zero, at)))
        # with K given the phase is measured from the transit in both
        if ref == "t0" or ref is None:
            v = c.ev(circ.get_radial_velocity(T, K=K))
            c.eq("rv K", v, c.ev(zero.get_radial_velocity(T, K=K)))
    return h


F = ORBIT_FNS + ["all getters of KeplerianOrbit, circular and eccentric branches"]
B = "all reals: period, m_star, r_star > 0, m_planet >= 0, omega, Omega, b or incl, t, t0"
HARNESSES = [
    dict(name="b", fn=same("b", "t0", True), functions=F, bounds=B),
    dict(name="b-sincos", fn=same("b", "t0", False, True), functions=F, bounds=B),
    dict(name="incl", fn=same("incl", "t0", True), functions=F, bounds=B),
    dict(name="edge-on", fn=same(None, None, False), functions=F, bounds=B),
]
