"""Star and planet move about a fixed barycentre."""
from checks.common import *
from checks.C04 import setup

TRUSTED = [KEPLER]
KINDS = ("position", "velocity", "acceleration")


def barycentre(**opts):
    def h(c):
        orb, s, ms, mp, tp = setup(c, **opts)
        t = c.real("t", nice=(-4., 9.))
        T = c.tensor(t)
        c.eq("m_star", c.ev(orb.m_star), ms)
        c.eq("m_planet", c.ev(orb.m_planet), mp)
        for k in KINDS:
            st, pl, re = [c.ev(list(getattr(orb, "get_%s_%s" % (b, k))(T))) for b in ("star", "planet", "relative")]
            for n, a, b, r in zip("xyz", st, pl, re):
                a, b, r = a.item(), b.item(), r.item()
                c.eq("barycentre %s.%s" % (k, n), ms * a + mp * b, 0, atol=1e-6)
                c.eq("relative %s.%s" % (k, n), r, b - a)
    return h


def split(ecc):
    """the same a and period with the mass split differently"""
    def h(c):
        orb, s, ms, mp, tp = setup(c, ecc=ecc)
        m2 = c.real("m_planet2", 0, nice=(.01, .5), strict=False)
        c.assume(ms + mp > m2)
        kw = dict(ecc=orb.ecc, omega=orb.omega) if ecc else {}
        o2 = KeplerianOrbit(period=orb.period, a=orb.a, incl=orb.incl, Omega=orb.Omega,
                            t_periastron=orb.t_periastron, m_planet=c.tensor(m2), **kw)
        c.eq("m_total", c.ev(o2.m_total), ms + mp)
        T = c.tensor(c.real("t", nice=(-4., 9.)))
        for k in KINDS:
            g1, g2 = [c.ev(list(getattr(o, "get_relative_%s" % k)(T))) for o in (orb, o2)]
            vec(c, "split %s" % k, g1, g2)
    return h


F = ORBIT_FNS + ["get_{star,planet,relative}_{position,velocity,acceleration}"]
B = "all reals: period, a > 0, m_planet >= 0 (below the total mass), 0<=ecc<1, omega, Omega, incl, t; one planet"
HARNESSES = [
    dict(name="ecc", fn=barycentre(), functions=F, bounds=B),
    dict(name="circ", fn=barycentre(ecc=False), functions=F, bounds=B),
    dict(name="ecc-stellar", fn=barycentre(par="stellar"), functions=F, bounds=B + "; m_star, r_star given"),
    dict(name="ecc-a-stellar", fn=barycentre(par="a+stellar"), functions=F, bounds=B + "; a, m_star, r_star given"),
    dict(name="circ-stellar", fn=barycentre(ecc=False, par="stellar"), functions=F, bounds=B + "; m_star, r_star given"),
    dict(name="split-ecc", fn=split(True), functions=F, bounds=B),
    dict(name="split-circ", fn=split(False), functions=F, bounds=B),
]
