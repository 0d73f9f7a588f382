"""Velocities are the exact time derivatives of positions."""
from checks.common import *

TRUSTED = [KEPLER]


def setup(c, ecc=True, Om=True, par="a+period", mass="sym", tilt="incl"):
    """an orbit with a planet of arbitrary mass; returns (orbit, spec, m_star, m_planet, t_periastron)"""
    P = c.real("period", 0, nice=(1., 8.))
    kw = {"period": c.tensor(P)}
    if mass == "sym":
        mp = c.real("m_planet", 0, nice=(.01, .5), strict=False)
        kw["m_planet"] = c.tensor(mp)
    elif mass == "default":
        mp = c.num(0)
    else:
        mp = c.num(0)
        kw["m_planet"] = c.tensor(0.0)
    if par == "a+period":
        a = c.real("a", 0, nice=(3., 20.))
        kw["a"] = c.tensor(a)
        mt = 4 * c.pi ** 2 * a ** 3 / (G(c) * P ** 2)
        c.assume(mt > mp)
        ms = mt - mp
    elif par == "stellar":
        ms = c.real("m_star", 0, nice=(.5, 2.))
        rs = c.real("r_star", 0, nice=(.5, 2.))
        kw.update(m_star=c.tensor(ms), r_star=c.tensor(rs))
        a = c.cbrt(G(c) * (ms + mp) * P ** 2 / (4 * c.pi ** 2))
    elif par == "a+stellar":
        del kw["period"]
        a = c.real("a", 0, nice=(3., 20.))
        ms = c.real("m_star", 0, nice=(.5, 2.))
        rs = c.real("r_star", 0, nice=(.5, 2.))
        kw.update(m_star=c.tensor(ms), r_star=c.tensor(rs), a=c.tensor(a))
        P = 2 * c.pi * c.sqrt(a ** 3 / (G(c) * (ms + mp)))
    else:
        ms = c.num(1)
        a = c.cbrt(G(c) * (ms + mp) * P ** 2 / (4 * c.pi ** 2))
    e = w = O = None
    if ecc:
        e = c.real("ecc", 0, 1, nice=(.05, .8))
        w = c.angle("omega")
        kw.update(ecc=c.tensor(e), omega=c.tensor(w))
    if Om:
        O = c.angle("Omega")
        kw.update(Omega=c.tensor(O))
    ci, si = c.num(0), c.num(1)
    if tilt == "incl":
        i = c.angle("incl", 0, 1)
        kw["incl"] = c.tensor(i)
        ci, si = c.cos(i), c.sin(i)
    tp = c.real("tp", nice=(-3., 3.))
    kw["t_periastron"] = c.tensor(tp)
    orb = KeplerianOrbit(**kw)
    return orb, Spec(c, a, P, e, w, ci, si, O), ms, mp, tp


def scales(ms, mp):
    return {"relative": -1, "planet": -ms / (ms + mp), "star": mp / (ms + mp)}


def velocity(**opts):
    def h(c):
        orb, s, ms, mp, tp = setup(c, **opts)
        t, E = c.kepler_time("E", s.P, s.e, tp, rng=None)
        T = c.tensor(t)
        sc = scales(ms, mp)
        for body in sc:
            got = c.ev(list(getattr(orb, "get_%s_velocity" % body)(T)))
            want = s.vel(E, sc[body])
            vec(c, body, got, want)
            if c.mode == "sym" and opts.get("par", "a+period") == "a+period":
                # d/dt = (dE/dt) d/dE, dE/dt = n / (1 - e cos E), applied to the position the code returns
                pos = c.ev(list(getattr(orb, "get_%s_position" % body)(T)))
                Edot = 2 * c.pi / s.P / (1 - s.e * c.cos(E))
                for n, p, g in zip("xyz", pos, got):
                    c.lemma("d/dt of the returned %s.%s" % (body, n), c.diff(p.item(), E) * Edot == g.item())
    return h


F = ORBIT_FNS + ["_get_velocity", "get_planet_velocity", "get_star_velocity", "get_relative_velocity", "_get_position"]
B = "all reals: period, a > 0, m_planet >= 0 (below the total mass), 0<=ecc<1, omega, Omega, incl, t; one planet"
HARNESSES = [
    dict(name="ecc", fn=velocity(), functions=F, bounds=B),
    dict(name="ecc-noOmega", fn=velocity(Om=False), functions=F, bounds=B),
    dict(name="circ", fn=velocity(ecc=False), functions=F, bounds=B),
    dict(name="circ-edge-on", fn=velocity(ecc=False, Om=False, tilt=None), functions=F, bounds=B),
    dict(name="ecc-stellar", fn=velocity(par="stellar"), functions=F, bounds=B + "; m_star, r_star given"),
    dict(name="ecc-a-stellar", fn=velocity(par="a+stellar"), functions=F, bounds=B + "; a, m_star, r_star given"),
    dict(name="circ-stellar", fn=velocity(ecc=False, par="stellar"), functions=F, bounds=B + "; m_star, r_star given"),
    dict(name="ecc-sun-massless", fn=velocity(par="sun", mass="default"), functions=F, bounds=B + "; defaults, massless"),
    dict(name="circ-massless", fn=velocity(ecc=False, mass="zero"), functions=F, bounds=B + "; massless planet"),
]
