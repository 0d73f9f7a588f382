"""Accelerations are velocity derivatives and obey Newtonian gravity."""
from checks.common import *
from checks.C04 import setup, scales

TRUSTED = [KEPLER]


def acceleration(**opts):
    def h(c):
        orb, s, ms, mp, tp = setup(c, **opts)
        t, E = c.kepler_time("E", s.P, s.e, tp, rng=None)
        T = c.tensor(t)
        sc = scales(ms, mp)
        for body in sc:
            got = c.ev(list(getattr(orb, "get_%s_acceleration" % body)(T)))
            vec(c, body, got, s.acc(E, sc[body]), atol=1e-10)
            if c.mode == "sym" and opts.get("par", "a+period") == "a+period":
                vel = c.ev(list(getattr(orb, "get_%s_velocity" % body)(T)))
                Edot = 2 * c.pi / s.P / (1 - s.e * c.cos(E))
                for n, v, g in zip("xyz", vel, got):
                    c.lemma("d/dt of the returned %s velocity %s" % (body, n), c.diff(v.item(), E) * Edot == g.item())
            if body == "relative":
                x = [v.item() for v in c.ev(list(orb.get_relative_position(T)))]
                # |r| = a (1 - e cos E) is itself checked
                d = s.a * (1 - s.e * c.cos(E))
                c.eq("|r|", x[0] ** 2 + x[1] ** 2 + x[2] ** 2, d ** 2)
                for k in range(3):
                    c.eq("newton.%s" % "xyz"[k], got[k].item() * d ** 3, -G(c) * (ms + mp) * x[k], atol=1e-7)
    return h


F = ORBIT_FNS + ["_get_acceleration", "get_planet_acceleration", "get_star_acceleration", "get_relative_acceleration",
                 "_get_velocity"]
B = "all reals: period, a > 0, m_planet >= 0 (below the total mass), 0<=ecc<1, omega, Omega, incl, t; one planet"
HARNESSES = [
    dict(name="ecc", fn=acceleration(), functions=F, bounds=B),
    dict(name="ecc-noOmega", fn=acceleration(Om=False), functions=F, bounds=B),
    dict(name="circ", fn=acceleration(ecc=False), functions=F, bounds=B),
    dict(name="circ-edge-on", fn=acceleration(ecc=False, Om=False, tilt=None), functions=F, bounds=B),
    dict(name="ecc-stellar", fn=acceleration(par="stellar"), functions=F, bounds=B + "; m_star, r_star given"),
    dict(name="ecc-a-stellar", fn=acceleration(par="a+stellar"), functions=F, bounds=B + "; a, m_star, r_star given"),
    dict(name="circ-stellar", fn=acceleration(ecc=False, par="stellar"), functions=F, bounds=B + "; m_star, r_star given"),
    dict(name="ecc-massless", fn=acceleration(mass="default"), functions=F, bounds=B + "; massless planet"),
    dict(name="circ-massless", fn=acceleration(ecc=False, mass="zero"), functions=F, bounds=B + "; massless planet"),
]
