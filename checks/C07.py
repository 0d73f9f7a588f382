"""Radial velocity: sign, units and amplitude conventions hold everywhere."""
from astropy import units as u

from checks.common import *
from checks.C04 import setup

TRUSTED = [KEPLER]
UNITS = {"m/s": (u.m / u.s, 1.0), "km/s": (u.km / u.s, 1e-3), "cm/s": (u.cm / u.s, 100.0),
         "R_sun/day": (u.R_sun / u.day, DAY / R_SUN), "au/yr": (u.au / u.yr, 365.25 * DAY / AU)}
for _n in UNITS:
    register_named("RV " + _n, R_SUN / DAY * UNITS[_n][1])


def physical(**opts):
    def h(c):
        orb, s, ms, mp, tp = setup(c, **opts)
        t, E = c.kepler_time("E", s.P, s.e, tp, rng=None)
        T = c.tensor(t)
        # line-of-sight velocity of the star, positive towards the observer
        vz = s.vel(E, mp / (ms + mp))[2]
        conv = c.const("RV m/s", R_SUN / DAY)
        c.eq("default units", c.ev(orb.get_radial_velocity(T)), -conv * vz)
        v = c.ev(orb.get_star_velocity(T)[2]).item()
        c.eq("minus v_z", c.ev(orb.get_radial_velocity(T)), -conv * v)
        for n, (unit, f) in UNITS.items():
            c.eq(n, c.ev(orb.get_radial_velocity(T, output_units=unit)), -c.const("RV " + n, R_SUN / DAY * f) * vz)
        # semi-amplitude
        K = 2 * c.pi * s.a * mp / (ms + mp) * s.si / (s.P * s.q)
        c.eq("K physical", c.ev(orb.get_radial_velocity(T, K=c.tensor(K * conv))), -conv * vz)
    return h


def given_K(ecc):
    def h(c):
        orb, s, ms, mp, tp = setup(c, ecc=ecc)
        K = c.real("K", nice=(-20., 50.))
        t, E = c.kepler_time("E", s.P, s.e, tp, rng=None)
        den = 1 - s.e * c.cos(E)
        cf, sf = (c.cos(E) - s.e) / den, s.q * c.sin(E) / den
        want = K * (s.cw * cf - s.sw * sf + s.e * s.cw)
        c.eq("K", c.ev(orb.get_radial_velocity(c.tensor(t), K=c.tensor(K))), want)
        c.eq("K, units ignored", c.ev(orb.get_radial_velocity(c.tensor(t), K=c.tensor(K), output_units=u.km / u.s)), want)
    return h


def two_planets(c):
    """one column per planet, with one K per planet"""
    P = [c.real("period%d" % i, 0, nice=(1., 8.)) for i in range(2)]
    tp = [c.real("tp%d" % i, nice=(-3., 3.)) for i in range(2)]
    e = [c.real("ecc%d" % i, 0, 1, nice=(.05, .8)) for i in range(2)]
    w = [c.angle("omega%d" % i) for i in range(2)]
    K = [c.real("K%d" % i, nice=(-20., 50.)) for i in range(2)]
    orb = KeplerianOrbit(period=c.tensor(P), t_periastron=c.tensor(tp), ecc=c.tensor(e), omega=c.tensor(w))
    t, E = c.kepler_time("E", P[1], e[1], tp[1], rng=None)
    got = c.ev(orb.get_radial_velocity(c.tensor([t, c.real("t2", nice=(-4., 4.)), t]), K=c.tensor(K)))
    c.shape("shape", got, (3, 2))
    s = Spec(c, c.num(1), P[1], e[1], w[1])
    den = 1 - s.e * c.cos(E)
    cf, sf = (c.cos(E) - s.e) / den, s.q * c.sin(E) / den
    want = K[1] * (s.cw * cf - s.sw * sf + s.e * s.cw)
    c.eq("planet 2", got[0, 1], want)
    c.eq("planet 2 again", got[2, 1], want)


F = ORBIT_FNS + ["get_radial_velocity", "_get_velocity"]
B = "all reals: period, a > 0, m_planet >= 0 (below the total mass), 0<=ecc<1, omega, Omega, incl, t, K; output units " + ", ".join(UNITS)
HARNESSES = [
    dict(name="ecc", fn=physical(), functions=F, bounds=B),
    dict(name="circ", fn=physical(ecc=False), functions=F, bounds=B),
    dict(name="ecc-stellar", fn=physical(par="stellar"), functions=F, bounds=B + "; m_star, r_star given"),
    dict(name="circ-stellar", fn=physical(ecc=False, par="stellar"), functions=F, bounds=B + "; m_star, r_star given"),
    dict(name="K-ecc", fn=given_K(True), functions=F, bounds=B),
    dict(name="K-circ", fn=given_K(False), functions=F, bounds=B),
    dict(name="K-two-planets", fn=two_planets, functions=F, bounds=B + "; two planets, three times"),
]
