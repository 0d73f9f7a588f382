"""Positions are the exact Kepler solution and repeat every period."""
from checks.common import *

TRUSTED = [KEPLER]


def setup(c, ecc, Om, by="t_periastron", masses=False):
    P = c.real("period", 0, nice=(1., 8.))
    a = c.real("a", 0, nice=(3., 20.))
    kw, ci, si = inc(c, True)
    e = w = O = None
    if ecc:
        e = c.real("ecc", 0, 1, nice=(.05, .8))
        w = c.angle("omega")
        kw.update(ecc=c.tensor(e), omega=c.tensor(w))
    if Om:
        O = c.angle("Omega")
        kw.update(Omega=c.tensor(O))
    kw["incl"] = c.tensor(kw["incl"])
    tp = c.real("tp", nice=(-3., 3.))
    kw[by] = c.tensor(tp)
    if masses:
        kw["m_planet"] = c.tensor(c.real("m_planet", 0, nice=(.01, .5)))
    orb = KeplerianOrbit(period=c.tensor(P), a=c.tensor(a), **kw)
    return orb, Spec(c, a, P, e, w, ci, si, O), tp


def rel(ecc, Om, k=False):
    def h(c):
        orb, s, tp = setup(c, ecc, Om)
        t, E = c.kepler_time("E", s.P, s.e, tp, rng=None)
        if k:
            t = t + s.P * c.int("k", -50, 50)
        got = c.ev(list(orb.get_relative_position(c.tensor(t))))
        vec(c, "relative", got, s.pos(E, -1))
    return h


def bodies(ecc, Om):
    def h(c):
        orb, s, tp = setup(c, ecc, Om, masses=True)
        t, E = c.kepler_time("E", s.P, s.e, tp, rng=None)
        mt = 4 * c.pi ** 2 * s.a ** 3 / (G(c) * s.P ** 2)
        mp = orb.m_planet
        mp = c.ev(mp).item()
        c.assume(mt > mp)
        T = c.tensor(t)
        vec(c, "planet", c.ev(list(orb.get_planet_position(T))), s.pos(E, -(mt - mp) / mt))
        vec(c, "star", c.ev(list(orb.get_star_position(T))), s.pos(E, mp / mt))
    return h


def periodic(ecc):
    def h(c):
        orb, s, tp = setup(c, ecc, True, masses=True)
        t, E = c.kepler_time("E", s.P, s.e, tp, rng=None)
        k = c.int("k", nice=(-20, 20))
        mp = c.ev(orb.m_planet).item()
        c.assume(4 * c.pi ** 2 * s.a ** 3 / (G(c) * s.P ** 2) > mp)
        T, T2 = c.tensor(t), c.tensor(t + k * s.P)
        for name in ("relative_position", "planet_position", "star_position", "relative_velocity",
                     "planet_velocity", "star_velocity", "relative_acceleration"):
            f = getattr(orb, "get_" + name)
            vec(c, name, c.ev(list(f(T2))), c.ev(list(f(T))))
        c.eq("rv", c.ev(orb.get_radial_velocity(T2)), c.ev(orb.get_radial_velocity(T)), rtol=1e-5)
    return h


def anomaly(c):
    """get_true_anomaly returns the f with these sines and cosines"""
    e = c.real("ecc", 0, 1, nice=(.05, .8))
    E = c.angle("E", -1, 1)
    from exoplanet.orbits.keplerian import get_true_anomaly
    M = E - e * c.sin(E)
    f = c.ev(get_true_anomaly(c.tensor([M]), c.tensor([e])))[0]
    c.eq("cos f", c.cos(f), (c.cos(E) - e) / (1 - e * c.cos(E)))
    c.eq("sin f", c.sin(f), c.sqrt(1 - e * e) * c.sin(E) / (1 - e * c.cos(E)))
    c.true("range", c.all(f <= c.pi, f >= -c.pi), margin=[c.pi - f, f + c.pi] if c.mode == "num" else None)


F = ORBIT_FNS + ["_get_position", "get_relative_position", "get_planet_position", "get_star_position"]
B = "all reals: period>0, a>0, 0<=ecc<1, omega, Omega, 0<=incl<=pi, t, t_periastron; one planet"
HARNESSES = [
    dict(name="relative-ecc", fn=rel(True, False), functions=F, bounds=B),
    dict(name="relative-ecc-Omega", fn=rel(True, True), functions=F, bounds=B),
    dict(name="relative-circ-Omega", fn=rel(False, True), functions=F, bounds=B),
    dict(name="relative-circ", fn=rel(False, False), functions=F, bounds=B),
    dict(name="bodies-ecc", fn=bodies(True, True), functions=F, bounds=B + "; m_planet>=0 below the total mass"),
    dict(name="bodies-circ", fn=bodies(False, True), functions=F, bounds=B + "; m_planet>=0 below the total mass"),
    dict(name="periodic-ecc", fn=periodic(True), functions=F, bounds=B + "; every integer k"),
    dict(name="periodic-circ", fn=periodic(False), functions=F, bounds=B + "; every integer k"),
    dict(name="get_true_anomaly", fn=anomaly, functions=["get_true_anomaly"], bounds="0<=ecc<1, every E in [-pi, pi]"),
]
