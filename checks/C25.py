"""Secondary eclipse light curve is the flux-weighted sum of both bodies."""
import exoplanet.light_curves as xlc

from checks import C22
from checks.C21 import deficit, point
from checks.common import *
from fractions import Fraction as Fr

TRUSTED = ["limb-darkening kernel contract: s(b, r) are the integrals of 1, z, 4 z^2 - 2 over the visible part of the "
           "unit disc (all of it for b >= 1 + r, none of it for b <= r - 1); the same vector for the same arguments", KEPLER]


def coeffs(c, n):
    u1, u2 = c.real("u1" + n, nice=(0., .5)), c.real("u2" + n, nice=(0., .4))
    c.assume(1 - u1 / 3 - u2 / 6 > 0)
    return u1, u2


def setup(c):
    up, us = coeffs(c, "p"), coeffs(c, "s")
    s = c.real("s", 0, strict=False, nice=(.05, .9))
    lc = xlc.SecondaryEclipseLightCurve([c.tensor(u) for u in up], [c.tensor(u) for u in us], c.tensor(s))
    return up, us, s, lc


def combine(s, r, rs, one, two):
    F = s * (r / rs) ** 2
    return (one + F * two) / (1 + F)


class Pair(LineOrbit):
    """straight lines, with the roles of the bodies exchanged by _flip"""

    def get_relative_position(self, t, light_delay=False, parallax=None):
        x, y, z = super().get_relative_position(t)
        self.delays.append(bool(light_delay))
        return x, y, z

    def in_transit(self, t, r=None, texp=None, light_delay=False):
        return pt.as_tensor_variable(np.array(self.inds, dtype="int64"))

    inds = inds2 = ()

    def _flip(self, r_planet, model=None):
        o = object.__new__(Pair)
        o.__dict__.update(self.__dict__)
        o.r_star = r_planet
        o.T = [-v for v in self.T]
        o.inds = self.inds2
        return o


def lines(m, texp=None, order=0, oversample=3, restricted=None, delay=False, z=True):
    def h(c):
        c.option("quad_split", False)
        c.option("snap", 4 * (oversample + 2) * (oversample + 1))
        up, us, s, lc = setup(c)
        orb = Pair(c, 1, z=z)
        orb.delays = []
        orb.inds, orb.inds2 = restricted or (list(range(m)),) * 2
        rs = orb.rs
        r = c.real("r", 0, nice=(.05, .6))
        t = [c.real("t%d" % i, nice=(-1., 1.)) for i in range(m)]
        kw = dict(use_in_transit=restricted is not None)
        X, W = [0], [1]
        es = [c.num(0)] * m
        if texp:
            e = [c.real("texp%d" % i, 0, strict=False, nice=(.1, 2.)) for i in range(m if texp == "vector" else 1)]
            kw.update(texp=c.tensor(e if texp == "vector" else e[0]), order=order, oversample=oversample)
            es = e if texp == "vector" else e * m
            X, W = C22.rule(order, oversample)
            X, W = [C22.num(c, v) for v in X], [C22.num(c, v) for v in W]
        if delay:
            kw["light_delay"] = True
        want = []
        for i in range(m):
            one = two = c.num(0)
            for xx, w in zip(X, W):
                x, y, zz = orb.at(t[i] + xx * es[i], 0)
                if i in orb.inds:
                    one = one + w * point(c, *up, x, y, zz, r, rs, split=False)
                if i in orb.inds2:
                    two = two + w * point(c, *us, -x, -y, -zz, rs, r, split=False)
            want.append([combine(s, r, rs, one, two)])
        got = c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor(t), **kw))
        c.shape("light curve", got, (m, 1))
        c.eq("flux", got, want)
        c.true("light delay passed on", set(orb.delays) == {delay})
    return h


def orbit(ecc, tilt=None, Om=False, vector=False, seen=None):
    """a real orbit: both bodies move on the same two-body orbit"""
    def h(c):
        c.option("quad_split", False)
        up, us, s, lc = setup(c)
        P = c.real("period", 0, nice=(2., 8.))
        ms, mp = c.real("m_star", 0, nice=(.5, 2.)), c.real("m_planet", 0, nice=(.01, .5))
        rs, r = c.real("r_star", 0, nice=(.5, 2.)), c.real("r", 0, nice=(.05, .5))
        V = (lambda v: [v]) if vector else (lambda v: v)
        kw = dict(period=c.tensor(V(P)), r_star=c.tensor(rs), m_star=c.tensor(ms), m_planet=c.tensor(V(mp)),
                  t0=c.tensor(V(c.real("t0", nice=(-3., 3.)))))
        if ecc:
            kw["ecc"] = c.tensor(V(c.real("ecc", 0, 1, nice=(.05, .8))))
            kw["omega"] = c.tensor(V(c.angle("omega")))
        if Om:
            kw["Omega"] = c.tensor(V(c.angle("Omega")))
        if tilt:
            kw["incl"] = c.tensor(V(c.angle("incl", 0, 1)))
        orb = KeplerianOrbit(**kw)
        t = c.real("t", nice=(-4., 9.))
        x, y, z = [v.item() for v in c.ev(list(orb.get_relative_position(c.tensor([t]))))]
        if seen is not None:
            c.assume(z > 0 if seen == "transit" else z < 0)
        want = combine(s, r, rs, point(c, *up, x, y, z, r, rs, split=False),
                       point(c, *us, -x, -y, -z, rs, r, split=False))
        got = c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(V(r)), t=c.tensor([t]), use_in_transit=False))
        c.shape("light curve", got, (1, 1))
        c.eq("flux", got[0, 0], want)
    return h


def restricted(c):
    """the default evaluates only where something is hidden: the same curve"""
    c.option("quad_split", False)
    up, us, s, lc = setup(c)
    P, a = c.real("period", 0, nice=(2., 8.)), c.real("a", 0, nice=(4., 12.))
    mp = c.real("m_planet", 0, nice=(.01, .5))
    rs, r = c.real("r_star", 0, nice=(.5, 2.)), c.real("r", 0, nice=(.05, .5))
    c.assume(a > rs + r)
    c.assume(4 * c.pi ** 2 * a ** 3 / (G(c) * P ** 2) > mp)
    t0 = c.real("t0", nice=(-3., 3.))
    centre = c.choice("centre", ["transit", "eclipse"])
    phi = c.angle("phi", -Fr(1, 2), Fr(1, 2))
    k = c.int("k", nice=(-3, 3))
    sp, cp = c.sin(phi), c.cos(phi)
    t = t0 + P * (phi / (2 * c.pi) + k + (c.num(1) / 2 if centre == "eclipse" else 0))
    orb = KeplerianOrbit(period=c.tensor(P), r_star=c.tensor(rs), a=c.tensor(a), m_planet=c.tensor(mp), t0=c.tensor(t0))
    hid = bool(c.all(cp > 0, sp ** 2 * a ** 2 <= (rs + r) ** 2))
    res = [c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor([t]), **kw))
           for kw in (dict(), dict(use_in_transit=False))]
    for v in res:
        c.shape("light curve", v, (1, 1))
    c.eq("restricted = full", res[0], res[1], atol=1e-9)
    if not hid:
        c.eq("nothing hidden", res[0], [[0]], atol=1e-9)


def depth(c):
    """deepest possible eclipse: the whole of the smaller body is hidden, its share of the flux is missing"""
    c.option("quad_split", False)
    up, us, s, lc = setup(c)
    orb = Pair(c, 1)
    orb.delays = []
    r = c.real("r", 0, nice=(.05, .4))
    t = c.real("t", nice=(-.2, .2))
    x, y, z = orb.at(t, 0)
    c.assume(z < 0)
    c.assume(c.sqrt(x * x + y * y) <= orb.rs - r)
    got = c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor([t]), use_in_transit=False))
    F = s * (r / orb.rs) ** 2
    c.eq("flux", got, [[-F / (1 + F)]])


F = ["SecondaryEclipseLightCurve.__init__", "SecondaryEclipseLightCurve.get_light_curve", "LimbDarkLightCurve.get_light_curve",
     "get_cl"]
B = "one planet; all limb-darkening coefficients with positive total flux, brightness ratio >= 0, r, r_star > 0; "
L = B + "straight-line trajectories; "
O = B + "all periods, masses, %s; one time"
FO = F + ["KeplerianOrbit._flip", "get_relative_position"]
HARNESSES = [
    dict(name="lines", fn=lines(1), functions=F, bounds=L + "one time"),
    dict(name="lines-two", fn=lines(2), functions=F, bounds=L + "two times"),
    dict(name="lines-three", fn=lines(3, z=False), functions=F, bounds=L + "three times, in front"),
    dict(name="lines-delay", fn=lines(1, delay=True), functions=F, bounds=L + "one time, light_delay passed on"),
    dict(name="exposure", fn=lines(1, "scalar"), functions=F, bounds=L + "one time, order 0, oversample 3"),
    dict(name="exposure-1", fn=lines(1, "scalar", 1, 3), functions=F, bounds=L + "one time, order 1, oversample 3"),
    dict(name="exposure-2", fn=lines(1, "scalar", 2, 5), functions=F, bounds=L + "one time, order 2, oversample 5"),
    dict(name="exposure-vector", fn=lines(2, "vector", 0, 3), functions=F, bounds=L + "two times, own exposure times"),
    dict(name="restricted-lines", fn=lines(3, None, restricted=([1], [0, 2])), functions=F,
         bounds=L + "three times, different ones in transit and in eclipse"),
    dict(name="restricted-exposure", fn=lines(2, "vector", 0, 3, restricted=([1], [0])), functions=F,
         bounds=L + "two times, own exposure times, one in transit, the other in eclipse"),
    dict(name="circular", fn=orbit(False), functions=FO, bounds=O % "edge-on circular orbits"),
    dict(name="circular-incl", fn=orbit(False, True, True), functions=FO, bounds=O % "circular orbits, Omega, incl"),
    dict(name="circular-vector", fn=orbit(False, True, False, True), functions=FO, bounds=O % "circular orbits, incl, vectors of length 1"),
    dict(name="eccentric", fn=orbit(True, True, True), functions=FO, bounds=O % "eccentric orbits, Omega, incl"),
    dict(name="restricted", fn=restricted, functions=FO + ["in_transit"], bounds=O % "edge-on circular orbits, default use_in_transit"),
    dict(name="depth", fn=depth, functions=F, bounds=L + "star in front, the whole planet hidden"),
]
