"""Parallax scales every position component; the relative angles are the polar coordinates of the sky position."""
from checks.common import *
from checks.C04 import setup, scales

TRUSTED = [KEPLER]


def positions(**opts):
    """all three components of every body scale with parallax * au_per_R_sun"""
    def h(c):
        orb, s, ms, mp, tp = setup(c, **opts)
        t, E = c.kepler_time("E", s.P, s.e, tp, rng=None)
        plx = c.real("parallax", 0, nice=(.01, .2))
        for body, sc in scales(ms, mp).items():
            got = c.ev(list(getattr(orb, "get_%s_position" % body)(c.tensor(t), parallax=c.tensor(plx))))
            vec(c, body, [g.item() for g in got], [x * plx * au(c) for x in s.pos(E, sc)])
    return h


def angles(parallax, **opts):
    def h(c):
        orb, s, ms, mp, tp = setup(c, **opts)
        t, E = c.kepler_time("E", s.P, s.e, tp, rng=None)
        kw, k = {}, c.num(1)
        if parallax:
            plx = c.real("parallax", 0, nice=(.01, .2))
            kw, k = dict(parallax=c.tensor(plx)), plx * au(c)
        x, y, z = [v * k for v in s.pos(E, -1)]
        # away from the degenerate line of sight through the star's centre
        c.assume(x * x + y * y > 0)
        rho, th = [v.item() for v in c.ev(list(orb.get_relative_angles(c.tensor(t), **kw)))]
        c.true("rho >= 0", rho >= 0)
        c.eq("rho^2", rho * rho, x * x + y * y)
        c.eq("north", rho * c.cos(th), x)
        c.eq("east", rho * c.sin(th), y)
        c.true("theta <= pi", th <= c.pi, margin=[c.pi - th] if c.mode == "num" else None)
        c.true("theta >= -pi", th >= -c.pi, margin=[th + c.pi] if c.mode == "num" else None)
    return h


def same(parallax=True, **opts):
    """the angles describe the position get_relative_position returns, at several times"""
    def h(c):
        orb, s, ms, mp, tp = setup(c, **opts)
        ts = [c.real("t%d" % i, nice=(-4., 9.)) for i in range(2)]
        kw = dict(parallax=c.tensor(c.real("parallax", 0, nice=(.01, .2)))) if parallax else {}
        x, y, z = c.ev(list(orb.get_relative_position(c.tensor(ts), **kw)))
        for i in range(2):
            c.assume(x[i] ** 2 + y[i] ** 2 > 0)
        rho, th = c.ev(list(orb.get_relative_angles(c.tensor(ts), **kw)))
        c.shape("rho", rho, (2,))
        c.shape("theta", th, (2,))
        for i in range(2):
            c.eq("rho[%d]^2" % i, rho[i] ** 2, x[i] ** 2 + y[i] ** 2)
            c.true("rho[%d]" % i, rho[i] >= 0)
            c.eq("north[%d]" % i, rho[i] * c.cos(th[i]), x[i])
            c.eq("east[%d]" % i, rho[i] * c.sin(th[i]), y[i])
    return h


def delayed(parallax, incl):
    """with light_delay they describe the delayed position"""
    def h(c):
        P = c.real("period", 0, nice=(3., 8.))
        a = c.real("a", 0, nice=(3., 10.))
        t = c.real("t", nice=(-2., 2.))
        kw = dict(period=c.tensor(P), a=c.tensor(a), t0=c.tensor(t))
        si = 1
        if incl:
            i = c.angle("incl", 0, 1)
            si = c.sin(i)
            kw["incl"] = c.tensor(i)
        c.assume(-a * si * (2 * c.pi / P) ** 2 <= -1e-10)
        c.assume(si > 0)
        opt = dict(light_delay=True)
        if parallax:
            opt["parallax"] = c.tensor(c.real("parallax", 0, nice=(.01, .2)))
        orb = KeplerianOrbit(**kw)
        x, y, z = [v.item() for v in c.ev(list(orb.get_relative_position(c.tensor(t), **opt)))]
        rho, th = c.ev(list(orb.get_relative_angles(c.tensor(t), **opt)))
        c.shape("rho", rho, ())
        c.shape("theta", th, ())
        rho, th = rho.item(), th.item()
        c.assume(x * x + y * y > 0)
        c.eq("rho^2", rho ** 2, x ** 2 + y ** 2)
        c.true("rho", rho >= 0)
        c.eq("north", rho * c.cos(th), x)
        c.eq("east", rho * c.sin(th), y)
    return h


D = "all circular orbits, period, a > 0, incl or edge on, t, parallax; one planet, at mid-transit; light_delay"
F = ORBIT_FNS + ["_get_position", "get_relative_position", "get_planet_position", "get_star_position",
                 "get_relative_angles"]
B = "all reals: period, a > 0, m_planet >= 0, 0<=ecc<1, omega, Omega, incl, t, parallax > 0; one planet"
HARNESSES = [
    dict(name="positions-ecc", fn=positions(), functions=F, bounds=B),
    dict(name="positions-circ", fn=positions(ecc=False), functions=F, bounds=B),
    dict(name="positions-stellar", fn=positions(par="stellar"), functions=F, bounds=B),
    dict(name="positions-noOmega", fn=positions(Om=False, tilt=None), functions=F, bounds=B),
    dict(name="angles-ecc", fn=angles(True), functions=F, bounds=B),
    dict(name="angles-ecc-noparallax", fn=angles(False), functions=F, bounds=B),
    dict(name="angles-circ", fn=angles(True, ecc=False), functions=F, bounds=B),
    dict(name="angles-noOmega", fn=angles(True, Om=False), functions=F, bounds=B),
    dict(name="angles-edge-on", fn=angles(False, ecc=False, Om=False, tilt=None), functions=F, bounds=B),
    dict(name="same-ecc", fn=same(True), functions=F, bounds=B + "; two times"),
    dict(name="same-circ", fn=same(True, ecc=False), functions=F, bounds=B + "; two times"),
    dict(name="same-delay", fn=delayed(True, False), functions=F + ["_get_retarded_position"], bounds=D),
    dict(name="same-delay-incl", fn=delayed(False, True), functions=F + ["_get_retarded_position"], bounds=D),
]
