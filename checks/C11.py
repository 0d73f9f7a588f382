"""Light travel delay: the position at the emission time that solves the second-order retarded-time equation."""
from checks.common import *
from fractions import Fraction
from engine.harness import Skip
from checks.C04 import setup, scales

TRUSTED = [KEPLER]


SIDES = ["front", "behind", "plane"]


def delay(c, s, E, sc, sides=SIDES, name=""):
    """emission delay of a body: c d = -(z - vz d + az d^2 / 2)"""
    cl = clight(c)
    z, vz, az = s.pos(E, sc)[2], s.vel(E, sc)[2], s.acc(E, sc)[2]
    # slower than light (a quarter of it)
    c.assume(vz < cl)
    c.assume(vz <= cl / 4)
    c.assume(vz >= -cl / 4)
    if c.mode == "num" and 1e-10 < abs(az) < 1e-3:
        raise Skip()          # cancellation in the closed form: doubles cannot decide here
    side = c.choice("side" + name, sides)
    if side == "plane":
        c.assume(az < 1e-10)
        c.assume(-az < 1e-10)
        d = -z / (cl - vz)
        c.eq("first-order delay", cl * d + z - vz * d, c.num(0), atol=1e-5)
        return d
    k = 1 if side == "behind" else -1
    c.assume(k * az > 0)
    c.assume(k * az >= 1e-10)
    c.axiom(k * z < 0)        # az is a negative multiple of z
    u = 1 - vz / cl
    disc = u * u - 2 * az * z / cl ** 2
    c.axiom(disc > 0)
    d = cl / az * (c.sqrt(disc) - u)
    c.eq("retarded time equation", cl * d + z - vz * d + az * d * d / 2, c.num(0), atol=1e-5)
    return d


def delayed(bodies=("relative", "planet", "star"), parallax=False, sides=SIDES, **opts):
    def h(c):
        orb, s, ms, mp, tp = setup(c, **opts)
        t, E = c.kepler_time("E", s.P, s.e, tp, rng=None)
        kw = {}
        scale = c.num(1)
        if parallax:
            plx = c.real("parallax", 0, nice=(.01, .2))
            kw["parallax"] = c.tensor(plx)
            scale = plx * au(c)
        sc = scales(ms, mp)
        for body in bodies:
            d = delay(c, s, E, sc[body], sides, body)
            got = c.ev(list(getattr(orb, "get_%s_position" % body)(c.tensor([t]), light_delay=True, **kw)))
            M = 2 * c.pi * (t - d - tp) / s.P
            if opts.get("ecc", True):
                sf, cf = c.kepler(M, s.e)
                r = (1 - s.e ** 2) / (1 + s.e * cf)
            else:
                sf, cf, r = c.sin(M), c.cos(M), 1
            want = s.rot(s.a * r * cf * sc[body] * scale, s.a * r * sf * sc[body] * scale)
            vec(c, body, [g.item() for g in got], want, rtol=1e-7)
            c.shape(body + " shape", got[0], ())
    return h


def shapes(n, m):
    def h(c):
        """(time, planet), squeezed, as without delay; several planets do not mix (all in front of the star)"""
        P = [c.real("period%d" % i, 0, nice=(3., 8.)) for i in range(n)]
        a = [c.real("a%d" % i, 0, nice=(3., 10.)) for i in range(n)]
        ts = [c.real("t%d" % i, nice=(-.4, .4)) for i in range(m)]
        for i in range(n):
            for t in ts:
                f = 2 * c.pi * t / P[i]
                c.assume(-a[i] * c.cos(f) * (2 * c.pi / P[i]) ** 2 <= -1e-10)
                c.assume(c.cos(f) > 0)
        orb = KeplerianOrbit(period=c.tensor(P), a=c.tensor(a), t0=c.tensor([0.] * n))
        r0 = c.ev(list(orb.get_relative_position(c.tensor(ts))))
        r1 = c.ev(list(orb.get_relative_position(c.tensor(ts), light_delay=True)))
        for k in range(3):
            c.shape("like undelayed", r1[k], np.shape(r0[k]))
            c.shape("shape", r1[k], tuple(x for x in (m, n) if x > 1))
        for i in range(n):
            o = KeplerianOrbit(period=c.tensor([P[i]]), a=c.tensor([a[i]]), t0=c.tensor([0.]))
            for j in range(m):
                one = c.ev(list(o.get_relative_position(c.tensor([ts[j]]), light_delay=True)))
                for k in range(3):
                    c.eq("independent[%d,%d].%s" % (i, j, "xyz"[k]), np.reshape(r1[k], (m, n))[j, i], one[k].item(),
                         rtol=1e-7)
    return h


def ttv(c):
    """a TTV orbit delays the position in the warped time of the transit the light belongs to"""
    P = c.real("period", 0, nice=(2., 8.))
    a = c.real("a", 0, nice=(3., 10.))
    t0 = c.real("t0", nice=(-2., 2.))
    v = [c.real("ttv%d" % i, nice=(-.1, .1)) for i in range(1)]
    for x in v:
        c.assume(x < P / 8)
        c.assume(-x < P / 8)
    orb = TTVOrbit(period=c.tensor([P]), a=c.tensor([a]), t0=c.tensor([t0]), ttvs=[c.tensor(v)])
    u = c.real("u", nice=(-.2, .2))
    c.assume(u < P / 8)
    c.assume(-u < P / 8)
    phi = 2 * c.pi * u / P
    # in front of the star
    cl = clight(c)
    n = 2 * c.pi / P
    z, vz, az = a * c.cos(phi), -a * n * c.sin(phi), -a * n * n * c.cos(phi)
    c.assume(vz <= cl / 4)
    c.assume(vz >= -cl / 4)
    c.assume(az <= -1e-10)
    w = 1 - vz / cl
    disc = w * w - 2 * az * z / cl ** 2
    c.axiom(disc > 0)
    d = cl / az * (c.sqrt(disc) - w)
    # the delay does not leave the window of the transit
    c.assume(d < P / 8)
    c.assume(d > -P / 8)
    got = c.ev(list(orb.get_relative_position(c.tensor([t0 + v[0] + u]), light_delay=True)))
    M = phi - 2 * c.pi * d / P
    vec(c, "transit", [g.item() for g in got], (a * c.sin(M), 0, a * c.cos(M)), rtol=1e-7)


def not_implemented(c):
    P = c.real("period", 0, nice=(2., 8.))
    D = c.real("duration", 0, nice=(.05, .4))
    o = SimpleTransitOrbit(period=c.tensor([P]), duration=c.tensor([D]), t0=c.tensor([0.]), b=c.tensor([.3]),
                           r_star=1.0, ror=0.1)
    t = c.tensor([c.real("t")])
    for n in ("get_relative_position", "get_planet_position", "in_transit"):
        c.raises(n, NotImplementedError, lambda: getattr(o, n)(t, light_delay=True))
    k = KeplerianOrbit(period=c.tensor([P]))
    c.raises("keplerian in_transit", NotImplementedError, lambda: k.in_transit(t, light_delay=True))


F = ORBIT_FNS + ["_get_retarded_position", "_get_position", "get_relative_position", "get_planet_position",
                 "get_star_position"]
B = ("all reals: period, a > 0, m_planet >= 0, 0<=ecc<1, omega, Omega, incl, t, line-of-sight speed at most c/4; one planet")
HARNESSES = [
    dict(name="ecc-relative-front", fn=delayed(("relative",), sides=["front"]), functions=F, bounds=B),
    dict(name="ecc-relative-behind", fn=delayed(("relative",), sides=["behind"]), functions=F, bounds=B),
    dict(name="ecc-planet-front", fn=delayed(("planet",), sides=["front"]), functions=F, bounds=B),
    dict(name="ecc-star-behind", fn=delayed(("star",), sides=["behind"]), functions=F, bounds=B),
    dict(name="circ-relative", fn=delayed(("relative",), ecc=False), functions=F, bounds=B),
    dict(name="circ-planet", fn=delayed(("planet",), ecc=False), functions=F, bounds=B),
    dict(name="circ-star", fn=delayed(("star",), ecc=False), functions=F, bounds=B),
    dict(name="circ-edge-on", fn=delayed(("relative",), ecc=False, Om=False, tilt=None), functions=F, bounds=B),
    dict(name="ecc-parallax", fn=delayed(("relative",), parallax=True, sides=["front"]), functions=F, bounds=B + "; parallax"),
    dict(name="ecc-massless", fn=delayed(("star",), mass="default", sides=["plane"]), functions=F, bounds=B + "; massless planet (star at rest)"),
    dict(name="circ-massless", fn=delayed(("planet", "star"), ecc=False, mass="zero"), functions=F, bounds=B + "; massless planet"),
    dict(name="two-planets-two-times", fn=shapes(2, 2), functions=F, bounds="two circular planets, two times"),
    dict(name="two-planets", fn=shapes(2, 1), functions=F, bounds="two circular planets, one time"),
    dict(name="three-times", fn=shapes(1, 3), functions=F, bounds="one circular planet, three times"),
    dict(name="ttv", fn=ttv, functions=F + ["TTVOrbit._warp_times", "TTVOrbit._get_model_dt"],
         bounds="one circular planet, one labelled transit, |ttv|, |t - transit|, |delay| < period/8"),
    dict(name="not-implemented", fn=not_implemented, functions=["SimpleTransitOrbit"], bounds="all reals"),
]
