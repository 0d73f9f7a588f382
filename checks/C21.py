"""Light curves are normalised and zero whenever nothing is occulted."""
import exoplanet.light_curves as xlc
from exoplanet.light_curves.limb_dark import quad_limbdark_light_curve, get_cl

from checks.common import *

TRUSTED = ["limb-darkening kernel contract: s(b, r) are the integrals of 1, z, 4 z^2 - 2 over the visible part of the "
           "unit disc (all of it for b >= 1 + r, none of it for b <= r - 1); the same vector for the same arguments"]


def limb(c, lo=True):
    """coefficients with positive disc-integrated flux"""
    u1, u2 = c.real("u1", nice=(0., .5)), c.real("u2", nice=(0., .4))
    c.assume(1 - u1 / 3 - u2 / 6 > 0)
    return u1, u2


def deficit(c, u1, u2, b, r):
    """visible flux of I(mu) = 1 - u1 (1 - mu) - u2 (1 - mu)^2 over the total, minus one"""
    s = c.quad(b, r)
    A, B, C = s[0], s[1], (s[2] + 2 * s[0]) / 4             # integrals of 1, mu, mu^2
    return ((1 - u1 - u2) * A + (u1 + 2 * u2) * B - u2 * C) / (c.pi * (1 - u1 / 3 - u2 / 6)) - 1


def point(c, u1, u2, x, y, z, r, rs, split=True):
    if bool(z <= 0):
        return c.num(0)
    b = c.sqrt(x * x + y * y) / rs
    if split and bool(b >= 1 + r / rs):
        return c.num(0)
    return deficit(c, u1, u2, b, r / rs)


def model(n, nt, tshape=None, rshape=None, vec_u=False, moving=True, z=True, split=True, static=True, y=True):
    """LimbDarkLightCurve on n planets moving on straight lines"""
    def h(c):
        c.option("quad_split", split)
        u1, u2 = limb(c)
        orb = LineOrbit(c, n, z=z, y=y, moving=moving)
        r = [c.real("r%d" % j, 0, strict=False, nice=(.05, .6)) for j in range(n)]
        t = [c.real("t%d" % i, nice=(-1., 1.)) for i in range(nt)]
        if not y:                                           # x itself is the separation
            for x in t:
                for j in range(n):
                    c.assume(orb.at(x, j)[0] >= 0)
        want = [[point(c, u1, u2, *orb.at(x, j), r[j], orb.rs, split) for j in range(n)] for x in t]
        lc = xlc.LimbDarkLightCurve(c.tensor([u1, u2])) if vec_u else xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
        rt = c.tensor(r[0]) if rshape == () else c.tensor(r, static=static)
        tt = c.tensor(t[0]) if tshape == () else c.tensor(t, static=static)
        got = c.ev(lc.get_light_curve(orbit=orb, r=rt, t=tt, use_in_transit=False))
        shape = (n,) if tshape == () else (nt, n)
        c.shape("light curve", got, shape)
        got = got.reshape(nt, n)
        for i in range(nt):
            for j in range(n):
                c.eq("flux[%d,%d]" % (i, j), got[i, j], want[i][j])
    return h


class DelayLine(LineOrbit):
    """straight lines on which light_delay means the position at an earlier time"""

    def get_relative_position(self, t, light_delay=False, parallax=None):
        t = pt.as_tensor_variable(t)
        return super().get_relative_position(t - self.delay if light_delay else t)

    def in_transit(self, t, r=None, texp=None, light_delay=False):
        if light_delay:
            raise NotImplementedError
        return pt.as_tensor_variable(np.array(self.inds, dtype="int64"))


def delayed(explicit, matrix=False):
    """light_delay reaches the orbit and, unless asked for, nothing is restricted to the undelayed transits"""
    def h(c):
        c.option("quad_split", False)
        u1, u2 = limb(c)
        orb = DelayLine(c, 1, z=True, y=False)
        d = c.real("delay", nice=(.1, .5))
        orb.delay = c.tensor(d)
        orb.inds = [0]
        r = c.real("r", 0, strict=False, nice=(.05, .6))
        t = [c.real("t%d" % i, nice=(-1., 1.)) for i in range(2)]
        lc = xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
        for flag in (True, False):
            at = [orb.at(x - d if flag else x, 0) for x in t]
            want = [point(c, u1, u2, *p, r, orb.rs, False) for p in at]
            kw = dict(light_delay=flag) if explicit or flag else {}
            if not flag or explicit:
                kw["use_in_transit"] = False
            got = c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor(t), **kw))
            c.shape("light curve", got, (2, 1))
            for i in range(2):
                c.eq("flux[%d], delay %s" % (i, flag), got[i, 0], want[i])
        c.raises("restricted and delayed", NotImplementedError, lambda: lc.get_light_curve(
            orbit=orb, r=c.tensor(r), t=c.tensor(t), light_delay=True, use_in_transit=True))
    return h


def grid(n, shape):
    """an array of times: one more axis for the planets"""
    def h(c):
        c.option("quad_split", False)
        u1, u2 = limb(c)
        orb = LineOrbit(c, n, z=False, y=True, moving=True)
        r = [c.real("r%d" % j, 0, strict=False, nice=(.05, .6)) for j in range(n)]
        t = [[c.real("t%d_%d" % (i, k), nice=(-1., 1.)) for k in range(shape[1])] for i in range(shape[0])]
        lc = xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
        got = c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor(t), use_in_transit=False))
        c.shape("light curve", got, shape + (n,))
        for i in range(shape[0]):
            for k in range(shape[1]):
                for j in range(n):
                    c.eq("flux[%d,%d,%d]" % (i, k, j), got[i, k, j], point(c, u1, u2, *orb.at(t[i][k], j), r[j], orb.rs, False))
    return h


def zero(c):
    """exactly zero (not just up to rounding) where the planet is behind the star or off the disc"""
    u1, u2 = limb(c)
    rs, r = c.real("r_star", 0, nice=(.5, 2.)), c.real("r", 0, strict=False, nice=(0., .5))
    b, los = c.real("b", 0, strict=False, nice=(0., 3.)), c.real("los", nice=(-1., 1.))
    c.assume(c.any(b >= 1 + r, los <= 0))
    lc = xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
    got = c.ev(lc._compute_light_curve(c.tensor([b]), c.tensor([r]), c.tensor([los])))
    c.eq("zero", got[0], 0, atol=1e-12)


def instance(c):
    """the basis change: the coefficients handed to the kernel"""
    u1, u2 = limb(c)
    s = [c.real("s%d" % i, nice=(-1., 3.)) for i in range(3)]
    cl = c.ev(get_cl(c.tensor(u1), c.tensor(u2)))
    c.shape("cl", cl, (3,))
    A, B, C = s[0], s[1], (s[2] + 2 * s[0]) / 4
    want = ((1 - u1 - u2) * A + (u1 + 2 * u2) * B - u2 * C) / (c.pi * (1 - u1 / 3 - u2 / 6))
    c.eq("flux", sum((a * b for a, b in zip(cl, s)), c.num(0)), want)


def no_los(c):
    """without a line of sight the body counts as in front"""
    u1, u2 = limb(c)
    b, r = c.real("b", 0, strict=False, nice=(0., 1.3)), c.real("r", 0, strict=False, nice=(0., .5))
    lc = xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
    want = point(c, u1, u2, b, c.num(0), c.num(1), r, c.num(1))
    got = c.ev(lc._compute_light_curve(c.tensor([b]), c.tensor([r])))
    c.eq("flux", got[0], want)
    got = c.ev(quad_limbdark_light_curve(get_cl(c.tensor(u1), c.tensor(u2)), c.tensor([b]), c.tensor([r])))
    c.eq("quad_limbdark_light_curve", got[0], want)


def kepler_curve(ecc):
    """the same with a real orbit (no exposure time, no in_transit)"""
    def h(c):
        u1, u2 = limb(c)
        P, rs = c.real("period", 0, nice=(2., 8.)), c.real("r_star", 0, nice=(.5, 2.))
        a = c.real("a", 0, nice=(4., 20.))
        r = c.real("r", 0, nice=(.05, .5))
        b = c.real("b", 0, strict=False, nice=(0., 1.))
        t = c.real("t", nice=(-.3, .3))
        c.assume(b * rs < a)
        orb = KeplerianOrbit(period=c.tensor(P), a=c.tensor(a), b=c.tensor(b), r_star=c.tensor(rs), t0=c.tensor(c.num(0)))
        x, y, z = [v.item() for v in c.ev(list(orb.get_relative_position(c.tensor([t]))))]
        want = point(c, u1, u2, x, y, z, r, rs)
        lc = xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
        got = c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor([t]), use_in_transit=False))
        c.shape("light curve", got, (1, 1))
        c.eq("flux", got[0, 0], want)
    return h


def errors(c):
    u = c.real("u1", 0, .5)
    lc = xlc.LimbDarkLightCurve(c.tensor(u), c.tensor(u))
    orb = LineOrbit(c, 1)
    r, t = c.tensor(c.num(.1)), c.tensor([c.num(0)])
    c.raises("orbit", ValueError, lambda: lc.get_light_curve(r=r, t=t))
    c.raises("r", ValueError, lambda: lc.get_light_curve(orbit=orb, t=t))
    c.raises("t", ValueError, lambda: lc.get_light_curve(orbit=orb, r=r))


F = ["LimbDarkLightCurve.get_light_curve", "_compute_light_curve", "get_cl", "quad_limbdark_light_curve"]
B = "all u1, u2 with 1 - u1/3 - u2/6 > 0, all r >= 0, r_star > 0, all straight-line trajectories; %s"
HARNESSES = [
    dict(name="one", fn=model(1, 1), functions=F, bounds=B % "one planet, one time"),
    dict(name="one-scalar-r", fn=model(1, 1, rshape=()), functions=F, bounds=B % "one planet, scalar r"),
    dict(name="scalar-t", fn=model(1, 1, tshape=()), functions=F, bounds=B % "one planet, scalar time"),
    dict(name="scalar-t-two", fn=model(2, 1, tshape=(), split=False), functions=F, bounds=B % "two planets, scalar time"),
    dict(name="scalar-all", fn=model(1, 1, tshape=(), rshape=()), functions=F, bounds=B % "scalar r and time"),
    dict(name="two-planets", fn=model(2, 1), functions=F, bounds=B % "two planets, one time"),
    dict(name="two-times", fn=model(1, 2), functions=F, bounds=B % "one planet, two times"),
    dict(name="two-two", fn=model(2, 2, split=False, static=False), functions=F, bounds=B % "two planets, two times, unknown static shapes"),
    dict(name="three-times-two", fn=model(2, 3, z=False, split=False, y=False, moving=False), functions=F, bounds=B % "two planets in front of the star moving along a diameter, three times"),
    dict(name="three-planets", fn=model(3, 1, split=False), functions=F, bounds=B % "three planets"),
    dict(name="vector-u", fn=model(1, 1, vec_u=True), functions=F, bounds=B % "coefficients given as one vector"),
    dict(name="zero", fn=zero, functions=F, bounds="all b, r >= 0, line-of-sight coordinates with b >= 1 + r or los <= 0"),
    dict(name="coefficients", fn=instance, functions=F, bounds="all u1, u2 and solution vectors"),
    dict(name="no-los", fn=no_los, functions=F, bounds="all b, r >= 0"),
    dict(name="kepler", fn=kepler_curve(False), functions=F + ORBIT_FNS, bounds="all circular orbits with a, b < a/r_star; one time"),
    dict(name="delay-default", fn=delayed(False), functions=F, bounds=B % "one planet, two times, any delay, default use_in_transit"),
    dict(name="delay", fn=delayed(True), functions=F, bounds=B % "one planet, two times, any delay"),
    dict(name="times-2x2", fn=grid(1, (2, 2)), functions=F, bounds=B % "one planet, 2 x 2 times"),
    dict(name="times-2x3-two", fn=grid(2, (2, 3)), functions=F, bounds=B % "two planets, 2 x 3 times"),
    dict(name="errors", fn=errors, functions=F, bounds="missing arguments"),
]
