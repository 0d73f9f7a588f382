"""Restricting evaluation to in-transit times never changes the light curve."""
import exoplanet.light_curves as xlc

from checks import C10, C17, C18
from checks.C21 import deficit, limb
from checks.common import *

TRUSTED = ["limb-darkening kernel contract (nothing is occulted for b >= 1 + r)", C10.TRUSTED[0] + "; outside them (and "
           "within half a period) the planet is off the disc or behind the star", KEPLER]


def both(c, lc, **kw):
    """(restricted, unrestricted)"""
    out = []
    for flag in (True, False):
        out.append(c.ev(lc.get_light_curve(use_in_transit=flag, **kw)))
    return out


def compare(c, res, shape):
    a, b = res
    for x, n in ((b, "full"), (a, "restricted")):
        c.shape(n, x, shape)
    c.eq("restricted = full", a, b, atol=1e-9)


def curve(c):
    u1, u2 = limb(c)
    return xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))


# ------------------------------------------------------------------ wiring: any orbit, any set of in-transit times
class Chosen(LineOrbit):
    """reports the chosen indices as in transit"""

    def in_transit(self, t, r=None, texp=None, light_delay=False):
        self.asked = (t, r, texp)
        return pt.as_tensor_variable(np.array(self.inds, dtype="int64"))


def wiring(n, m, texp=None, order=0, oversample=3, inds=None, subset=None):
    def h(c):
        c.option("quad_split", False)
        c.option("snap", 64)
        u1, u2 = limb(c)
        orb = Chosen(c, n, z=False)
        orb.inds = c.choice("indices", inds) if subset is None else subset
        r = [c.real("r%d" % j, 0, strict=False, nice=(.05, .6)) for j in range(n)]
        t = [c.real("t%d" % i, nice=(-1., 1.)) for i in range(m)]
        kw = {}
        if texp:
            te = [c.real("texp%d" % i, 0, strict=False, nice=(.1, 2.)) for i in range(m if texp == "vector" else 1)]
            kw = dict(texp=c.tensor(te if texp == "vector" else te[0]), order=order, oversample=oversample)
        lc = xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
        full = c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor(t), use_in_transit=False, **kw))
        got = c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor(t), use_in_transit=True, **kw))
        c.eq("default = restricted", c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor(t), **kw)), got)
        c.shape("restricted", got, (m, n))
        c.shape("full", full, (m, n))
        for i in range(m):
            for j in range(n):
                c.eq("flux[%d,%d]" % (i, j), got[i, j], full[i, j] if i in orb.inds else 0)
        at, ar, ae = orb.asked
        c.eq("asked about the times", c.ev(at), t)
        c.eq("asked about the radii", c.ev(ar).reshape(-1), r)
        if texp:
            c.eq("asked about the exposure", c.ev(ae).reshape(-1), te)
        else:
            c.true("asked about the exposure", ae is None)
    return h


# ------------------------------------------------------------------ real orbits
def circular(tilt, texp=None, order=0, oversample=3):
    """one circular planet, one time at phase phi after the k-th transit"""
    def h(c):
        c.option("snap", 64)
        c.option("quad_split", False)
        orb, (p,), rs = C10.circ_params(c, 1, tilt)
        phi = c.angle("phi", -1, 1)
        k = c.int("k", nice=(-3, 3))
        kw = {}
        if texp:
            m = oversample if order == 0 else oversample - 1
            th = c.angle("theta", 0, Fraction_(1, 2 * m), nice=(.02, .3))
            # the exposure spans m steps of size 2 theta
            te = 2 * m * th * p.P / (2 * c.pi)
            kw = dict(texp=c.tensor([te] if texp == "vector" else te), order=order, oversample=oversample)
            steps = [2 * i - (m - 1) for i in range(m)] if order == 0 else [2 * i - m for i in range(oversample)]
        else:
            steps = [0]
            th = c.num(0)
        t = p.t0 + p.P * (phi / (2 * c.pi) + k)
        for s in steps:                                     # is any sample close? decided here, before the code runs
            f = phi + s * th
            bool(C10.close(c, p, c.sin(f) ** 2, c.cos(f)))
        lc = curve(c)
        res = both(c, lc, orbit=orb, r=c.tensor([p.r]), t=c.tensor([t]), **kw)
        compare(c, res, (1, 1))
    return h


def Fraction_(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def circular_two_times(texp=None):
    def h(c):
        c.option("quad_split", False)
        orb, (p,), rs = C10.circ_params(c, 1, None)
        phi = [c.angle("phi%d" % i, -1, 1) for i in range(2)]
        t = [p.t0 + p.P * f / (2 * c.pi) for f in phi]
        for f in phi:
            bool(C10.close(c, p, c.sin(f) ** 2, c.cos(f)))
        kw = {}
        if texp:
            kw = dict(texp=c.tensor([c.num(0), c.num(0)]), oversample=1)
        compare(c, both(c, curve(c), orbit=orb, r=c.tensor([p.r]), t=c.tensor(t), **kw), (2, 1))
    return h


def circular_two_planets(c):
    c.option("quad_split", False)
    orb, ps, rs, t, phis = C10.circ_pair(c)
    for p, f in zip(ps, phis):
        bool(C10.close(c, p, c.sin(f) ** 2, c.cos(f)))
    compare(c, both(c, curve(c), orbit=orb, r=c.tensor([p.r for p in ps]), t=c.tensor([t])), (1, 2))


def simple(n=1, m=1, texp=None, order=0, oversample=3, edge=False):
    """simple transit orbits; the radius of the planet is independent of the ror that set its speed"""
    def h(c):
        c.option("snap", 64)
        ps = [C17.planet(c, str(j), edge) for j in range(n)]
        rs = c.real("r_star", 0, nice=(.5, 1.5))
        orb = C17.build(c, ps, rs)
        R = [c.real("r%d" % j, 0, strict=False, nice=(.05, .3)) for j in range(n)]
        for p, x in zip(ps, R):
            c.assume(p.b * rs < rs + x)
        ts = [c.real("t%d" % i, nice=(-.3, .3)) for i in range(m)]
        kw = {}
        tes = [c.num(0)] * m
        if texp:
            te = [c.real("texp%d" % i, 0, nice=(.01, .2)) for i in range(m if texp == "vector" else 1)]
            kw = dict(texp=c.tensor(te if texp == "vector" else te[0]), order=order, oversample=oversample)
            tes = te if texp == "vector" else te * m
        for t, e in zip(ts, tes):
            for p in ps:
                c.assume(t - p.t0 + e / 2 < p.P / 2)
                c.assume(t - p.t0 - e / 2 >= -p.P / 2)
                # cases: before / after the centre, inside / outside the duration (decided before the code runs)
                for s in ([-1, 0, 1] if texp else [0]):
                    d = t - p.t0 + e * s / (2 if order else 3)
                    bool(d < p.D / 2 if bool(d >= 0) else -d < p.D / 2)
        compare(c, both(c, curve(c), orbit=orb, r=c.tensor(R), t=c.tensor(ts), **kw), (m, n))
    return h


def eccentric(texp=None):
    def h(c):
        orb, (p,), rs = C10.ecc_setup(c)
        u = c.real("u", nice=(-.6, .6))
        k = c.int("k", nice=(-3, 3))
        kw = {}
        if p.flag != 0:
            t = p.t0 + u
        else:
            edge = c.choice("edge", ["start", "end"])
            ph = (-p.d1 + u) if edge == "start" else (p.d2 + u)
            c.assume(ph >= -c.pi)
            c.assume(ph < c.pi)
            t = p.t0 + ph / p.n + k * p.P
            outside = c.any(ph < -p.d1, ph > p.d2)
            x, y, z = [v.item() for v in c.ev(list(orb.get_relative_position(c.tensor([t]))))]
            if bool(outside) and not bool(z <= 0):
                c.assume(c.sqrt(x * x + y * y) / rs >= 1 + p.r / rs)
        if texp:
            # (the exposure is short: only its middle is sampled)
            e = c.real("texp", 0, nice=(.01, .1))
            c.assume(e * p.n < c.pi / 4)
            if p.flag == 0:
                c.assume(p.d1 < 3 * c.pi / 4)
                c.assume(p.d2 < 3 * c.pi / 4)
            kw = dict(texp=c.tensor([e] if texp == "vector" else e), oversample=1)
        compare(c, both(c, curve(c), orbit=orb, r=c.tensor([p.r]), t=c.tensor([t]), **kw), (1, 1))
    return h


def ttv(texp=None):
    """transit timing variations: times around either of two labelled transits, edge on"""
    def h(c):
        c.option("quad_split", False)
        P, t0 = c.real("period", 0, nice=(2., 8.)), c.real("t0", nice=(-2., 2.))
        v = [c.real("ttv%d" % k, nice=(-.1, .1)) for k in range(2)]
        c.assume(v[1] - v[0] > -P)
        tt = [t0 + k * P + x for k, x in enumerate(v)]
        rs, a, r = c.real("r_star", 0, nice=(.5, 1.5)), c.real("a", 0, nice=(3., 10.)), c.real("r", 0, nice=(.05, .4))
        c.assume(a > rs + r)
        orb = TTVOrbit(period=c.tensor([P]), t0=c.tensor([t0]), ttvs=[c.tensor(v)], a=c.tensor([a]), r_star=c.tensor(rs))
        phi = c.angle("phi", -1, 1)
        k = c.choice("transit", [0, 1])
        d = phi * P / (2 * c.pi)
        C18.near(c, tt, k, d, P)
        p = C10.Planet()
        p.L, p.a, p.ci, p.si2 = rs + r, a, c.num(0), c.num(1)
        bool(C10.close(c, p, c.sin(phi) ** 2, c.cos(phi)))
        kw = {}
        if texp:
            kw = dict(texp=c.tensor([c.num(0)]), oversample=1)
        compare(c, both(c, curve(c), orbit=orb, r=c.tensor([r]), t=c.tensor([tt[k] + d]), **kw), (1, 1))
    return h


F = ["LimbDarkLightCurve.get_light_curve", "in_transit"]
W = "all straight-line trajectories, times, radii; %d planet(s), %d times, every listed set of in-transit indices; texp %s"
ALL3 = [[], [0], [1], [2], [0, 1], [0, 2], [1, 2], [0, 1, 2]]
ALL2 = [[], [0], [1], [0, 1]]


def HW(name, n, m, inds, texp=None, **kw):
    return dict(name="wiring-" + name, fn=wiring(n, m, texp, inds=inds, **kw), functions=F, bounds=W % (n, m, texp))


BC = C10.B
HARNESSES = [
    HW("instant", 1, 3, ALL3),
    HW("instant-two", 2, 3, ALL3),
    HW("square", 2, 2, ALL2),
    HW("three-planets", 3, 2, ALL2),
    HW("scalar", 1, 3, ALL3, "scalar"),
    HW("vector", 1, 3, ALL3, "vector"),
    HW("vector-two", 2, 3, ALL3, "vector"),
    HW("vector-order1", 2, 2, ALL2, "vector", order=1),
    HW("vector-order2", 2, 2, ALL2, "vector", order=2, oversample=5),
    HW("vector-square", 3, 3, ALL3, "vector"),
    HW("scalar-order2", 2, 2, ALL2, "scalar", order=2),
    dict(name="circ", fn=circular("b"), functions=F + ORBIT_FNS, bounds=BC),
    dict(name="circ-edge-on", fn=circular(None), functions=F + ORBIT_FNS, bounds=BC),
    dict(name="circ-texp-middle", fn=circular(None, "vector", oversample=1), functions=F + ORBIT_FNS, bounds=BC + "; texp < P/2, one sample"),
    dict(name="circ-texp-complete", fn=C10.exposed_complete("b", False), functions=F, bounds=BC + "; no time inside an exposure that is left out is in transit (with wiring-*: the samples lie inside the exposure)"),
    dict(name="circ-texp-complete-vector", fn=C10.exposed_complete("b", True), functions=F, bounds=BC + "; the same with a vector texp"),
    dict(name="circ-two-times", fn=circular_two_times(), functions=F + ORBIT_FNS, bounds=BC + "; two times, edge on"),
    dict(name="circ-two-planets", fn=circular_two_planets, functions=F + ORBIT_FNS, bounds=BC + "; two planets, edge on"),
    dict(name="simple", fn=simple(), functions=F + C17.G_, bounds=C17.B + "any r, one time within half a period of t0"),
    dict(name="simple-two-planets", fn=simple(2, edge=True), functions=F + C17.G_, bounds=C17.B + "two planets at b = 0, one time"),
    dict(name="simple-two-times", fn=simple(1, 2), functions=F + C17.G_, bounds=C17.B + "two times"),
    dict(name="simple-texp", fn=simple(1, 1, "scalar", edge=True), functions=F + C17.G_, bounds=C17.B + "b = 0, texp, order 0, three samples"),
    dict(name="simple-texp-order1", fn=simple(1, 1, "vector", 1, edge=True), functions=F + C17.G_, bounds=C17.B + "b = 0, texp, order 1, three samples"),
    dict(name="simple-texp-order2", fn=simple(1, 1, "scalar", 2, edge=True), functions=F + C17.G_, bounds=C17.B + "b = 0, texp, order 2, three samples"),
    dict(name="ecc", fn=eccentric(), functions=F + ORBIT_FNS, bounds=C10.BE),
    dict(name="ecc-texp", fn=eccentric("vector"), functions=F + ORBIT_FNS, bounds=C10.BE + "; texp sampled at its middle"),
    dict(name="ecc-texp-complete", fn=C10.ecc_overlap("scalar"), functions=F, bounds=C10.BE + "; an exposure is left out only if it does not reach the contact points"),
    dict(name="ecc-texp-complete-vector", fn=C10.ecc_overlap("vector"), functions=F, bounds=C10.BE + "; the same with a vector texp"),
    dict(name="ttv", fn=ttv(), functions=F + ["TTVOrbit"], bounds="all offsets, periods, two labelled transits, edge on, any time nearest to either"),
    dict(name="ttv-texp", fn=ttv("vector"), functions=F + ["TTVOrbit"], bounds="the same with a vector texp of 0"),
]
