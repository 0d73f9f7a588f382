"""Simple transit orbits occult exactly during the stated duration."""
from checks.common import *

TRUSTED = []


class Par:
    pass


def planet(c, j="", edge=False):
    p = Par()
    p.P = c.real("period" + j, 0, nice=(2., 8.))
    p.D = c.real("duration" + j, 0, nice=(.05, .4))
    c.assume(p.D < p.P)
    p.t0 = c.real("t0" + j, nice=(-2., 2.))
    p.b = c.num(0) if edge else c.real("b" + j, 0, strict=False, nice=(0., .9))
    p.ror = c.real("ror" + j, 0, strict=False, nice=(.02, .3))
    c.assume(p.b < 1 + p.ror)
    return p


def build(c, ps, rs, scalar=False):
    col = lambda k: c.tensor(getattr(ps[0], k) if scalar else [getattr(p, k) for p in ps])          # noqa: E731
    return SimpleTransitOrbit(period=col("P"), duration=col("D"), t0=col("t0"), b=col("b"), r_star=c.tensor(rs),
                              ror=col("ror"))


def phase(c, p, name, nice=(-.3, .3)):
    """time since the nearest transit centre, in [-P/2, P/2)"""
    d = c.real(name, nice=nice)
    c.assume(d < p.P / 2)
    c.assume(d >= -p.P / 2)
    return d


def speed(c, p, rs):
    return 2 * rs * c.sqrt((1 + p.ror) ** 2 - p.b ** 2) / p.D


def position(scalar):
    def h(c):
        p = planet(c)
        rs = c.real("r_star", 0, nice=(.5, 1.5))
        orb = build(c, [p], rs, scalar)
        k = c.int("k", nice=(-5, 5))
        d = phase(c, p, "dt")
        t = c.tensor(p.t0 + k * p.P + d) if scalar else c.tensor([p.t0 + k * p.P + d])
        for name in ("get_relative_position", "get_planet_position"):
            x, y, z = [v.item() for v in c.ev(list(getattr(orb, name)(t)))]
            c.eq("x", x, speed(c, p, rs) * d)
            c.eq("y", y, p.b * rs)
            inside = c.all(d < p.D / 2, d > -p.D / 2)
            c.true("in front exactly during the transit", (z > 0) == inside if c.mode == "num" else
                   (inside if bool(z > 0) else c.neg(inside)),
                   margin=[abs(d) - p.D / 2] if c.mode == "num" else None)
        for v in c.ev(list(orb.get_star_position(t))):
            c.eq("star", v.item(), 0)
    return h


def contact(c):
    p = planet(c)
    rs = c.real("r_star", 0, nice=(.5, 1.5))
    orb = build(c, [p], rs)
    k = c.int("k", nice=(-5, 5))
    for s in (-1, 1):
        x, y, z = [v.item() for v in c.ev(list(orb.get_relative_position(c.tensor([p.t0 + k * p.P + s * p.D / 2]))))]
        c.eq("contact %+d" % s, x * x + y * y, (rs * (1 + p.ror)) ** 2)


def shapes(c):
    """two planets, two times: each entry is its own planet at its own time"""
    ps = [planet(c, str(j)) for j in range(2)]
    rs = c.real("r_star", 0, nice=(.5, 1.5))
    orb = build(c, ps, rs)
    ts = []
    d = phase(c, ps[0], "dt")
    ts = [ps[0].t0 + d, ps[1].t0 + c.real("dt1", nice=(-.1, .1))]
    # the second planet's phases follow from the times
    for t in ts:
        for p in ps:
            c.assume(t - p.t0 < p.P / 2)
            c.assume(t - p.t0 >= -p.P / 2)
    pos = c.ev(list(orb.get_relative_position(c.tensor(ts))))
    for v in pos:
        c.shape("shape", v, (2, 2))
    for i, t in enumerate(ts):
        for j, p in enumerate(ps):
            c.eq("x[%d,%d]" % (i, j), pos[0][i, j], speed(c, p, rs) * (t - p.t0))
            c.eq("y[%d,%d]" % (i, j), pos[1][i, j], p.b * rs)
            dt = t - p.t0
            inside = c.all(dt < p.D / 2, dt > -p.D / 2)
            z = pos[2][i, j]
            c.true("z[%d,%d]" % (i, j), (z > 0) == inside if c.mode == "num" else
                   (inside if bool(z > 0) else c.neg(inside)), margin=[abs(dt) - p.D / 2] if c.mode == "num" else None)


def transits(n, m, r, texp):
    """an index is returned iff some planet is within its half duration (+ texp/2) of a transit centre"""
    def h(c):
        ps = [planet(c, str(j)) for j in range(n)]
        rs = c.real("r_star", 0, nice=(.5, 1.5))
        orb = build(c, ps, rs)
        if m > 1 or n > 1:
            ts = [c.real("t%d" % i, nice=(-.3, .3)) for i in range(m)]
            for t in ts:
                for p in ps:
                    c.assume(t - p.t0 < p.P / 2)
                    c.assume(t - p.t0 >= -p.P / 2)
            dt = [[t - p.t0 for p in ps] for t in ts]
        else:
            k = c.int("k", nice=(-5, 5))
            d = phase(c, ps[0], "dt")
            ts, dt = [ps[0].t0 + k * ps[0].P + d], [[d]]
        kw = {}
        half = [p.D / 2 for p in ps]
        if r:
            R = [c.real("r%d" % j, 0, strict=False, nice=(.05, .3)) for j in range(n)]
            for p, x in zip(ps, R):
                c.assume(p.b * rs < rs + x)
            kw["r"] = c.tensor(R)
            half = [c.sqrt((rs + x) ** 2 - (p.b * rs) ** 2) / speed(c, p, rs) for p, x in zip(ps, R)]
        te = [c.num(0)] * m
        if texp:
            te = [c.real("texp%d" % i, 0, nice=(.01, .2)) for i in range(m if texp == "vector" else 1)]
            kw["texp"] = c.tensor(te if texp == "vector" else te[0])
            te = te if texp == "vector" else te * m
        got = [int(i) for i in np.asarray(c.ev(orb.in_transit(c.tensor(ts), **kw))).ravel()]
        c.true("increasing", got == sorted(set(got)) and set(got) <= set(range(m)))
        for i in range(m):
            w = [x + te[i] / 2 for x in half]
            if i in got:
                cond = c.any(*[c.all(d <= x, d >= -x) for d, x in zip(dt[i], w)])
            else:
                cond = c.all(*[c.any(d >= x, d <= -x) for d, x in zip(dt[i], w)])
            c.true("index %d" % i, cond, "returned %s" % got,
                   margin=[abs(d) - x for d, x in zip(dt[i], w)] if c.mode == "num" else None)
    return h


def unsupported(c):
    p = planet(c)
    orb = build(c, [p], c.real("r_star", 0))
    t = c.tensor([c.real("t")])
    for f in (orb.get_planet_velocity, orb.get_star_velocity, orb.get_radial_velocity):
        c.raises(f.__name__, NotImplementedError, lambda: f(t))


F = ["SimpleTransitOrbit.__init__", "get_relative_position", "get_planet_position", "get_star_position"]
G_ = ["SimpleTransitOrbit.in_transit", "SimpleTransitOrbit.__init__"]
B = "all reals: period > duration > 0, t0, 0 <= b < 1 + ror, ror >= 0, r_star > 0; "
HARNESSES = [
    dict(name="position", fn=position(False), functions=F, bounds=B + "any transit number, one planet"),
    dict(name="position-scalar", fn=position(True), functions=F, bounds=B + "any transit number, scalar parameters"),
    dict(name="contact", fn=contact, functions=F, bounds=B + "any transit number"),
    dict(name="two-by-two", fn=shapes, functions=F, bounds=B + "two planets, two times within half a period of t0"),
    dict(name="in-transit", fn=transits(1, 1, False, None), functions=G_, bounds=B + "any transit number"),
    dict(name="in-transit-r", fn=transits(1, 1, True, None), functions=G_, bounds=B + "any transit number, r"),
    dict(name="in-transit-texp", fn=transits(1, 1, True, "scalar"), functions=G_, bounds=B + "any transit number, r, texp"),
    dict(name="in-transit-texp-vector", fn=transits(1, 1, False, "vector"), functions=G_, bounds=B + "any transit number, texp per time"),
    dict(name="in-transit-two-times", fn=transits(1, 2, True, "vector"), functions=G_, bounds=B + "two times within half a period of t0, r, texp per time"),
    dict(name="in-transit-two-planets", fn=transits(2, 1, True, "scalar"), functions=G_, bounds=B + "two planets, one time within half a period of both t0"),
    dict(name="in-transit-two-planets-default", fn=transits(2, 1, False, None), functions=G_, bounds=B + "two planets, one time"),
    dict(name="in-transit-two-by-two", fn=transits(2, 2, False, "vector"), functions=G_, bounds=B + "two planets, two times within half a period of t0, texp per time"),
    dict(name="unsupported", fn=unsupported, functions=["SimpleTransitOrbit.get_*_velocity"], bounds="-"),
]
