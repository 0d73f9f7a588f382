"""Exposure-time integration is a normalised quadrature of the stated order."""
import exoplanet.light_curves as xlc

from checks.C21 import deficit, limb, TRUSTED                # noqa: F401
from checks.common import *
from fractions import Fraction as Fr


def rule(order, oversample):
    """nodes (in units of texp, around the middle of the exposure) and weights of the composite rule"""
    n = int(oversample)
    n += 1 - n % 2
    if order == 0:
        x = [Fr(2 * i + 1, 2 * n) - Fr(1, 2) for i in range(n)]
        w = [Fr(1, n)] * n
    else:
        x = [Fr(i, n - 1) - Fr(1, 2) for i in range(n)]
        if order == 1:
            w = [Fr(1 if i in (0, n - 1) else 2, 2 * (n - 1)) for i in range(n)]
        else:
            w = [Fr(1 if i in (0, n - 1) else (4 if i % 2 else 2), 3 * (n - 1)) for i in range(n)]
    # what the property asks of a quadrature rule
    assert sum(w) == 1 and min(w) >= 0 and min(x) >= -Fr(1, 2) and max(x) <= Fr(1, 2)
    assert sorted(x) == sorted(-v for v in x)
    for k in range(1, 4 if order == 2 else 2):
        exact = 0 if k % 2 else Fr(1, 2 ** k * (k + 1))
        assert sum(a * b ** k for a, b in zip(w, x)) == exact
    return x, w


def num(c, f):
    return c.num(f.numerator) / f.denominator


def model(order, oversample, n=1, nt=1, texp="scalar", tshape=None, z=False, default=False):
    def h(c):
        c.option("quad_split", False)
        c.option("snap", 4 * (oversample + 2) * (oversample + 1))
        u1, u2 = limb(c)
        orb = LineOrbit(c, n, z=z, y=True)
        r = [c.real("r%d" % j, 0, strict=False, nice=(.05, .6)) for j in range(n)]
        t = [c.real("t%d" % i, nice=(-1., 1.)) for i in range(nt)]
        if texp == "scalar":
            e = c.real("texp", 0, strict=False, nice=(.1, 2.))
            es, et = [e] * nt, c.tensor(e)
        else:
            es = [c.real("texp%d" % i, 0, strict=False, nice=(.1, 2.)) for i in range(nt)]
            et = c.tensor(es)
        lc = xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
        kw = {} if default else dict(order=order, oversample=oversample)
        got = c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor(t[0] if tshape == () else t), texp=et,
                                      use_in_transit=False, **kw))
        c.shape("light curve", got, (n,) if tshape == () else (nt, n))
        got = got.reshape(nt, n)
        X, W = rule(order, oversample)
        for i in range(nt):
            for j in range(n):
                want = c.num(0)
                for x, w in zip(X, W):
                    px, py, pz = orb.at(t[i] + num(c, x) * es[i], j)
                    if z and bool(pz <= 0):
                        continue
                    want = want + num(c, w) * deficit(c, u1, u2, c.sqrt(px * px + py * py) / orb.rs, r[j] / orb.rs)
                c.eq("flux[%d,%d]" % (i, j), got[i, j], want)
    return h


def grid(order, texp, n=1, shape=(2, 2), oversample=3):
    """an array of times, the exposure times of the same shape or a scalar"""
    def h(c):
        c.option("quad_split", False)
        c.option("snap", 4 * (oversample + 2) * (oversample + 1))
        u1, u2 = limb(c)
        orb = LineOrbit(c, n, z=False, y=True)
        r = [c.real("r%d" % j, 0, strict=False, nice=(.05, .6)) for j in range(n)]
        name = lambda k: [["%s%d_%d" % (k, i, j) for j in range(shape[1])] for i in range(shape[0])]     # noqa: E731
        t = [[c.real(x, nice=(-1., 1.)) for x in row] for row in name("t")]
        if texp == "scalar":
            e = c.real("texp", 0, strict=False, nice=(.1, 2.))
            es, et = [[e] * shape[1]] * shape[0], c.tensor(e)
        else:
            es = [[c.real(x, 0, strict=False, nice=(.1, 2.)) for x in row] for row in name("texp")]
            et = c.tensor(es)
        lc = xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
        got = c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor(t), texp=et, use_in_transit=False,
                                      order=order, oversample=oversample))
        c.shape("light curve", got, shape + (n,))
        X, W = rule(order, oversample)
        for i in range(shape[0]):
            for k in range(shape[1]):
                for j in range(n):
                    want = c.num(0)
                    for x, w in zip(X, W):
                        px, py, pz = orb.at(t[i][k] + num(c, x) * es[i][k], j)
                        want = want + num(c, w) * deficit(c, u1, u2, c.sqrt(px * px + py * py) / orb.rs, r[j] / orb.rs)
                    c.eq("flux[%d,%d,%d]" % (i, k, j), got[i, k, j], want)
    return h


def errors(c):
    u = c.real("u1", 0, .5)
    lc = xlc.LimbDarkLightCurve(c.tensor(u), c.tensor(u))
    orb = LineOrbit(c, 1)
    for order in (3, -1, 5):
        c.raises("order %d" % order, ValueError, lambda: lc.get_light_curve(
            orbit=orb, r=c.tensor(c.num(.1)), t=c.tensor([c.num(0)]), texp=c.tensor(c.num(.1)), order=order,
            use_in_transit=False))


F = ["LimbDarkLightCurve.get_light_curve"]
B = "all times, texp >= 0, straight-line trajectories (in front of the star unless stated), r >= 0, u1, u2; order %d, oversample %d; %s"


def H(name, order, oversample, note="one time", thorough=False, **kw):
    return dict(name=name, fn=model(order, oversample, **kw), functions=F, bounds=B % (order, oversample, note),
                thorough_only=thorough)


HARNESSES = [H("default", 0, 7, default=True, note="default order and oversample")]
for o in (0, 1, 2):
    for n in (1, 2, 3, 4, 5, 6, 9, 11):
        if o and n < 2:
            continue
        HARNESSES.append(H("order%d-%d" % (o, n), o, n, thorough=n > 9))
    HARNESSES.append(H("order%d-vector-texp" % o, o, 3, nt=2, texp="vector", note="two times, one texp each"))
    HARNESSES.append(H("order%d-scalar-texp-two" % o, o, 3, nt=2, note="two times, scalar texp"))
    HARNESSES.append(H("order%d-two-planets" % o, o, 3, n=2, nt=2, texp="vector", note="two planets, two times, one texp each"))
    HARNESSES.append(H("order%d-square" % o, o, 3, n=3, nt=3, note="three planets, three times, three samples"))
    HARNESSES.append(H("order%d-scalar-t" % o, o, 3, n=2, tshape=(), note="two planets, scalar time"))
    HARNESSES.append(H("order%d-behind" % o, o, 3, z=2, note="the planet may pass in front of or behind the star"))
for o in (0, 1, 2):
    for tx in ("scalar", "matrix"):
        HARNESSES.append(dict(name="order%d-times-2x2-%s" % (o, tx), fn=grid(o, tx, n=1 + o % 2), functions=F,
                              bounds=B % (o, 3, "2 x 2 times, %s texp" % tx)))
HARNESSES.append(dict(name="errors", fn=errors, functions=F, bounds="orders other than 0, 1, 2"))
