"""quad_limb_dark only yields physical coefficients, uniformly distributed."""
from exoplanet.distributions import quad_limb_dark
import exoplanet.distributions as xd

from checks.common import *
from checks.priors import Prior, TRUSTED, full, idx, log_volume, pts, requested      # noqa: F401


def triangle(c, u1, u2):
    """positive everywhere and decreasing towards the limb"""
    c.lt("u1 + u2 < 1", u1 + u2, 1)
    c.lt("u1 > 0", 0, u1)
    c.lt("u1 + 2 u2 > 0", 0, u1 + 2 * u2)


def density(fn=quad_limb_dark, **kw):
    """physical, and uniform on the triangle (which has area one)"""
    def h(c):
        p = Prior(c, lambda m: fn("u", **kw))
        shape = full(kw.get("shape", ()))
        v = p.sample("v")
        e = p.exprs([p.out])
        u, L = p.at(e + [p.total], v)
        c.shape("u", u, (2,) + shape)
        for a, b in zip(pts(u[0]), pts(u[1])):
            triangle(c, a, b)
        c.eq("uniform", L.item() - log_volume(c, p, e, v), 0)
    return h


def injective(c):
    """different sampled values give different coefficients (with the uniform density: every pair is reached)"""
    p = Prior(c, lambda m: quad_limb_dark("u"))
    v, w = p.sample("v"), p.sample("w")
    e = p.exprs([p.out])
    (a,), (b,) = p.at(e, v), p.at(e, w)
    c.assume(a[0] == b[0])
    c.assume(a[1] == b[1])
    for x, y in zip(v, w):
        c.eq("same sampled value", x, y)


def start(how="initval", **kw):
    def h(c):
        shape = full(kw.get("shape", ()))
        u = np.empty((2,) + shape, dtype=object)
        for i in np.ndindex(*shape):
            a, b = c.real("u1" + idx(i), 0, nice=(.05, .5)), c.real("u2" + idx(i), nice=(.05, .4))
            c.assume(a + b < 1)
            c.assume(a + 2 * b > 0)
            u[(0,) + i], u[(1,) + i] = a, b
        p = Prior(c, lambda m: quad_limb_dark("u", **{how: requested(c, u)}, **kw))
        s, (got,) = p.start([p.out])
        for x in p.flat(s):
            c.lt("sampled value > 0", 0, x)
            c.lt("sampled value < 1", x, 1)
        c.shape("start", got, (2,) + shape)
        c.eq("start", got, u)
    return h


def default(**kw):
    def h(c):
        c.real("unused", 0, 1)
        p = Prior(c, lambda m: quad_limb_dark("u", **kw))
        s, (got,) = p.start([p.out])
        c.shape("start", got, (2,) + full(kw.get("shape", ())))
        for a, b in zip(pts(got[0]), pts(got[1])):
            triangle(c, a, b)
        c.true("name", p.m["u"] is p.out)
    return h


F = ["quad_limb_dark"]
A = "all sampled values, %s"
I = "all requested coefficients in the triangle, %s"
HARNESSES = [
    dict(name="density", fn=density(), functions=F, bounds=A % "scalar"),
    dict(name="density-2", fn=density(shape=2), functions=F, bounds=A % "shape=2"),
    dict(name="density-1x2", fn=density(shape=(1, 2)), functions=F, bounds=A % "shape=(1, 2)"),
    dict(name="density-old-name", fn=density(fn=xd.QuadLimbDark), functions=F + ["QuadLimbDark"], bounds=A % "through the deprecated name"),
    dict(name="injective", fn=injective, functions=F, bounds="all pairs of sampled values"),
    dict(name="start", fn=start(), functions=F, bounds=I % "scalar"),
    dict(name="start-testval", fn=start("testval"), functions=F, bounds=I % "scalar, through testval"),
    dict(name="start-2", fn=start(shape=2), functions=F, bounds=I % "shape=2"),
    dict(name="start-2x2", fn=start(shape=(2, 2)), functions=F, bounds=I % "shape=(2, 2)"),
    dict(name="default", fn=default(), functions=F, bounds="default starting point"),
    dict(name="default-3", fn=default(shape=3), functions=F, bounds="default starting point, shape=3"),
]
