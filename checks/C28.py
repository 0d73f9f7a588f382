"""unit_disk yields points in the open unit disc with a uniform density."""
from exoplanet.distributions import unit_disk

from checks.common import *
from checks.priors import Prior, TRUSTED, full, idx, log_volume, pts, requested      # noqa: F401


def density(**kw):
    """inside the disc, and the same density at any two points"""
    def h(c):
        p = Prior(c, lambda m: unit_disk("x", "y", **kw))
        shape = full(kw.get("shape", ()))
        D = []
        for tag in "vw":
            v = p.sample(tag)
            e = p.exprs(p.out)
            x, y, L = p.at(e + [p.total], v)
            c.shape("x", x, shape)
            c.shape("y", y, shape)
            for a, b in zip(pts(x), pts(y)):
                c.true("inside the disc", a * a + b * b < 1)
            D.append(L.item() - log_volume(c, p, e, v))
        c.eq("uniform", D[0], D[1])
    return h


def start(how="initval", **kw):
    def h(c):
        shape = full(kw.get("shape", ()))
        x, y = np.empty(shape, dtype=object), np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            t = idx(i)
            x[i], y[i] = c.real("x" + t, nice=(-.6, .6)), c.real("y" + t, nice=(-.6, .6))
            c.assume(x[i] > -1)
            c.assume(x[i] < 1)
            c.assume(x[i] ** 2 + y[i] ** 2 < 1)
        z = requested(c, np.stack([x, y]))
        p = Prior(c, lambda m: unit_disk("x", "y", **{how: z}, **kw))
        _, got = p.start(p.out)
        c.eq("x", got[0], x)
        c.eq("y", got[1], y)
    return h


def default(**kw):
    def h(c):
        c.real("unused", 0, 1)
        p = Prior(c, lambda m: unit_disk("x", "y", **kw))
        shape = full(kw.get("shape", ()))
        s, got = p.start(p.out)
        for g in got:
            c.shape("start", g, shape)
        for a, b in zip(pts(got[0]), pts(got[1])):
            c.true("starts inside the disc", a * a + b * b < 1)
        c.true("names", p.m["x"] is p.out[0] and p.m["y"] is p.out[1])
    return h


F = ["unit_disk"]
HARNESSES = [
    dict(name="density", fn=density(), functions=F, bounds="all sampled values, scalar"),
    dict(name="density-2", fn=density(shape=2), functions=F, bounds="all sampled values, shape=2"),
    dict(name="density-1x2", fn=density(shape=(1, 2)), functions=F, bounds="all sampled values, shape=(1, 2)"),
    dict(name="start", fn=start(), functions=F, bounds="all requested points in the disc, scalar"),
    dict(name="start-testval", fn=start("testval"), functions=F, bounds="all requested points in the disc, scalar"),
    dict(name="start-2", fn=start(shape=2), functions=F, bounds="all requested points in the disc, shape=2"),
    dict(name="start-2x2", fn=start(shape=(2, 2)), functions=F, bounds="all requested points in the disc, shape=(2, 2)"),
    dict(name="default", fn=default(), functions=F, bounds="default starting point"),
    dict(name="default-3", fn=default(shape=(3,)), functions=F, bounds="default starting point, shape=(3,)"),
    dict(name="default-2x3", fn=default(shape=(2, 3)), functions=F, bounds="default starting point, shape=(2, 3)"),
]
