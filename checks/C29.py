"""angle is bounded, rotation-invariant and starts at its initval."""
from exoplanet.distributions import angle

from checks.common import *
from checks.priors import Prior, TRUSTED, full, idx, pts, requested      # noqa: F401

TRUSTED = TRUSTED + ["the free variables of an angle are its two cartesian coordinates (sine first)"]


def density(**kw):
    """the angle is the polar angle; the density is that of two unit normals, times radius^(2 regularization)"""
    def h(c):
        k = dict(kw)
        reg = k.get("regularization", 10.0)
        if reg == "any":
            reg = c.real("regularization", nice=(-1., 20.))
            k["regularization"] = requested(c, reg)
        p = Prior(c, lambda m: angle("phi", **k))
        shape = full(kw.get("shape", ()))
        c.true("two coordinates", len(p.vals) == 2)
        v = p.sample("v")
        want = c.num(0)
        for x, y in zip(pts(v[0]), pts(v[1])):
            r2 = x * x + y * y
            c.assume(r2 > 0)
            want = want - r2 / 2 - c.log(2 * c.pi)
            if reg is not None:
                want = want + reg * c.log(r2)
        out, L = p.at(p.exprs([p.out]) + [p.total], v)
        c.shape("angle", out, shape)
        for phi, x, y in zip(pts(out), pts(v[0]), pts(v[1])):
            r = c.sqrt(x * x + y * y)
            c.le("at most pi", phi, c.pi)
            c.le("at least -pi", -c.pi, phi)
            c.eq("sine", c.sin(phi), x / r)
            c.eq("cosine", c.cos(phi), y / r)
        c.eq("density", L.item(), want)
    return h


def rotation(**kw):
    """the density does not change when all coordinates are rotated; the angle moves along"""
    def h(c):
        p = Prior(c, lambda m: angle("phi", **kw))
        v = p.sample("v")
        d = c.angle("delta")
        co, si = c.cos(d), c.sin(d)
        for x, y in zip(pts(v[0]), pts(v[1])):
            c.assume(x * x + y * y > 0)
        A, B = np.asarray(v[0], dtype=object), np.asarray(v[1], dtype=object)
        w = [A * co + B * si, B * co - A * si]
        e = p.exprs([p.out]) + [p.total]
        (f, L), (g, M) = p.at(e, v), p.at(e, w)
        c.eq("density", M.item(), L.item())
        for a, b in zip(pts(f), pts(g)):
            c.eq("sine", c.sin(b), c.sin(a + d))
            c.eq("cosine", c.cos(b), c.cos(a + d))
    return h


def start(how="initval", **kw):
    def h(c):
        shape = full(kw.get("shape", ()))
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = c.angle("initval" + idx(i))
        p = Prior(c, lambda m: angle("phi", **{how: requested(c, a if shape else a.item())}, **kw))
        _, (got,) = p.start([p.out])
        c.shape("start", got, shape)
        for g, w in zip(pts(got), pts(a)):
            c.eq("sine", c.sin(g), c.sin(w))
            c.eq("cosine", c.cos(g), c.cos(w))
    return h


def default(**kw):
    def h(c):
        c.real("unused", 0, 1)
        p = Prior(c, lambda m: angle("phi", **kw))
        _, (got,) = p.start([p.out])
        c.shape("start", got, full(kw.get("shape", ())))
        for g in pts(got):
            c.le("at most pi", g, c.pi)
            c.le("at least -pi", -c.pi, g)
        c.true("name", p.m["phi"] is p.out)
    return h


F = ["angle"]
A = "all sampled values, %s"
I = "all requested angles, %s"
HARNESSES = [
    dict(name="density", fn=density(), functions=F, bounds=A % "default regularization"),
    dict(name="density-none", fn=density(regularization=None), functions=F, bounds=A % "no regularization"),
    dict(name="density-zero", fn=density(regularization=0.0), functions=F, bounds=A % "regularization 0"),
    dict(name="density-any", fn=density(regularization="any"), functions=F, bounds=A % "any regularization"),
    dict(name="density-2", fn=density(shape=2), functions=F, bounds=A % "shape=2"),
    dict(name="density-2x1", fn=density(shape=(2, 1), regularization=None), functions=F, bounds=A % "shape=(2, 1), no regularization"),
    dict(name="rotation", fn=rotation(), functions=F, bounds=A % "any rotation"),
    dict(name="rotation-none", fn=rotation(regularization=None), functions=F, bounds=A % "any rotation, no regularization"),
    dict(name="rotation-2", fn=rotation(shape=(2,)), functions=F, bounds=A % "shape=(2,), common rotation"),
    dict(name="start", fn=start(), functions=F, bounds=I % "scalar"),
    dict(name="start-testval", fn=start("testval"), functions=F, bounds=I % "scalar, through testval"),
    dict(name="start-none", fn=start(regularization=None), functions=F, bounds=I % "scalar, no regularization"),
    dict(name="start-3", fn=start(shape=3), functions=F, bounds=I % "shape=3"),
    dict(name="start-2x2", fn=start(shape=(2, 2)), functions=F, bounds=I % "shape=(2, 2)"),
    dict(name="default", fn=default(), functions=F, bounds="default starting point"),
    dict(name="default-2x3", fn=default(shape=(2, 3)), functions=F, bounds="default starting point, shape=(2, 3)"),
]
