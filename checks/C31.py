"""impact_parameter is uniform between 0 and 1 + ror."""
import pymc as pm
from exoplanet.distributions import impact_parameter
import exoplanet.distributions as xd

from checks.common import *
from checks.priors import Prior, TRUSTED, full, idx, log_volume, pts, requested      # noqa: F401


def radii(c, shape, tag="ror"):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = c.real(tag + idx(i), 0, nice=(.02, .9))
    return a if shape else a.item()


def given(c, ror):
    """a radius ratio as a user gives it"""
    if c.mode == "num":
        return np.asarray(ror, dtype=float) if np.ndim(ror) else float(ror)
    return c.tensor(np.asarray(ror, dtype=object).tolist() if np.ndim(ror) else ror)


def check(c, p, out, ror, v, shape, L, prior=0):
    c.shape("b", out, shape)
    r = np.broadcast_to(np.asarray(ror, dtype=object), shape)
    n = c.num(0)
    for b, k in zip(pts(out), pts(r)):
        c.lt("positive", 0, b)
        c.lt("below 1 + ror", b, 1 + k)
        n = n - c.log(1 + k)
    c.eq("uniform", L, prior + n)


def density(rshape=(), shape=None, fn=impact_parameter, **kw):
    """ror is data"""
    def h(c):
        ror = radii(c, rshape)
        k = dict(kw)
        if shape is not None:
            k["shape"] = shape
        p = Prior(c, lambda m: fn("b", given(c, ror), **k))
        c.true("one variable", len(p.vals) == 1)
        s = rshape if shape is None else full(shape)
        v = p.sample("v")
        e = p.exprs([p.out])
        out, L = p.at(e + [p.total], v)
        check(c, p, out, ror, v, s, L.item() - log_volume(c, p, e, v))
        c.true("name", p.m["b"] is p.out)
    return h


def hierarchical(rshape=(), **kw):
    """ror is sampled: the conditional density is uniform, the density of ror itself stays what it was"""
    def h(c):
        lo = c.real("lo", 0, nice=(.01, .1))
        hi = c.real("hi", 0, nice=(.2, 1.))
        c.assume(lo < hi)
        k = {"shape": rshape} if rshape else {}

        def build(m):
            r = pm.Uniform("r", given(c, lo), given(c, hi), **k)
            return r, impact_parameter("b", r, **kw)
        p = Prior(c, build)
        v = p.sample("v")
        r, b = p.exprs(list(p.out))
        r_, b_, L = p.at([r, b, p.total], v)
        c.eq("ror", r_, v[0])
        n = 1
        for q in rshape:
            n *= q
        vol = log_volume(c, p, [r, b], v)
        check(c, p, b_, r_, v, rshape, L.item() - vol, -n * c.log(hi - lo))
    return h


def start(how="initval", rshape=(), shape=None, ishape=None):
    def h(c):
        ror = radii(c, rshape)
        s = rshape if shape is None else full(shape)
        b = np.empty(s if ishape is None else ishape, dtype=object)
        for i in np.ndindex(*b.shape):
            b[i] = c.real("b" + idx(i), 0, nice=(.05, .9))
        full_b = np.broadcast_to(b, s)
        for x, k in zip(pts(full_b), pts(np.broadcast_to(np.asarray(ror, dtype=object), s))):
            c.assume(x < 1 + k)
        k = {} if shape is None else {"shape": shape}
        p = Prior(c, lambda m: impact_parameter("b", given(c, ror), **{how: requested(c, b if b.shape else b.item())}, **k))
        _, (got,) = p.start([p.out])
        c.shape("start", got, s)
        c.eq("start", got, full_b)
    return h


def default(rshape=(), shape=None):
    def h(c):
        ror = radii(c, rshape)
        s = rshape if shape is None else full(shape)
        k = {} if shape is None else {"shape": shape}
        p = Prior(c, lambda m: impact_parameter("b", given(c, ror), **k))
        st, (got,) = p.start([p.out])
        c.shape("start", got, s)
        c.eq("start", got, np.full(s, .5))
        for x in p.flat(st):
            c.lt("sampled value > 0", 0, x)
            c.lt("sampled value < 1", x, 1)
    return h


def start_sampled(c):
    """the starting point takes the starting point of a sampled ror into account"""
    r0 = c.real("r0", 0, nice=(.05, .5))
    b0 = c.real("b0", 0, nice=(.05, .9))
    c.assume(r0 < 1)
    c.assume(b0 < 1 + r0)
    p = Prior(c, lambda m: impact_parameter("b", pm.Uniform("r", 0., 1., initval=requested(c, r0)), initval=requested(c, b0)))
    _, (got,) = p.start([p.out])
    c.eq("start", got, b0)


F = ["impact_parameter"]
A = "all positive radius ratios, all sampled values, %s"
I = "all positive radius ratios and requested impact parameters, %s"
HARNESSES = [
    dict(name="density", fn=density(), functions=F, bounds=A % "scalar"),
    dict(name="density-vector", fn=density((2,)), functions=F, bounds=A % "vector of 2 planets"),
    dict(name="density-matrix", fn=density((2, 2)), functions=F, bounds=A % "2x2 matrix"),
    dict(name="density-shape", fn=density((), 2), functions=F, bounds=A % "scalar ror, shape=2"),
    dict(name="density-shape-tuple", fn=density((), (2, 1)), functions=F, bounds=A % "scalar ror, shape=(2, 1)"),
    dict(name="density-vector-shape", fn=density((2,), (2, 2)), functions=F, bounds=A % "vector ror, shape=(2, 2)"),
    dict(name="density-old-name", fn=density((2,), fn=xd.ImpactParameter), functions=F + ["ImpactParameter"],
         bounds=A % "through the deprecated name"),
    dict(name="hierarchical", fn=hierarchical(), functions=F, bounds=A % "ror sampled between any bounds"),
    dict(name="hierarchical-2", fn=hierarchical((2,)), functions=F, bounds=A % "two sampled ror"),
    dict(name="start", fn=start(), functions=F, bounds=I % "scalar"),
    dict(name="start-testval", fn=start("testval"), functions=F, bounds=I % "scalar, through testval"),
    dict(name="start-vector", fn=start("initval", (2,)), functions=F, bounds=I % "vector of 2"),
    dict(name="start-vector-scalar", fn=start("initval", (2,), None, ()), functions=F, bounds=I % "vector of 2, one initval"),
    dict(name="start-shape", fn=start("initval", (), 3), functions=F, bounds=I % "scalar ror, shape=3"),
    dict(name="start-vector-shape", fn=start("initval", (2,), (2, 2)), functions=F, bounds=I % "vector ror, shape=(2, 2)"),
    dict(name="start-sampled", fn=start_sampled, functions=F, bounds=I % "sampled ror"),
    dict(name="default", fn=default(), functions=F, bounds="all positive radius ratios"),
    dict(name="default-2x3", fn=default((2, 3)), functions=F, bounds="all positive radius ratios, 2x3 matrix"),
    dict(name="default-shape", fn=default((), 3), functions=F, bounds="all positive radius ratios, shape=3"),
]
