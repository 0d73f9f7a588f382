"""kipping13 has the documented beta density on the requested interval."""
import pytensor.tensor as pt
from exoplanet.distributions.eccentricity import kipping13

from checks.eccprior import *

F = ["kipping13", "_truncate", "_truncate_dist", "_logp"]
FULL, SHORT = ((1.12, .1), (3.09, .3)), ((.697, .4), (3.27, .3))
PUBLISHED = {None: FULL, True: FULL, False: SHORT}


def kernel(c, e, a, b):
    out = c.num(0)
    for x in pts(e):
        out = out + (a - 1) * c.log(x) + (b - 1) * c.log(1 - x)
    return out


def hyper(c, tag):
    return c.real("alpha" + tag, 0, nice=(.3, 3.)), c.real("beta" + tag, 0, nice=(.5, 6.))


def density(which="none", long=None, observed=False, shape=()):
    """fixed hyperparameters: the ratio of the densities at any eccentricity and a point of reference"""
    def h(c):
        kw, lo, hi = interval(c, which)
        (a, _), (b, _) = PUBLISHED[long]
        D = []
        for e in (inside(c, "x", shape, lo, hi), reference(c, shape, lo, hi)):
            p = EccPrior(c, kipping13, shape, e if observed else None, long=long, **kw)
            c.true("variables", p.names == ([] if observed else ["e"]))
            c.true("name", p.m["e"] is p.out)
            D.append(p.logp(e) - kernel(c, e, a, b))
        c.eq("density", D[0], D[1])
    return h


def beyond(which="none", long=None, observed=False, fixed=True):
    """nothing outside the bounds"""
    def h(c):
        kw, lo, hi = interval(c, which)
        e = outside(c, "x", lo, hi)
        p = EccPrior(c, kipping13, (), e if observed else None, long=long, fixed=fixed, **kw)
        hy = {}
        if not fixed:
            hy["alpha"], hy["beta"] = hyper(c, "")
        neg_inf(c, "outside", p.logp(e, **hy))
    return h


def hierarchy(which="none", long=None, observed=False, shape=()):
    """sampled hyperparameters: ratio of the densities at any set of values and a point of reference"""
    def h(c):
        kw, lo, hi = interval(c, which)
        (am, asd), (bm, bsd) = PUBLISHED[long]
        D = []
        for e, (a, b) in ((inside(c, "x", shape, lo, hi), hyper(c, "")), (reference(c, shape, lo, hi), (c.num(1.5), c.num(2.5)))):
            p = EccPrior(c, kipping13, shape, e if observed else None, long=long, fixed=False, **kw)
            c.true("variables", sorted(p.names) == ([] if observed else ["e"]) + ["e::alpha", "e::beta"])
            n = max(1, int(np.prod(shape)))
            z = area(c, a, b, lo, hi, which)
            D.append(p.logp(e, alpha=a, beta=b) - kernel(c, e, a, b) + n * z - normal(a, am, asd) - normal(b, bm, bsd))
        c.eq("density", D[0], D[1])
    return h


def area(c, a, b, lo, hi, which):
    """log of the integral of the beta kernel between the bounds"""
    A, B = data(c, a), data(c, b)
    z = c.ev(pt.gammaln(A) + pt.gammaln(B) - pt.gammaln(A + B)).item()
    if which == "none":
        return z
    up = c.ev(pt.betainc(A, B, data(c, hi))).item() if which in ("upper", "both") else c.num(1)
    dn = c.ev(pt.betainc(A, B, data(c, lo))).item() if which in ("lower", "both") else c.num(0)
    return z + c.log(up - dn)


def begin(which="none", given=False, fixed=True, long=None, shape=(), ishape=None):
    """starting point"""
    def h(c):
        kw, lo, hi = interval(c, which)
        if which == "none":
            c.real("unused", 0, 1)
        x = inside(c, "x", shape if ishape is None else ishape, lo, hi) if given else None
        p = EccPrior(c, kipping13, shape, initval=x, fixed=fixed, long=long, **kw)
        s = p.begin()
        c.shape("start", s["e"], shape)
        for q in pts(s["e"]):
            c.lt("above the lower bound", lo, q)
            c.lt("below the upper bound", q, hi)
        if given:
            c.eq("start", s["e"], np.broadcast_to(np.asarray(x, dtype=object), shape))
        if not fixed:
            (am, _), (bm, _) = PUBLISHED[long]
            c.eq("alpha", s["e::alpha"], am)
            c.eq("beta", s["e::beta"], bm)
    return h


def reached(which="none", fixed=True, shape=()):
    """whatever the sampler tries stays inside the bounds, and hyperparameters are positive"""
    def h(c):
        kw, lo, hi = interval(c, which)
        x = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            x[i] = c.real("x" + idx(i), nice=(-3., 3.))
        z = c.real("z", nice=(-3., 3.))
        hy = hyper(c, "") if not fixed else ()
        p = EccPrior(c, kipping13, shape, fixed=fixed, **kw)
        vals = [dict(zip(("e", "e::alpha", "e::beta"), (np.full(shape, c.num(1) / 2), *hy)))[n] for n in p.names]
        for e in pts(p.reach("e", x if shape else x.item(), vals)):
            c.lt("above the lower bound", lo, e)
            c.lt("below the upper bound", e, hi)
        if not fixed:
            for n in ("e::alpha", "e::beta"):
                c.lt("positive", 0, p.reach(n, z, vals).item())
    return h


N = {None: "full sample", True: "long periods", False: "short periods"}
HARNESSES = []


def add(name, fn, bounds):
    HARNESSES.append(dict(name=name, fn=fn, functions=F, bounds=bounds))


E_ = "all eccentricities inside the bounds, "
for lg in (None, True, False):
    add("density-%s" % N[lg].split()[0], density(long=lg), E_ + N[lg])
    add("hierarchy-%s" % N[lg].split()[0], hierarchy(long=lg), E_ + "all hyperparameters, " + N[lg])
for w in ("lower", "upper", "both"):
    add("density-" + w, density(w), E_ + "all bounds (%s)" % w)
    add("density-observed-" + w, density(w, observed=True), E_ + "all bounds (%s), observed" % w)
    add("beyond-" + w, beyond(w), "all eccentricities outside all bounds (%s)" % w)
    add("beyond-observed-" + w, beyond(w, observed=True), "all eccentricities outside all bounds (%s), observed" % w)
    add("start-" + w, begin(w), "all bounds (%s)" % w)
    add("start-given-" + w, begin(w, True), "all bounds (%s), all initial values" % w)
add("density-observed", density(observed=True), E_ + "observed")
add("density-2", density(shape=(2,)), E_ + "shape (2,)")
add("density-2-both", density("both", shape=(2,), long=False), E_ + "shape (2,), all bounds, short periods")
add("density-observed-2", density(shape=(2,), observed=True, long=False), E_ + "shape (2,), observed, short periods")
add("hierarchy-observed", hierarchy(observed=True), E_ + "all hyperparameters, observed")
add("hierarchy-2", hierarchy(shape=(2,)), E_ + "all hyperparameters, shape (2,)")
add("hierarchy-lower", hierarchy("lower"), E_ + "all hyperparameters, all lower bounds")
add("hierarchy-both", hierarchy("both"), E_ + "all hyperparameters and bounds")
add("beyond", beyond(), "all eccentricities outside (0, 1)")
add("beyond-observed", beyond(observed=True), "all eccentricities outside (0, 1), observed")
add("beyond-hierarchy", beyond("both", fixed=False), "all eccentricities outside all bounds, all hyperparameters")
for w in ("none", "lower", "upper", "both"):
    add("reached-" + w, reached(w), "all bounds (%s), all unconstrained values" % w)
add("reached-both-2", reached("both", shape=(2,)), "all bounds, all unconstrained values, shape (2,)")
add("reached-hierarchy", reached(fixed=False), "all unconstrained values and hyperparameters")
add("start", begin(), "default starting point")
add("start-given", begin("none", True), "all initial values")
add("start-given-2", begin("none", True, shape=(2,)), "all initial values, shape (2,)")
add("start-both-2", begin("both", shape=(2,)), "all bounds, shape (2,)")
add("start-hierarchy", begin("both", True, fixed=False), "all bounds and initial values")
add("start-hierarchy-short", begin("none", fixed=False, long=False), "short periods")
