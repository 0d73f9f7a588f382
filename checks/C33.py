"""vaneylen19 has the documented mixture density on the requested interval."""
from exoplanet.distributions.eccentricity import vaneylen19

from checks.eccprior import *

F = ["vaneylen19", "_truncate", "_logp"]
GAUSS, RAYLEIGH = (.049, .02), (.26, .05)
FRACTION = {False: (.76, .2), True: (.08, .08)}
HYPER = ("sigma_gauss", "sigma_rayleigh", "frac")


def mixture(c, e, s, r, f):
    """the documented density (product over the planets)"""
    out = c.num(1)
    for x in pts(e):
        half_normal = c.sqrt(2 / c.pi) / s * c.exp(-x * x / (2 * s * s))
        rayleigh = x / (r * r) * c.exp(-x * x / (2 * r * r))
        out = out * ((1 - f) * half_normal + f * rayleigh)
    return out


def between(c, tag, shape, lo, hi):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = c.real(tag + idx(i), 0, nice=(.42, .48))
        c.assume(a[i] < 1)
        c.assume(a[i] > lo)
        c.assume(a[i] < hi)
    return a if shape else a.item()


def density(which="none", multi=False, observed=False, shape=()):
    """fixed hyperparameters: the ratio of the densities at any eccentricity and a point of reference"""
    def h(c):
        kw, lo, hi = interval(c, which)
        s, r, f = [c.num(q) for q in (GAUSS[0], RAYLEIGH[0], FRACTION[multi][0])]
        D = []
        for e in (between(c, "x", shape, lo, hi), between(c, "ref", shape, lo, hi)):
            p = EccPrior(c, vaneylen19, shape, e if observed else None, multi=multi, **kw)
            c.true("variables", p.names == ([] if observed else ["e"]))
            c.true("name", p.m["e"] is p.out)
            D.append((c.exp(p.logp(e)), mixture(c, e, s, r, f)))
        c.eq("density", D[0][0] * D[1][1], D[1][0] * D[0][1])
    return h


def beyond(which="none", multi=False, observed=False, fixed=True):
    """nothing outside the bounds"""
    def h(c):
        kw, lo, hi = interval(c, which)
        e = outside(c, "x", lo, hi)
        hy = hyper(c) if not fixed else {}
        p = EccPrior(c, vaneylen19, (), e if observed else None, multi=multi, fixed=fixed, **kw)
        neg_inf(c, "outside", p.logp(e, **hy))
    return h


def hyper(c):
    f = c.real("frac", 0, nice=(.05, .95))
    c.assume(f < 1)
    return dict(sigma_gauss=c.real("sigma_gauss", 0, nice=(.02, .3)),
                sigma_rayleigh=c.real("sigma_rayleigh", 0, nice=(.1, .6)), frac=f)


def hierarchy(which="none", multi=False, observed=False, shape=()):
    """sampled hyperparameters: ratio of the densities at any set of values and a point of reference"""
    def h(c):
        kw, lo, hi = interval(c, which)
        D = []
        ref = dict(sigma_gauss=c.num(.0625), sigma_rayleigh=c.num(.25), frac=c.num(.5))
        for e, hy in ((between(c, "x", shape, lo, hi), hyper(c)), (between(c, "ref", shape, lo, hi), ref)):
            p = EccPrior(c, vaneylen19, shape, e if observed else None, multi=multi, fixed=False, **kw)
            c.true("variables", sorted(p.names) == ([] if observed else ["e"]) + sorted("e::" + n for n in HYPER))
            q = normal(hy["sigma_gauss"], *GAUSS) + normal(hy["sigma_rayleigh"], *RAYLEIGH) + normal(hy["frac"], *FRACTION[multi])
            D.append((c.exp(p.logp(e, **hy) - q), mixture(c, e, *[hy[n] for n in HYPER])))
        c.eq("density", D[0][0] * D[1][1], D[1][0] * D[0][1])
    return h


def begin(which="none", given=False, fixed=True, multi=False, shape=()):
    """starting point"""
    def h(c):
        kw, lo, hi = interval(c, which)
        if which == "none":
            c.real("unused", 0, 1)
        x = inside(c, "x", shape, lo, hi) if given else None
        p = EccPrior(c, vaneylen19, shape, initval=x, fixed=fixed, multi=multi, **kw)
        s = p.begin()
        c.shape("start", s["e"], shape)
        for q in pts(s["e"]):
            c.lt("above the lower bound", lo, q)
            c.lt("below the upper bound", q, hi)
        if given:
            c.eq("start", s["e"], x)
        if not fixed:
            c.eq("sigma_gauss", s["e::sigma_gauss"], GAUSS[0])
            c.eq("sigma_rayleigh", s["e::sigma_rayleigh"], RAYLEIGH[0])
            c.eq("frac", s["e::frac"], FRACTION[multi][0])
    return h


def reached(which="none", fixed=True, shape=()):
    """whatever the sampler tries stays inside the bounds, and hyperparameters are admissible"""
    def h(c):
        kw, lo, hi = interval(c, which)
        x = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            x[i] = c.real("x" + idx(i), nice=(-3., 3.))
        z = c.real("z", nice=(-3., 3.))
        hy = hyper(c) if not fixed else {}
        p = EccPrior(c, vaneylen19, shape, fixed=fixed, **kw)
        vals = [np.full(shape, c.num(1) / 2) if n == "e" else hy[n[3:]] for n in p.names]
        for e in pts(p.reach("e", x if shape else x.item(), vals)):
            c.lt("above the lower bound", lo, e)
            c.lt("below the upper bound", e, hi)
        if not fixed:
            for n in HYPER:
                c.lt(n + " > 0", 0, p.reach("e::" + n, z, vals).item())
            c.lt("frac < 1", p.reach("e::frac", z, vals).item(), 1)
    return h


N = {False: "single", True: "multi"}
HARNESSES = []


def add(name, fn, bounds, **kw):
    HARNESSES.append(dict(name=name, fn=fn, functions=F, bounds=bounds, **kw))


E_ = "all eccentricities inside the bounds, "
for mu in (False, True):
    add("density-" + N[mu], density(multi=mu), E_ + N[mu])
    add("hierarchy-" + N[mu], hierarchy(multi=mu), E_ + "all hyperparameters, " + N[mu])
for w in ("lower", "upper", "both"):
    add("density-" + w, density(w), E_ + "all bounds (%s)" % w)
    add("density-observed-" + w, density(w, observed=True), E_ + "all bounds (%s), observed" % w)
    add("beyond-" + w, beyond(w), "all eccentricities outside all bounds (%s)" % w)
    add("beyond-observed-" + w, beyond(w, observed=True), "all eccentricities outside all bounds (%s), observed" % w)
    add("start-" + w, begin(w), "all bounds (%s)" % w)
    add("start-given-" + w, begin(w, True), "all bounds (%s), all initial values" % w)
add("density-observed", density(observed=True), E_ + "observed")
add("density-observed-multi", density(observed=True, multi=True), E_ + "observed, multi")
add("density-2", density(shape=(2,)), E_ + "shape (2,)")
add("density-2-both", density("both", shape=(2,), multi=True), E_ + "shape (2,), all bounds, multi")
add("density-observed-2", density(shape=(2,), observed=True), E_ + "shape (2,), observed")
add("hierarchy-observed", hierarchy(observed=True), E_ + "all hyperparameters, observed")
add("hierarchy-2", hierarchy(shape=(2,)), E_ + "all hyperparameters, shape (2,)")
add("hierarchy-both", hierarchy("both"), E_ + "all hyperparameters and bounds")
add("beyond", beyond(), "all eccentricities outside (0, 1)")
add("beyond-observed", beyond(observed=True), "all eccentricities outside (0, 1), observed")
add("beyond-hierarchy", beyond("both", fixed=False), "all eccentricities outside all bounds, all hyperparameters")
for w in ("none", "lower", "upper", "both"):
    add("reached-" + w, reached(w), "all bounds (%s), all unconstrained values" % w)
add("reached-both-2", reached("both", shape=(2,)), "all bounds, all unconstrained values, shape (2,)")
add("reached-hierarchy", reached(fixed=False), "all unconstrained values and hyperparameters")
add("start", begin(), "default starting point")
add("start-given", begin("none", True), "all initial values")
add("start-given-2", begin("none", True, shape=(2,)), "all initial values, shape (2,)")
add("start-both-2", begin("both", shape=(2,)), "all bounds, shape (2,)")
add("start-hierarchy", begin("both", True, fixed=False), "all bounds and initial values")
add("start-hierarchy-multi", begin("none", fixed=False, multi=True), "multi")
