"""PyMC models built by the code, as symbolic functions of the sampled values."""
import numpy as np
import pymc as pm
from pytensor.graph.replace import clone_replace

TRUSTED = ["PyMC: the log-density of the model is the sum of the densities and potentials it reports; the default transforms "
           "cover the support of each distribution"]


def starting_values(m):
    """what PyMC starts from: the requested initial values, or the support point of the distribution"""
    from pymc.distributions.distribution import support_point
    import pytensor.tensor as pt
    done = {}
    for rv in m.free_RVs:
        v = m.rvs_to_initial_values.get(rv)
        if v is None or isinstance(v, str):
            v = support_point(rv)
        v = pt.as_tensor(v, dtype=rv.dtype).astype(rv.dtype)
        if v.type.ndim < rv.type.ndim:
            v = pt.broadcast_to(v, rv.shape)
        done[rv] = clone_replace(v, replace=dict(done), rebuild_strict=False) if done else v
    return [done[rv] for rv in m.free_RVs]


class Prior:
    def __init__(self, c, build):
        """build(): creates the variables inside a model context and returns them"""
        self.c = c
        with pm.Model() as m:
            self.out = build(m)
        self.m = m
        self.start_exprs = starting_values(m)
        # the density with respect to the variables themselves
        self.vals = []
        self.transforms = dict(m.rvs_to_transforms)
        for rv in m.free_RVs:
            old = m.rvs_to_values[rv]
            v = rv.type(name=rv.name + "_value")
            m.rvs_to_transforms[rv] = None
            m.rvs_to_values[rv] = v
            m.values_to_rvs.pop(old, None)
            m.values_to_rvs[v] = rv
            self.vals.append(v)
        self._logp = None

    def reach(self, name, x, values):
        """the value of a free variable the sampler means by the number x, given the other values"""
        rv = self.m[name]
        t = self.transforms[rv]
        v = self.c.tensor(np.asarray(x, dtype=object).tolist() if np.ndim(x) else x, static=True)
        return self.at(self.exprs([v if t is None else t.backward(v, *rv.owner.inputs)]), values)[0]

    def exprs(self, xs):
        return self.m.replace_rvs_by_values(list(xs))

    @property
    def total(self):
        if self._logp is None:
            self._logp = self.m.logp(jacobian=False)
        return self._logp

    def at(self, exprs, values):
        """exprs (in terms of the value variables) at the values (arrays of numbers, one per free variable)"""
        new = {v: self.c.tensor(np.asarray(x, dtype=object).reshape(np.shape(x)).tolist() if np.ndim(x) else x, static=True)
               for v, x in zip(self.vals, values)}
        return self.c.ev(clone_replace(list(exprs), replace=new, rebuild_strict=False))

    def start(self, outs):
        """value of outs (a list of model variables) at the starting point of the model"""
        s = self.c.ev(list(self.start_exprs))
        return s, self.at(self.exprs(outs), s)

    def support(self, j):
        """(lower, upper) of the j-th free variable if it is uniform"""
        rv = self.m.free_RVs[j]
        name = type(rv.owner.op).__name__
        if name == "UniformRV":
            lo, hi = rv.owner.op.dist_params(rv.owner)
            return lo, hi
        return None

    def sample(self, tag, nice=None):
        """a symbolic value for every free variable, anywhere in its support"""
        c, out = self.c, []
        for j, rv in enumerate(self.m.free_RVs):
            sup = self.support(j)
            shape = tuple(np.asarray(c.ev(self.start_exprs[j])).shape)
            lo = hi = None
            if sup is not None:
                lo, hi = [np.broadcast_to(np.asarray(c.ev(q)), shape) for q in sup]
            a = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                nm = "%s%d%s" % (tag, j, "".join("_%d" % k for k in i))
                if sup is None:
                    a[i] = c.real(nm, nice=nice or (-2., 2.))
                else:
                    x = c.real(nm, nice=nice or (.02, .98))
                    c.assume(x > 0)
                    c.assume(x < 1)
                    a[i] = lo[i] + (hi[i] - lo[i]) * x
            out.append(a if shape else a.item())
        return out

    def flat(self, values):
        return [x for v in values for x in np.asarray(v, dtype=object).reshape(-1)]

    def jacobian(self, exprs):
        """matrix of expressions d exprs / d values (exprs: expressions in the value variables)"""
        import pytensor.tensor as pt
        scal, shapes = [], []
        for e in exprs:
            if e.type.ndim == 0:
                scal.append(e)
            else:
                n = int(np.prod(self.static_shape(e)))
                f = pt.flatten(e)
                scal += [f[i] for i in range(n)]
        return [pt.grad(s, self.vals, disconnected_inputs="ignore") for s in scal]

    def static_shape(self, e):
        return self.c.ev(e.shape) if False else tuple(int(k) for k in self._shape(e))

    def _shape(self, e):
        return np.asarray(self.at([e], [np.zeros(np.asarray(self.c.ev(s)).shape) if np.ndim(np.asarray(self.c.ev(s))) else 0.25
                                        for s in self.start_exprs])[0]).shape


def det(c, M):
    n = len(M)
    if n == 1:
        return M[0][0]
    out = c.num(0)
    for k in range(n):
        if _zero(M[0][k]):
            continue
        out = out + (-1) ** k * M[0][k] * det(c, [[r[j] for j in range(n) if j != k] for r in M[1:]])
    return out


def _zero(x):
    try:
        return bool(x.is_const() and x.const() == 0)
    except AttributeError:
        return float(x) == 0


def log_volume(c, p, exprs, values):
    """log of the volume the map (values -> exprs) stretches at the values"""
    rows = p.jacobian(exprs)
    flatg = [g for r in rows for g in r]
    vals = p.at(flatg, values)
    k = len(p.vals)
    M = []
    for i in range(len(rows)):
        M.append([x for a in vals[i * k:(i + 1) * k] for x in np.asarray(a, dtype=object).reshape(-1)])
    d = det(c, M)
    c.true("one to one", d != 0)
    return c.log(d if bool(d > 0) else -d)


def requested(c, values):
    """an initial value as a user gives it: numbers (symbolic ones while the code is executed symbolically)"""
    if c.mode == "num":
        return np.asarray(values, dtype=float)
    return c.tensor(np.asarray(values, dtype=object).tolist() if np.ndim(values) else values)


def full(shape):
    return np.empty(shape).shape


def idx(i):
    return "".join("_%d" % k for k in i)


def pts(v):
    return list(np.asarray(v, dtype=object).reshape(-1))
