"""Eccentricity priors: densities on an interval, up to normalisation."""
import math

import pymc as pm

from checks.common import *
from checks.priors import Prior, TRUSTED, full, idx, log_volume, pts, requested      # noqa: F401

NEG_INF = float("-inf")


def interval(c, which):
    """(keyword arguments, lower, upper): any admissible bounds"""
    kw, lo, hi = {}, c.num(0), c.num(1)
    if which in ("lower", "both"):
        lo = c.real("lower", 0, nice=(.05, .4))
        c.assume(lo < 1)
        kw["lower"] = requested(c, lo) if c.mode != "num" else float(lo)
    if which in ("upper", "both"):
        hi = c.real("upper", 0, nice=(.5, .95))
        c.assume(hi < 1)
        kw["upper"] = requested(c, hi) if c.mode != "num" else float(hi)
    if which == "both":
        c.assume(lo < hi)
    return kw, lo, hi


def inside(c, tag, shape, lo, hi):
    """eccentricities anywhere between the bounds"""
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        t = c.real(tag + idx(i), 0, nice=(.02, .98))
        c.assume(t < 1)
        a[i] = lo + (hi - lo) * t
    return a if shape else a.item()


def reference(c, shape, lo, hi):
    """one point between the bounds"""
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = lo + (hi - lo) * c.num(.375)
    return a if shape else a.item()


def outside(c, tag, lo, hi):
    """below the lower bound or above the upper one"""
    if c.choice(tag + "_side", ["below", "above"]) == "above":
        t = c.real(tag, 0, nice=(1.02, 3.))
        c.assume(t > hi)
    else:
        t = c.real(tag, nice=(-3., -.02))
        c.assume(t < lo)
    return t


def neg_inf(c, what, x):
    x = np.asarray(x, dtype=object).item()
    if isinstance(x, (float, np.floating)):
        c.true(what, bool(x == NEG_INF))
    else:
        c.true(what, False)


def data(c, e):
    if c.mode == "num":
        return np.asarray(e, dtype=float)
    return c.tensor(np.asarray(e, dtype=object).tolist() if np.ndim(e) else e)


class EccPrior(Prior):
    """the model of an eccentricity prior: the eccentricity sampled or given, hyperparameters fixed or sampled"""

    def __init__(self, c, fn, shape=(), observed=None, initval=None, **kw):
        self.shape = shape
        k = dict(kw)
        if shape and observed is None:
            k["shape"] = shape
        self.observed = observed
        if observed is not None:
            k["observed"] = data(c, observed)
        if initval is not None:
            k["initval"] = requested(c, initval)
        super().__init__(c, lambda m: fn("e", **k))
        self.names = [rv.name for rv in self.m.free_RVs]

    def logp(self, e, **hyper):
        """log-density at an eccentricity and hyperparameters"""
        vals = [e if n == "e" else hyper[n[3:]] for n in self.names]
        return self.at([self.total], vals)[0]

    def begin(self):
        s = self.c.ev(list(self.start_exprs))
        return dict(zip(self.names, s))


def normal(x, mu, sd):
    return -((x - mu) / sd) ** 2 / 2
