"""Approximate transit depth and radius ratio are inverse to each other."""
import exoplanet.light_curves as xlc

from checks.common import *

TRUSTED = []


def coeffs(c):
    u1, u2 = c.real("u1", nice=(0., .5)), c.real("u2", nice=(0., .4))
    c.assume(1 - u1 / 3 - u2 / 6 > 0)
    return u1, u2


def intensity(c, u1, u2, b):
    mu = c.sqrt(1 - b * b)
    return 1 - u1 * (1 - mu) - u2 * (1 - mu) ** 2


def inputs(c, nd, nb, u1, u2):
    b = [c.real("b%d" % i, -1, 1, nice=(-.9, .9)) for i in range(nb or 1)]
    d = [c.real("delta%d" % i, 0, 1, nice=(.001, .05)) for i in range(nd or 1)]
    for x in b:
        c.assume(intensity(c, u1, u2, x) > 0)
    return d, b


def inverse(nd, nb, jac=False, vec_u=False):
    """None: scalar, n: vector of n"""
    def h(c):
        u1, u2 = coeffs(c)
        d, b = inputs(c, nd, nb, u1, u2)
        lc = xlc.LimbDarkLightCurve(c.tensor([u1, u2])) if vec_u else xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
        out = lc.get_ror_from_approx_transit_depth(c.tensor(d[0] if nd is None else d), c.tensor(b[0] if nb is None else b),
                                                   **({"jac": True} if jac else {}))
        ror = c.ev(out[0] if jac else out)
        shape = () if nd is None and nb is None else (max(nd or 1, nb or 1),)
        c.shape("shape", ror, shape)
        n = max(nd or 1, nb or 1)
        f0 = 1 - u1 / 3 - u2 / 6
        for i, k in enumerate(ror.reshape(-1)):
            x, y = d[i % len(d)], b[i % len(b)]
            c.true("non-negative[%d]" % i, k >= 0)
            c.eq("depth[%d]" % i, k * k * intensity(c, u1, u2, y) / f0, x)
        c.true("size", ror.size == n)
    return h


def matrix(c):
    """a column of depths against a row of impact parameters"""
    u1, u2 = coeffs(c)
    d, b = inputs(c, 2, 2, u1, u2)
    lc = xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
    ror = c.ev(lc.get_ror_from_approx_transit_depth(c.tensor([[x] for x in d]), c.tensor([b])))
    c.shape("shape", ror, (2, 2))
    f0 = 1 - u1 / 3 - u2 / 6
    for i in range(2):
        for j in range(2):
            c.eq("depth", ror[i, j] ** 2 * intensity(c, u1, u2, b[j]) / f0, d[i])
            c.true("non-negative", ror[i, j] >= 0)


def monotone(c):
    u1, u2 = coeffs(c)
    d, b = inputs(c, 2, 1, u1, u2)
    c.assume(d[0] < d[1])
    lc = xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
    ror = c.ev(lc.get_ror_from_approx_transit_depth(c.tensor(d), c.tensor(b[0])))
    c.true("grows with the depth", ror[0] < ror[1], margin=[d[1] - d[0]] if c.mode == "num" else None)


F = ["LimbDarkLightCurve.get_ror_from_approx_transit_depth"]
B = "all 0 < delta < 1, |b| < 1, u1, u2 with positive intensity; %s"
HARNESSES = [
    dict(name="scalar", fn=inverse(None, None), functions=F, bounds=B % "scalars"),
    dict(name="vector", fn=inverse(2, 2), functions=F, bounds=B % "two depths, two b"),
    dict(name="vector-delta", fn=inverse(3, None), functions=F, bounds=B % "three depths, scalar b"),
    dict(name="vector-b", fn=inverse(None, 3), functions=F, bounds=B % "scalar depth, three b"),
    dict(name="length-one", fn=inverse(1, 2), functions=F, bounds=B % "length-one depth vector, two b"),
    dict(name="matrix", fn=matrix, functions=F, bounds=B % "2x1 depths, 1x2 b"),
    dict(name="with-jacobian", fn=inverse(2, 2, True), functions=F, bounds=B % "jac=True"),
    dict(name="vector-u", fn=inverse(2, 2, False, True), functions=F, bounds=B % "coefficients in one vector"),
    dict(name="monotone", fn=monotone, functions=F, bounds=B % "two depths"),
]
