"""Shared pieces of the harnesses: physical constants from first principles and the textbook orbit."""
import math

import numpy as np
import pytensor.tensor as pt
from engine.sym import register_named
import exoplanet as xo                                     # noqa: F401
from exoplanet.orbits import KeplerianOrbit, TTVOrbit, SimpleTransitOrbit   # noqa: F401

# IAU 2015 nominal / CODATA values, in SI
GM_SUN = 1.3271244e20
R_SUN = 6.957e8
AU = 1.495978707e11
CLIGHT = 299792458.0
BIG_G = 6.6743e-11
DAY = 86400.0

G_VAL = GM_SUN * DAY ** 2 / R_SUN ** 3                 # R_sun^3 / M_sun / day^2
GCC_VAL = (GM_SUN / BIG_G) * 1e3 / (R_SUN * 100) ** 3    # g/cm^3 per M_sun/R_sun^3
C_VAL = CLIGHT * DAY / R_SUN                           # R_sun / day
AU_VAL = R_SUN / AU                                    # au per R_sun
MS_VAL = R_SUN / DAY                                   # m/s per R_sun/day

for _n, _v in (("G", G_VAL), ("gcc", GCC_VAL), ("clight", C_VAL), ("au_per_R_sun", AU_VAL)):
    register_named(_n, _v)


def G(c):
    return c.const("G", G_VAL)


def gcc(c):
    return c.const("gcc", GCC_VAL)


def clight(c):
    return c.const("clight", C_VAL)


def au(c):
    return c.const("au_per_R_sun", AU_VAL)


class Spec:
    """textbook Keplerian orbit in terms of the eccentric anomaly E"""

    def __init__(self, c, a, P, e=None, w=None, ci=0, si=1, O=None):
        self.c, self.a, self.P = c, a, P
        self.e = c.num(0) if e is None else e
        self.cw, self.sw = (c.num(1), c.num(0)) if w is None else (c.cos(w), c.sin(w))
        self.ci, self.si = ci, si
        self.cO, self.sO = (c.num(1), c.num(0)) if O is None else (c.cos(O), c.sin(O))
        self.q = c.sqrt(1 - self.e * self.e)

    def rot(self, x, y):
        x1 = self.cw * x - self.sw * y
        y1 = self.sw * x + self.cw * y
        X = self.cO * x1 - self.sO * self.ci * y1
        Y = self.sO * x1 + self.cO * self.ci * y1
        return X, Y, -self.si * y1

    def pos(self, E, scale=1):
        """position vector of a body on the orbit scale * a (relative motion: scale=-1)"""
        c = self.c
        x = self.a * (c.cos(E) - self.e)
        y = self.a * self.q * c.sin(E)
        return tuple(scale * v for v in self.rot(x, y))

    def vel(self, E, scale=1):
        c = self.c
        n = 2 * c.pi / self.P
        Edot = n / (1 - self.e * c.cos(E))
        x = -self.a * c.sin(E) * Edot
        y = self.a * self.q * c.cos(E) * Edot
        return tuple(scale * v for v in self.rot(x, y))

    def acc(self, E, scale=1):
        """-n^2 a^3 r / |r|^3"""
        c = self.c
        n = 2 * c.pi / self.P
        f = -n * n / (1 - self.e * c.cos(E)) ** 3
        return tuple(f * v for v in self.pos(E, scale))


def inc(c, kind):
    """(kwargs, cos i, sin i) for an orientation given by an inclination"""
    if kind is None:
        return {}, c.num(0), c.num(1)
    i = c.angle("incl", 0, 1)
    return {"incl": i}, c.cos(i), c.sin(i)


def vec(c, name, got, want, **kw):
    for n, g, w in zip("xyz", got, want):
        c.eq("%s.%s" % (name, n), g, w, **kw)


ORBIT_FNS = ["KeplerianOrbit.__init__", "_get_consistent_inputs", "_rotate_vector", "_warp_times",
             "_get_true_anomaly"]
KEPLER = "Kepler solver contract: (sin f, cos f) of the unique E with M = E - e sin E (exoplanet_core, compiled)"


class LineOrbit:
    """any orbit, as the light curves see it: n planets on straight lines x = x0 + x1 t, y = y0, z = z0 + z1 t"""

    def __init__(self, c, n, z=True, y=True, moving=True):
        self.rs = c.real("r_star", 0, nice=(.5, 1.5))
        self.r_star = c.tensor(self.rs)
        r = lambda k, j, **kw: c.real("%s_%d" % (k, j), **kw)           # noqa: E731
        self.x0 = [r("x0", j, nice=(-1., 1.)) for j in range(n)]
        self.x1 = [r("x1", j, nice=(-1., 1.)) if moving else c.num(1) for j in range(n)]
        self.y0 = [r("y0", j, nice=(0., 1.)) if y else c.num(0) for j in range(n)]
        self.z0 = [r("z0", j, nice=(-1., 1.)) if z else c.num(1) for j in range(n)]
        self.z1 = [r("z1", j, nice=(-1., 1.)) if z == 2 else c.num(0) for j in range(n)]
        self.T = [c.tensor(v) for v in (self.x0, self.x1, self.y0, self.z0, self.z1)]
        self.n = n

    def at(self, t, j):
        return self.x0[j] + self.x1[j] * t, self.y0[j], self.z0[j] + self.z1[j] * t

    def get_relative_position(self, t, light_delay=False, parallax=None):
        x0, x1, y0, z0, z1 = self.T
        t = pt.shape_padright(pt.as_tensor_variable(t))
        zero = pt.zeros_like(t)
        return tuple(pt.squeeze(v) for v in (x0 + x1 * t, y0 + zero, z0 + z1 * t))

    get_planet_position = get_relative_position
