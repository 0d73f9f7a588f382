"""Interpolated light curves reproduce the base model at and between nodes."""
import exoplanet.light_curves as xlc

from checks.C21 import deficit, limb
from checks.common import *

TRUSTED = ["limb-darkening kernel contract (harness kepler)"]


class Base:
    """a base light curve: column j is a polynomial in the time since planet j's reference transit"""

    def __init__(self, coeffs, t0s):
        self.coeffs, self.t0s, self.calls = coeffs, t0s, []

    def get_light_curve(self, **kw):
        self.calls.append({k: v for k, v in kw.items() if k != "t"})
        t = pt.as_tensor_variable(kw["t"])
        cols = []
        for cf, t0 in zip(self.coeffs, self.t0s):
            x = t - t0
            y = pt.zeros_like(x)
            for a in reversed(cf):
                y = y * x + a
            cols.append(y)
        return pt.stack(cols, axis=-1)


class Ephemeris:
    def __init__(self, period, t0):
        self.period, self.t0 = period, t0


def horner(cf, x, c):
    y = c.num(0)
    for a in reversed(cf):
        y = y * x + a
    return y


def poly(c, j, degree, P):
    """coefficients of a polynomial with the same value at both ends of the period (base models are periodic)"""
    cf = [c.real("c%d_%d" % (j, k), nice=(-1., 1.)) if k != 1 else None for k in range(degree + 1)]
    cf[1] = -sum((cf[k] * P ** (k - 1) for k in range(2, degree + 1)), c.num(0))
    return cf


def model(N, n=1, degree=3, where="any", vector=None, nt=1, num=None, shift=False, t0scalar=False):
    """where: 'any' phase (cubic base model) or 'node' (arbitrary base model: here a polynomial of high degree)"""
    def h(c):
        P = [c.real("period%d" % j, 0, nice=(1., 8.)) for j in range(n)]
        t0 = [c.real("t0%d" % j, nice=(-2., 2.)) for j in range(1 if t0scalar else n)]
        t0 = t0 * n if t0scalar else t0
        cf = [poly(c, j, degree, P[j]) for j in range(n)]
        vec = n > 1 if vector is None else vector
        orb = Ephemeris(c.tensor(P if vec else P[0]), c.tensor(t0 if vec and not t0scalar else t0[0]))
        base = Base([[c.tensor(a) for a in f] for f in cf], [c.tensor(x) for x in t0])
        ts, fs = [], []
        for i in range(nt):
            k = c.int("k%d" % i, nice=(-3, 3))
            if where == "any":
                f = c.real("f%d" % i, 0, 1, strict=False, nice=(0.01, .99))
                c.assume(f < 1)
                # the node before, decided before the code runs
                for m in range(1, N + 1):
                    if bool(f * (N + 1) < m):
                        break
            else:
                f = c.num(c.choice("node%d" % i, list(range(N + 1)))) / (N + 1)
            ts.append(t0[0] + P[0] * (k + f))
            fs.append(f)
        lc = xlc.InterpolatedLightCurve(base, N, num_planets=num or n)
        opts = dict(r="r", texp="texp", oversample=5, order=2, use_in_transit="flag", light_delay="delay")
        got = c.ev(lc.get_light_curve(orbit=orb, t=c.tensor(ts), **opts))
        c.shape("light curve", got, (nt, n))
        for i in range(nt):
            c.eq("flux[%d,0]" % i, got[i, 0], horner(cf[0], fs[i] * P[0], c))
        c.true("asked the base model", len(base.calls) > 0)
        for d in base.calls:
            c.true("orbit passed on", d.pop("orbit") is orb)
            c.true("options passed on", d == opts)
        if shift:
            q = c.int("q", nice=(-3, 3))
            again = c.ev(lc.get_light_curve(orbit=orb, t=c.tensor([x + q * P[0] for x in ts]), **opts))
            c.eq("periodic", again[:, 0], got[:, 0])
    return h


def columns(N, n, node=False):
    """every planet's column (or: one planet's column at the nodes of its own grid, for any base model)"""
    def h(c):
        P = [c.real("period%d" % j, 0, nice=(1., 8.)) for j in range(n)]
        t0 = [c.real("t0%d" % j, nice=(-2., 2.)) for j in range(n)]
        cf = [poly(c, j, 6 if node else 3, P[j]) for j in range(n)]
        orb = Ephemeris(c.tensor(P), c.tensor(t0))
        if node:
            q, m = c.choice("planet", list(range(n))), c.choice("node", list(range(N + 1)))
            t = t0[q] + P[q] * m / (N + 1)
        else:
            t = c.real("t", nice=(0., .5))
        for j in range(n):                                  # within the first period after each reference transit
            x = t - t0[j]
            c.assume(x >= 0)
            c.assume(x < P[j])
            for m in range(1, N + 1):
                if bool(x * (N + 1) < m * P[j]):
                    break
        if node:
            cf = [f if j == q else [] for j, f in enumerate(cf)]
        base = Base([[c.tensor(a) for a in f] for f in cf], [c.tensor(x) for x in t0])
        lc = xlc.InterpolatedLightCurve(base, N, num_planets=n)
        got = c.ev(lc.get_light_curve(orbit=orb, r=None, t=c.tensor([t])))
        c.shape("light curve", got, (1, n))
        for j in [q] if node else range(n):
            c.eq("flux[%d]" % j, got[0, j], horner(cf[j], t - t0[j], c))
    return h


def kepler(N):
    """nodes of a transit light curve"""
    def h(c):
        c.option("quad_split", False)
        u1, u2 = limb(c)
        P, a = c.real("period", 0, nice=(2., 8.)), c.real("a", 0, nice=(4., 20.))
        rs, r = c.real("r_star", 0, nice=(.5, 2.)), c.real("r", 0, nice=(.05, .5))
        b = c.real("b", 0, strict=False, nice=(0., 1.))
        t0 = c.real("t0", nice=(-2., 2.))
        c.assume(b * rs < a)
        orb = KeplerianOrbit(period=c.tensor(P), a=c.tensor(a), b=c.tensor(b), r_star=c.tensor(rs), t0=c.tensor(t0))
        lc = xlc.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
        k = c.int("k", nice=(-3, 3))
        j = c.choice("node", list(range(N + 1)))
        t = t0 + P * (k + c.num(j) / (N + 1))
        want = c.ev(lc.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor([t]), use_in_transit=False))
        got = c.ev(xlc.InterpolatedLightCurve(lc, N, num_planets=1).get_light_curve(
            orbit=orb, r=c.tensor(r), t=c.tensor([t]), use_in_transit=False))
        c.shape("light curve", got, (1, 1))
        c.eq("flux", got, want)
    return h


def unknown(c):
    orb = Ephemeris(c.tensor([c.num(1)]), c.tensor([c.num(0)]))
    lc = xlc.InterpolatedLightCurve(Base([], []), 5)
    c.raises("number of planets", ValueError, lambda: lc.get_light_curve(orbit=orb, r=None, t=c.tensor([c.num(0)])))


F = ["interpolated.interp", "InterpolatedLightCurve.get_light_curve", "_wrapper"]
B = "all periods > 0, reference times, polynomials; %s"
A = B % "one planet, cubic base model, every phase and epoch; grid with num_phase = %d"
D = B % "one planet, base model of degree 6, every node and epoch; grid with num_phase = %d"
HARNESSES = [
    dict(name="cubic-%d" % N, fn=model(N), functions=F, bounds=A % N, thorough_only=N > 10) for N in (1, 2, 3, 5, 10, 25)
] + [
    dict(name="node-%d" % N, fn=model(N, degree=6, where="node"), functions=F, bounds=D % N, thorough_only=N > 10)
    for N in (1, 2, 4, 10, 40)
] + [
    dict(name="two-times", fn=model(2, nt=2), functions=F, bounds=A % 2 + ", two times"),
    dict(name="vector", fn=model(3, vector=True), functions=F, bounds=A % 3 + "; the ephemeris is a vector of length 1"),
    dict(name="vector-node", fn=model(3, degree=6, where="node", vector=True), functions=F, bounds=D % 3 + "; the ephemeris is a vector of length 1"),
    dict(name="periodic", fn=model(2, degree=5, where="node", shift=True), functions=F, bounds=D % 2 + ", and shifted by a whole number of periods"),
    dict(name="columns-two", fn=columns(2, 2), functions=F, bounds=B % "two planets, cubic base model, times within a period after both reference times, num_phase = 2"),
    dict(name="columns-three", fn=columns(1, 3), functions=F, bounds=B % "three planets, cubic base model, times within a period after all reference times, num_phase = 1"),
    dict(name="columns-node", fn=columns(2, 2, node=True), functions=F, bounds=B % "two planets, base model of degree 6, nodes of either planet's grid within a period after both reference times, num_phase = 2"),
    dict(name="kepler", fn=kepler(2), functions=F + ["LimbDarkLightCurve.get_light_curve"], bounds="all circular orbits with a, b < a/r_star; nodes of the grid with num_phase = 2"),
    dict(name="unknown", fn=unknown, functions=F, bounds="number of planets not given"),
]
