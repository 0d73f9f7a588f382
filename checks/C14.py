"""The duration parametrisation produces the requested transit duration."""
from checks.common import *
from exoplanet.orbits.keplerian import get_aor_from_transit_duration
from fractions import Fraction
import warnings

TRUSTED = [KEPLER]


def params(c, j="", ror=True, half=2):
    P = c.real("period" + j, 0, nice=(1., 8.))
    D = c.real("duration" + j, 0, nice=(.05, .4))
    c.assume(D < P / half)
    b = c.real("b" + j, 0, strict=False, nice=(0., .9))
    k = c.num(0)
    if ror:
        k = c.real("ror" + j, 0, strict=False, nice=(.02, .3))
    c.assume(b < 1 + k)
    t0 = c.real("t0" + j, nice=(-2., 2.))
    return P, D, b, k, t0


def aor(c, P, D, b, k):
    ph = c.pi * D / P
    c.axiom(c.sin(ph) > 0)
    c.axiom(c.cos(ph) > 0)
    return c.sqrt((1 + k) ** 2 - b ** 2 * c.cos(ph) ** 2) / c.sin(ph)


def circ(ror=True, mass=False, rstar=True, Om=False, scalar=False, n=0):
    """the projected separation is r_star (1 + ror) at t0 -+ duration/2 + n periods, in front of the star"""
    def h(c):
        P, D, b, k, t0 = params(c, ror=ror)
        kw = dict(period=P, duration=D, b=b, t0=t0)
        if ror:
            kw["ror"] = k
        rs = c.num(1)
        if rstar:
            rs = kw["r_star"] = c.real("r_star", 0, nice=(.5, 1.5))
        want = aor(c, P, D, b, k)
        if mass:
            mp = kw["m_planet"] = c.real("m_planet", 0, strict=False, nice=(.0001, .001))
            c.assume(4 * c.pi ** 2 * (want * rs) ** 3 / (G(c) * P ** 2) > mp)
        if Om:
            kw["Omega"] = c.angle("Omega")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            orb = KeplerianOrbit(**{a: c.tensor(v if scalar or a == "r_star" else [v]) for a, v in kw.items()})
        one = () if scalar else (1,)
        got = c.ev(get_aor_from_transit_duration(*[c.tensor(v) for v in (D, P, b)],
                                                 **(dict(ror=c.tensor(k)) if ror else {}))[0])
        c.eq("aor", got, want)
        a = c.ev(orb.a)
        c.shape("a", a, one)
        c.eq("a", a.item(), want * rs)
        c.eq("r_star", c.ev(orb.r_star), rs)
        c.eq("period", c.ev(orb.period).item(), P)
        c.eq("b", c.ev(orb.b).item(), b)
        c.eq("cos incl", c.ev(orb.cos_incl).item() * want, b)
        N = c.int("n", nice=(-5, 5)) if n else 0
        for side in (-1, 1):
            x, y, z = [v.item() for v in c.ev(list(orb.get_relative_position(c.tensor(t0 + side * D / 2 + N * P))))]
            c.eq("separation at %+d" % side, x * x + y * y, (rs * (1 + k)) ** 2)
            c.true("in front at %+d" % side, z >= 0, margin=[z] if c.mode == "num" else None)
        x, y, z = [v.item() for v in c.ev(list(orb.get_relative_position(c.tensor(t0 + N * P))))]
        c.eq("impact parameter", x * x + y * y, (b * rs) ** 2)
        c.true("in front", z >= 0, margin=[z] if c.mode == "num" else None)
    return h


def two(c):
    """each planet has its own duration"""
    ps = [params(c, str(j)) for j in range(2)]
    rs = c.real("r_star", 0, nice=(.5, 1.5))
    P, D, b, k, t0 = zip(*ps)
    orb = KeplerianOrbit(period=c.tensor(P), duration=c.tensor(D), b=c.tensor(b), ror=c.tensor(k), t0=c.tensor(t0),
                         r_star=c.tensor(rs))
    a = c.ev(orb.a)
    c.shape("a", a, (2,))
    for j in range(2):
        c.eq("a[%d]" % j, a[j], rs * aor(c, P[j], D[j], b[j], k[j]))
        c.eq("cos incl[%d]" % j, c.ev(orb.cos_incl)[j] * a[j], rs * b[j])


def ecc(par, wform="omega", n=1):
    """b follows from the duration, and the same orbit results when that b is given instead"""
    def h(c):
        L = []
        for j in range(n):
            P = c.real("period%d" % j, 0, nice=(2., 8.))
            e = c.real("ecc%d" % j, 0, 1, strict=False, nice=(.05, .6))
            c.assume(e < 1)
            w = c.angle("omega%d" % j)
            c.axiom(1 + e * c.sin(w) > 0)
            # half the orbital phase spanned by the transit, below a quarter turn
            th = c.angle("phase%d" % j, 0, Fraction(1, 2), nice=(.02, .3))
            c.assume(th > 0)
            c.assume(th < c.pi / 2)
            c.axiom(c.sin(th) > 0)
            D = th * P * c.sqrt(1 - e * e) / (c.pi * (1 + e * c.sin(w)))
            L.append((P, D, e, w, th))
        col = lambda i: c.tensor([x[i] for x in L])                # noqa: E731
        kw = dict(period=col(0), ecc=col(2))
        rs = c.real("r_star", 0, nice=(.5, 1.5))
        if par == "a":
            A = [c.real("a%d" % j, 0, nice=(3., 10.)) for j in range(n)]
            kw.update(a=c.tensor(A), r_star=c.tensor(rs))
        else:
            ms = c.real("m_star", 0, nice=(.5, 2.))
            kw.update(m_star=c.tensor(ms), r_star=c.tensor(rs))
            A = [c.cbrt(G(c) * ms * x[0] ** 2 / (4 * c.pi ** 2)) for x in L]
        if wform == "omega":
            kw["omega"] = col(3)
        else:
            kw.update(sin_omega=c.tensor([c.sin(x[3]) for x in L]), cos_omega=c.tensor([c.cos(x[3]) for x in L]))
        B2 = []
        for (P, D, e, w, th), a in zip(L, A):
            f = (1 - e * e) / (1 + e * c.sin(w))
            s = c.sin(th)
            ar = a / rs
            c.assume(f > s)
            c.assume(ar * s < 1)
            c.assume(ar * f > 1)
            B2.append(f ** 2 * (1 - ar ** 2 * s ** 2) / (f ** 2 - s ** 2))
        orb = KeplerianOrbit(duration=c.tensor([x[1] for x in L]), **kw)
        b = c.ev(orb.b)
        c.shape("b", b, (n,))
        for j in range(n):
            c.eq("b[%d]^2" % j, b[j] ** 2, B2[j])
            c.true("b[%d] >= 0" % j, b[j] >= 0, margin=[b[j]] if c.mode == "num" else None)
            P, D, e, w, th = L[j]
            f = (1 - e * e) / (1 + e * c.sin(w))
            c.eq("cos incl[%d]" % j, c.ev(orb.cos_incl)[j] * A[j] * f, b[j] * rs)
            c.eq("cos(incl[%d])" % j, c.cos(c.ev(orb.incl)[j]) * A[j] * f, b[j] * rs)
        c.eq("duration", c.ev(orb.duration), [x[1] for x in L])
        same = KeplerianOrbit(b=c.tensor(b), **kw)
        for nm in ("a", "cos_incl", "sin_incl", "t_periastron"):
            c.eq("round trip " + nm, c.ev(getattr(same, nm)), c.ev(getattr(orb, nm)))
    return h


def errors(c):
    P, D, b, k, t0 = [c.tensor(x) for x in params(c)]
    c.raises("no b", ValueError, lambda: KeplerianOrbit(period=P, duration=D))
    c.raises("no b (ror)", ValueError, lambda: KeplerianOrbit(period=P, duration=D, ror=k, r_star=1.0))
    e = dict(ecc=.1, omega=.2)
    c.raises("b and duration", ValueError, lambda: KeplerianOrbit(period=P, duration=D, b=b, **e))
    c.raises("incl and duration", ValueError, lambda: KeplerianOrbit(period=P, duration=D, incl=1.5, **e))


F = ["KeplerianOrbit.__init__", "get_aor_from_transit_duration", "_get_consistent_inputs", "get_relative_position"]
B = "all reals: period, 0 < duration < period/2, 0 <= b < 1 + ror, ror >= 0, r_star > 0, t0"
BE = "all reals: period, 0<=ecc<1, omega, duration, r_star; half the transit phase below pi/2, (a/R) s < 1 < (a/R) f, s < f"
HARNESSES = [
    dict(name="circ", fn=circ(), functions=F, bounds=B),
    dict(name="circ-n", fn=circ(n=1), functions=F, bounds=B + "; any transit number"),
    dict(name="circ-no-ror", fn=circ(ror=False), functions=F, bounds=B + "; ror not given"),
    dict(name="circ-default-star", fn=circ(rstar=False), functions=F, bounds=B + "; r_star not given"),
    dict(name="circ-mass", fn=circ(mass=True), functions=F, bounds=B + "; m_planet >= 0 below the total mass"),
    dict(name="circ-Omega", fn=circ(Om=True), functions=F, bounds=B + "; any Omega"),
    dict(name="circ-scalar", fn=circ(scalar=True), functions=F, bounds=B),
    dict(name="two-planets", fn=two, functions=F, bounds=B + "; two planets"),
    dict(name="ecc-a", fn=ecc("a"), functions=F, bounds=BE),
    dict(name="ecc-stellar", fn=ecc("stellar"), functions=F, bounds=BE),
    dict(name="ecc-a-sincos", fn=ecc("a", "sincos"), functions=F, bounds=BE + "; sin_omega, cos_omega given"),
    dict(name="ecc-two", fn=ecc("a", n=2), functions=F, bounds=BE + "; two planets"),
    dict(name="errors", fn=errors, functions=F, bounds="the rejected combinations"),
]
