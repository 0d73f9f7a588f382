"""Reported Jacobians equal the derivatives they name."""
from checks.common import *
from checks.C14 import params, aor
from exoplanet.orbits.keplerian import get_aor_from_transit_duration

TRUSTED = []


def derivative(c, f, x):
    """d f / d x of the values the code itself returns: exact on symbolic values, central differences on concrete ones"""
    if c.mode == "sym":
        return [c.diff(v, x) for v in f(x)]
    h = 1e-5 * (abs(x) if x else 1)
    return [(p - m) / (2 * h) for p, m in zip(f(x + h), f(x - h))]


def duration(mass, rstar=True, n=1):
    def h(c):
        ps = [params(c, str(j)) for j in range(n)]
        P, D, b, k, t0 = zip(*ps)
        rs = c.num(1)
        kw = {}
        for x in ps:
            aor(c, *x[:4])
        if rstar:
            rs = c.real("r_star", 0, nice=(.5, 1.5))
            kw["r_star"] = c.tensor(rs)
        if mass:
            mp = [c.real("m_planet%d" % j, 0, strict=False, nice=(.0001, .001)) for j in range(n)]
            for j in range(n):
                c.assume(4 * c.pi ** 2 * (aor(c, P[j], D[j], b[j], k[j]) * rs) ** 3 / (G(c) * P[j] ** 2) > mp[j])
            kw["m_planet"] = c.tensor(mp)
        names = ["a", "a_star", "a_planet", "rho_star"]

        def orbit(D):
            return KeplerianOrbit(period=c.tensor(P), duration=c.tensor(D), b=c.tensor(b), ror=c.tensor(k), **kw)

        orb = orbit(D)
        jac = {x: c.ev(orb.jacobians["duration"][x]) for x in names}
        for j in range(n):
            def f(d):
                o = orbit([d if i == j else D[i] for i in range(n)])
                return [c.ev(getattr(o, x))[j] for x in names]
            for x, v in zip(names, derivative(c, f, D[j])):
                c.shape("d %s / d duration" % x, jac[x], (n,))
                c.eq("d %s / d duration [%d]" % (x, j), jac[x][j], v, rtol=2e-5, atol=1e-7)
    return h


def aor_jac(ror):
    def h(c):
        P, D, b, k, t0 = params(c, ror=ror)
        kw = dict(ror=c.tensor(k)) if ror else {}
        aor(c, P, D, b, k)

        def f(d):
            return [c.ev(get_aor_from_transit_duration(c.tensor(d), c.tensor(P), c.tensor(b), **kw)[0]).item()]
        v, = derivative(c, f, D)
        got = c.ev(get_aor_from_transit_duration(c.tensor(D), c.tensor(P), c.tensor(b), **kw)[1]).item()
        c.eq("d aor / d duration", got, v, rtol=2e-5, atol=1e-7)
    return h


def cosi(ecc, par, tilt, n=1):
    """jacobians['b']['cos_incl'] with b given and with the inclination given"""
    def h(c):
        kw = {}
        P = [c.real("period%d" % j, 0, nice=(1., 8.)) for j in range(n)]
        kw["period"] = c.tensor(P)
        rs = c.real("r_star", 0, nice=(.5, 1.5))
        kw["r_star"] = c.tensor(rs)
        if par == "a":
            A = [c.real("a%d" % j, 0, nice=(3., 10.)) for j in range(n)]
            kw["a"] = c.tensor(A)
        else:
            ms = c.real("m_star", 0, nice=(.5, 2.))
            kw["m_star"] = c.tensor(ms)
        if ecc:
            e = [c.real("ecc%d" % j, 0, 1, nice=(.05, .6)) for j in range(n)]
            w = [c.angle("omega%d" % j) for j in range(n)]
            kw.update(ecc=c.tensor(e), omega=c.tensor(w))
            for x, y in zip(e, w):
                c.axiom(1 + x * c.sin(y) > 0)
        b = [c.real("b%d" % j, 0, nice=(.1, .9)) for j in range(n)]

        def orbit(b):
            return KeplerianOrbit(b=c.tensor(b), **kw)
        # 0 < cos(incl) < 1
        for x, y in zip(b, c.ev(orbit(b).a)):
            c.assume(y > 0)
        ci = c.ev(orbit(b).cos_incl)
        for x in ci:
            c.assume(x < 1)
            c.assume(x > 0)
        if tilt == "b":
            orb = orbit(b)
        else:
            # the same orbit through the inclination: d b / d cos_incl is the reciprocal
            orb = KeplerianOrbit(incl=c.tensor([c.ev(orbit(b).incl)[j] for j in range(n)]), **kw)
        jac = c.ev(orb.jacobians["b"]["cos_incl"])
        c.eq("dcosidb", c.ev(orb.dcosidb), jac)
        c.shape("jacobian", jac, (n,))
        for j in range(n):
            v, = derivative(c, lambda x: [c.ev(orbit([x if i == j else b[i] for i in range(n)]).cos_incl)[j]], b[j])
            c.eq("d cos_incl / d b [%d]" % j, jac[j], v, rtol=2e-5, atol=1e-7)
    return h


def ror_jac(shape):
    def h(c):
        u1, u2 = c.real("u1", nice=(.1, .5)), c.real("u2", nice=(.05, .3))
        ld = xo.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
        n = shape or 1
        d = [c.real("delta%d" % j, 0, nice=(.001, .1)) for j in range(n)]
        b = [c.real("b%d" % j, -1, 1, nice=(-.9, .9)) for j in range(n)]
        c.assume(1 - u1 / 3 - u2 / 6 > 0)
        for x in b:
            m = 1 - c.sqrt(1 - x * x)
            c.assume(1 - u1 * m - u2 * m * m > 0)
        T = (lambda v: c.tensor(v)) if shape else (lambda v: c.tensor(v[0]))
        got, jac = [np.atleast_1d(x) for x in c.ev(list(ld.get_ror_from_approx_transit_depth(T(d), T(b), jac=True)))]
        plain = np.atleast_1d(c.ev(ld.get_ror_from_approx_transit_depth(T(d), T(b))))
        c.shape("jacobian", jac, (n,))
        for j in range(n):
            c.eq("ror", got[j], plain[j])
            v, = derivative(c, lambda x: [np.atleast_1d(c.ev(ld.get_ror_from_approx_transit_depth(
                T([x if i == j else d[i] for i in range(n)]), T(b))))[j]], d[j])
            c.eq("d ror / d delta", jac[j], v, rtol=2e-5, atol=1e-7)
    return h


F = ["KeplerianOrbit.__init__ (jacobians)", "get_aor_from_transit_duration", "_get_consistent_inputs"]
B = "all reals: period, 0 < duration < period/2, 0 <= b < 1 + ror, ror >= 0, r_star > 0"
BB = "all reals: period, a or m_star, r_star > 0, b with 0 < cos(incl) < 1, 0 < ecc < 1, omega"
L = ["LimbDarkLightCurve.get_ror_from_approx_transit_depth"]
HARNESSES = [
    dict(name="duration-massive", fn=duration(True), functions=F, bounds=B + ", m_planet >= 0"),
    dict(name="duration-massless", fn=duration(False), functions=F, bounds=B),
    dict(name="duration-default-star", fn=duration(True, rstar=False), functions=F, bounds=B + ", m_planet >= 0; r_star not given"),
    dict(name="duration-two", fn=duration(True, n=2), functions=F, bounds=B + ", m_planet >= 0; two planets"),
    dict(name="aor", fn=aor_jac(True), functions=F, bounds=B),
    dict(name="aor-no-ror", fn=aor_jac(False), functions=F, bounds=B),
    dict(name="cosi-circ-b", fn=cosi(False, "a", "b"), functions=F, bounds=BB),
    dict(name="cosi-ecc-b", fn=cosi(True, "a", "b"), functions=F, bounds=BB),
    dict(name="cosi-circ-incl", fn=cosi(False, "a", "incl"), functions=F, bounds=BB),
    dict(name="cosi-ecc-incl", fn=cosi(True, "a", "incl"), functions=F, bounds=BB),
    dict(name="cosi-ecc-stellar", fn=cosi(True, "stellar", "b"), functions=F, bounds=BB),
    dict(name="cosi-two", fn=cosi(True, "a", "b", n=2), functions=F, bounds=BB + "; two planets"),
    dict(name="ror-scalar", fn=ror_jac(0), functions=L, bounds="all reals: delta > 0, |b| < 1, u1, u2 with positive intensity"),
    dict(name="ror-vector", fn=ror_jac(2), functions=L, bounds="all reals: delta > 0, |b| < 1, u1, u2 with positive intensity; two depths"),
]
