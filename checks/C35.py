"""Minimum masses are the semi-amplitudes turned into masses by Kepler's third law."""
from checks.estim import *
from checks.estim import TRUSTED      # noqa: F401

FN = ["estimate_minimum_mass", "estimate_semi_amplitude", "_get_design_matrix"]
YEAR = Fraction("365.25")
KJ = Fraction("28.4329")              # m/s: a Jupiter mass in a one year orbit around the Sun
MSUN = u.M_sun


def law(c, K, P, m_star):
    """minimum mass in Jupiter masses; K m/s, P days, m_star solar masses"""
    return K / KJ * c.cbrt(m_star * m_star) * c.cbrt(P / YEAR)


def given(c, v, unit):
    return None if v is None else quantity(c, v, None if unit is None else u.Unit(unit))


def mass(npl=1, t0s=False, yerr=False, star=None, scalar=False, unit=(None,) * 5, grid=None):
    """units: of the periods and transit times, times, velocities, uncertainties, star.  The times lie at given phases of the first period"""
    def h(c):
        q = grid or ((-.25, .25, .5) if t0s else (0, .25, .5))
        p = c.real("P", 0, nice=(2., 4.))
        m_star = c.real("m_star", 0, nice=(.3, 3.)) if star else c.num(1)
        y = [c.real("y%d" % i, nice=(-50., 50.)) for i in range(len(q))]
        e = [c.real("e%d" % i, 0, nice=(.5, 2.)) for i in range(len(q))] if yerr else None
        t = c.real("t0", nice=(-1., 1.)) if t0s else None
        P = [p, 2 * p][:npl]
        x = [(t if t0s else 0) + k * p for k in q]
        T = [t, t + p][:npl] if t0s else None
        day, tday, ms, msun = [1 if n is None else Fraction(u.Unit(n).to(b)) for n, b in (
            (unit[0], u.day), (unit[1], u.day), (unit[2], u.m / u.s), (unit[4], u.M_sun))]
        give = lambda v, s: [w / s for w in v]                             # noqa: E731
        one = lambda v: v[0] if scalar else v                              # noqa: E731
        kw = {}
        if yerr:
            kw["yerr"] = given(c, give(e, ms), unit[3])
        if t0s:
            kw["t0s"] = given(c, one(give(T, day)), unit[0])
        a = [given(c, one(give(P, day)), unit[0]), given(c, give(x, tday), unit[1]), given(c, give(y, ms), unit[2])]
        # the semi-amplitudes: decided by C34
        K = run(c, est.estimate_semi_amplitude, *a, **kw)
        if star:
            kw["m_star"] = given(c, m_star, unit[4])
        got = run(c, est.estimate_minimum_mass, *a, **kw)
        c.true("unit", got.unit == u.M_jupiter)
        c.shape("mass", got.value, (npl,))
        for i, g in enumerate(plain(got)):
            k = plain(K)[i]
            if unit == (None,) * 5:
                c.eq("mass%d" % i, g, law(c, k, P[i], m_star * msun), rtol=2e-5, atol=1e-9)
                continue
            # conversion factors are rounded numbers: a relative margin, with the roots cubed away
            s = 1 if tr(k > 0) else -1
            want = (s * k / KJ) ** 3 * (m_star * msun) ** 2 * P[i] / YEAR
            c.le("mass%d from below" % i, want * Fraction("0.99999"), (s * g) ** 3)
            c.le("mass%d from above" % i, (s * g) ** 3, want * Fraction("1.00001"))
    return h


def orbit(incl):
    """the mass of the planet of an orbit, from its radial velocities (signed with the transit time known)"""
    def h(c):
        P = c.real("P0", 0, nice=(2., 400.))
        t0 = c.real("t00", nice=(-1., 1.))
        m = c.real("m_planet", 0, nice=(.0001, .0005))
        M = c.real("m_star", 0, nice=(.3, 3.))
        kw = dict(b=0.)
        s = 1
        if incl:
            i = c.angle("incl", nice=(.5, 1.5))
            s = c.sin(i)
            c.assume(s > 0)
            kw = dict(incl=c.tensor(i))
        c.assume(m <= M / 1000)
        x = [t0 - P / 4, t0, t0 + P / 4, t0 + P / 8]
        o = KeplerianOrbit(period=c.tensor(P), t0=c.tensor(t0), m_planet=c.tensor(m), m_star=c.tensor(M), r_star=1., **kw)
        rv = plain(c.ev(o.get_radial_velocity(c.tensor(x), output_units=u.m / u.s)))
        got = run(c, est.estimate_minimum_mass, quantity(c, [P]), quantity(c, x), quantity(c, rv), t0s=quantity(c, [t0]),
                  m_star=quantity(c, M))
        g = plain(got)[0] * Fraction(u.M_jupiter.to(u.M_sun))
        c.le("mass from below", (m * s * Fraction("0.998")) ** 3, g ** 3)
        c.le("mass from above", g ** 3, (m * s * Fraction("1.002")) ** 3)
    return h


HARNESSES = []


def add(name, fn, bounds, **kw):
    HARNESSES.append(dict(name=name, fn=fn, functions=FN, bounds=bounds, **kw))


add("units-star-years", mass(star=True, unit=("yr", None, None, None, "kg")), "periods in years, mass of the star in kg")
HALF = (0, .25, .5, .75, 1.25)
N = None
add("default-star", mass(), "one planet, any period and velocities")
add("star", mass(star=True), "one planet, any period, velocities and mass of the star")
add("t0", mass(t0s=True, star=True), "one planet, any period, t0, velocities and star")
add("weights", mass(t0s=True, yerr=True, star=True), "one planet, any period, t0, velocities, uncertainties and star")
add("weights-no-t0", mass(yerr=True, grid=HALF[:4]), "one planet, any period, velocities and uncertainties")
add("scalar", mass(t0s=True, scalar=True, star=True), "period and t0 given as scalars")
add("two", mass(2, t0s=True, star=True, grid=HALF[:4]), "two planets, periods p and 2p, any t0, velocities and star")
add("two-no-t0", mass(2, star=True, grid=HALF), "two planets, periods p and 2p, any velocities and star")
add("units-hours", mass(t0s=True, star=True, unit=("hour", "hour", N, N, N)), "periods, times and t0 in hours")
add("units-years", mass(star=True, unit=("yr", N, N, N, N)), "periods in years")
add("units-star", mass(star=True, unit=(N, N, N, N, "M_jup")), "mass of the star in Jupiter masses")
add("units-data", mass(star=True, yerr=True, unit=("min", "min", "km/s", "km/s", N), grid=HALF[:4]), "periods and times in minutes, velocities in km/s")
add("orbit", orbit(False), "any circular orbit seen edge on, planet below 1e-3 of the star")
add("orbit-incl", orbit(True), "any circular orbit and inclination, planet below 1e-3 of the star")
