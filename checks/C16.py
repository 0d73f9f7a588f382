"""Unit-labelled inputs are equivalent to converted plain numbers."""
import warnings
from fractions import Fraction
from astropy import units as u
from checks.common import *
from exoplanet.units import with_unit, to_unit, has_unit

TRUSTED = ["conversion factors: IAU 2015 nominal values written in this file, matched against astropy's to 2e-15"]

GM_EARTH, GM_JUP = 3.986004e14, 1.2668653e17
R_EARTH, R_JUP = 6.3781e6, 7.1492e7
M_SUN = GM_SUN / BIG_G
PC = AU * 648000 / math.pi
LEN = {"R_sun": R_SUN, "R_jup": R_JUP, "R_earth": R_EARTH, "AU": AU, "km": 1e3, "m": 1.0}
MASS = {"M_sun": M_SUN, "M_jup": GM_JUP / BIG_G, "M_earth": GM_EARTH / BIG_G, "kg": 1.0}
TIME = {"day": 1.0, "hour": Fraction(1, 24), "yr": Fraction(36525, 100), "minute": Fraction(1, 1440),
        "week": 7, "s": Fraction(1, 86400)}
DENS = {"g_cm3": 1e3, "kg_m3": 1.0, "sun": M_SUN / R_SUN ** 3, "earth": GM_EARTH / BIG_G / R_EARTH ** 3}
UNIT = {"R_sun": u.R_sun, "R_jup": u.R_jup, "R_earth": u.R_earth, "AU": u.au, "km": u.km, "m": u.m,
        "M_sun": u.M_sun, "M_jup": u.M_jup, "M_earth": u.M_earth, "kg": u.kg,
        "day": u.day, "hour": u.hour, "yr": u.yr, "minute": u.minute, "week": u.week, "s": u.s,
        "g_cm3": u.g / u.cm ** 3, "kg_m3": u.kg / u.m ** 3, "sun": u.M_sun / u.R_sun ** 3,
        "earth": u.M_earth / u.R_earth ** 3}


def kind(n):
    return LEN if n in LEN else MASS if n in MASS else TIME if n in TIME else DENS


def factor(c, frm, to):
    t = kind(frm)
    if frm == to:
        return c.num(1)
    if t is TIME:
        return c.num(Fraction(t[frm]) / Fraction(t[to]))
    return c.const("%s_per_%s" % (to, frm), t[frm] / t[to])


BASE = dict(period="day", duration="day", a="R_sun", r_star="R_sun", m_star="M_sun", m_planet="M_sun", rho_star="g_cm3")
NICE = dict(period=(1., 8.), duration=(.05, .4), a=(3., 10.), r_star=(.5, 1.5), m_star=(.5, 2.), m_planet=(.0001, .001),
            rho_star=(.5, 2.))
ATTRS = ("a", "period", "r_star", "m_star", "m_planet", "rho_star", "m_total", "b", "cos_incl", "n", "K0", "a_star",
         "a_planet", "t_periastron", "incl", "duration")


def conversions(table):
    def h(c):
        names = list(table)
        x = c.real("x", nice=(-3., 3.))
        y = [c.real("y%d" % i, nice=(-3., 3.)) for i in range(2)]
        for a in names:
            for b in names:
                for v in (x, y):
                    f = factor(c, a, b)
                    w = with_unit(c.tensor(v), UNIT[a])
                    c.true("labelled", has_unit(w))
                    c.eq("labelling keeps the value", c.ev(w), v)
                    got = to_unit(w, UNIT[b])
                    c.true("converted values are plain", not has_unit(got))
                    c.eq("%s -> %s" % (a, b), c.ev(got), [z * f for z in v] if isinstance(v, list) else v * f)
                    c.eq("the input keeps its value", c.ev(w), v)
            plain = c.tensor(x)
            c.true("unlabelled", not has_unit(plain))
            c.true("unlabelled unchanged", to_unit(plain, UNIT[a]) is plain)
            c.raises("labelled twice", TypeError, lambda: with_unit(with_unit(c.tensor(x), UNIT[a]), UNIT[a]))
    return h


def values(c, given, n):
    """labelled values and the same converted by hand"""
    lab, plain = {}, {}
    for k, unit in given.items():
        shared = k in ("r_star", "m_star", "rho_star")
        v = [c.real("%s%d" % (k, j), 0, nice=NICE[k]) for j in range(1 if shared or not n else n)]
        f = factor(c, unit, BASE[k]) if unit else c.num(1)
        # v is the number in base units, so that the plain orbit has ordinary parameters
        w = [x / f for x in v]
        if shared or not n:
            v, w = v[0], w[0]
        plain[k] = v
        lab[k] = with_unit(c.tensor(w), UNIT[unit]) if unit else c.tensor(w)
    return lab, plain


def compare(c, lab, plain):
    at = [a for a in ATTRS if getattr(plain, a, None) is not None]
    for a in at:
        c.true("has " + a, getattr(lab, a, None) is not None)
        x, y = c.ev(getattr(lab, a)), c.ev(getattr(plain, a))
        c.shape(a, x, np.shape(y))
        c.eq(a, x, y)
    for a in dict.fromkeys(k for k in plain.jacobians["duration"]):
        c.eq("jacobian " + a, c.ev(lab.jacobians["duration"][a]), c.ev(plain.jacobians["duration"][a]))
    c.eq("jacobian b", c.ev(lab.jacobians["b"]["cos_incl"]), c.ev(plain.jacobians["b"]["cos_incl"]))


def orbit(n=1, ecc=False, dur=False, deprecated=(), **given):
    def h(c):
        lab, plain = values(c, given, n)
        if {"a", "period", "m_planet"} <= set(given):
            a, P, m = [plain[k] if isinstance(plain[k], list) else [plain[k]] for k in ("a", "period", "m_planet")]
            for x, y, z in zip(a, P, m):
                c.assume(4 * c.pi ** 2 * x ** 3 / (G(c) * y ** 2) > z)
        kw = {}
        if ecc:
            e, w = c.real("ecc", 0, 1, nice=(.05, .5)), c.angle("omega")
            kw = dict(ecc=c.tensor(e), omega=c.tensor(w))
        if dur and not ecc:
            b, k = c.real("b", 0, strict=False, nice=(0., .8)), c.real("ror", 0, nice=(.02, .3))
            c.assume(b < 1)
            for x, y in zip(*[plain[q] if isinstance(plain[q], list) else [plain[q]] for q in ("duration", "period")]):
                c.assume(x < y / 2)
                c.axiom(c.sin(c.pi * x / y) > 0)
                c.axiom(c.cos(c.pi * x / y) > 0)
            kw = dict(b=c.tensor(b), ror=c.tensor(k))
        for k in deprecated:
            # the deprecated spelling of a unit
            lab[k] = c.tensor([x / factor(c, given[k], BASE[k]) for x in plain[k]] if isinstance(plain[k], list)
                              else plain[k] / factor(c, given[k], BASE[k]))
            lab[k + "_units"] = UNIT[given[k]]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o1 = KeplerianOrbit(**lab, **kw)
            o2 = KeplerianOrbit(**{k: c.tensor(v) for k, v in plain.items()}, **kw)
        if ecc and dur:
            c.eq("duration", c.ev(o1.duration), plain["duration"])
            for nm in ("a", "period", "rho_star", "dcosidb"):
                c.eq(nm, c.ev(getattr(o1, nm)), c.ev(getattr(o2, nm)))
            return
        compare(c, o1, o2)
    return h


F = ["with_unit", "has_unit", "to_unit", "_get_consistent_inputs", "KeplerianOrbit.__init__"]
B = "all positive reals; units "
HARNESSES = [
    dict(name="length", fn=conversions(LEN), functions=F[:3], bounds="all reals; " + ", ".join(LEN)),
    dict(name="mass", fn=conversions(MASS), functions=F[:3], bounds="all reals; " + ", ".join(MASS)),
    dict(name="time", fn=conversions(TIME), functions=F[:3], bounds="all reals; " + ", ".join(TIME)),
    dict(name="density", fn=conversions(DENS), functions=F[:3], bounds="all reals; " + ", ".join(DENS)),
]


def add(name, **kw):
    HARNESSES.append(dict(name=name, fn=orbit(**kw), functions=F,
                          bounds=B + ", ".join("%s: %s" % (k, v) for k, v in kw.items() if k in BASE)))


add("period-hour", period="hour", m_star=None, r_star=None)
add("period-yr-two", n=2, period="yr", m_star="kg", r_star="km")
add("stellar", period=None, m_star="M_jup", r_star="R_jup", m_planet="M_earth")
add("a-AU", a="AU", r_star="R_earth", period=None, m_planet="M_jup")
add("a-m-two", n=2, a="m", r_star="AU", period="s", m_planet="kg")
add("a-stellar", a="AU", m_star="M_earth", r_star="R_sun", m_planet="M_earth")
add("rho-kg_m3", period=None, rho_star="kg_m3", r_star=None, m_planet="M_jup")
add("rho-sun", period="week", rho_star="sun", r_star="R_jup")
add("rho-default-radius", period=None, rho_star="g_cm3")
add("rho-mass", period=None, rho_star="earth", m_star="M_jup")
add("rho-plain", period="hour", rho_star=None, m_star="kg")
add("scalar", n=0, period="hour", m_star="M_jup", r_star="R_jup", m_planet="M_earth")
add("ecc", ecc=True, period="hour", m_star="M_jup", r_star="R_jup", m_planet="M_earth")
add("ecc-a", ecc=True, a="AU", r_star="R_jup", period="minute")
add("duration", dur=True, period="hour", duration="minute", r_star="R_jup")
add("duration-mass", dur=True, period=None, duration="hour", r_star=None, m_planet="M_earth")
add("duration-default-star", dur=True, period="yr", duration="s")
add("duration-scalar", dur=True, n=0, period="hour", duration="week", r_star="R_earth")
add("duration-ecc", dur=True, ecc=True, period="hour", duration="minute", a="AU", r_star="R_jup")
add("deprecated-m", period=None, m_star=None, r_star=None, m_planet="M_earth", deprecated=("m_planet",))
add("deprecated-m-two", n=2, period=None, m_star="kg", r_star=None, m_planet="M_jup", deprecated=("m_planet",))
add("deprecated-rho", period=None, rho_star="kg_m3", r_star=None, deprecated=("rho_star",))
add("deprecated-both", period="hour", rho_star="sun", m_planet="kg", r_star="km", deprecated=("rho_star", "m_planet"))
