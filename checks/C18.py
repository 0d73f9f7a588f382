"""TTV orbits transit exactly at the labelled transit times."""
from checks.common import *

TRUSTED = [KEPLER]


def ephemeris(c, m, mode, inds=None, j="", big=False):
    """(orbit kwargs, t0, ttv period, all labelled transit times) of one planet with m transits"""
    N = list(range(m)) if inds is None else list(inds)
    if mode == "ttvs":
        P = c.real("period" + j, 0, nice=(2., 8.))
        t0 = c.real("t0" + j, nice=(-2., 2.))
        v = [c.real("ttv%s_%d" % (j, k), nice=(-.1, .1)) for k in range(m)]
        tt = [t0 + n * P + x for n, x in zip(N, v)]
        kw = dict(period=P, t0=t0, ttvs=v)
        Pt = P
    else:
        tt = []
        x = c.real("tt%s_0" % j, nice=(-2., 2.))
        tt.append(x)
        for k in range(1, m):
            g = c.real("gap%s_%d" % (j, k), 0, nice=(3., 3.25))
            x = x + g * (N[k] - N[k - 1])
            tt.append(x)
        # least-squares ephemeris
        mean = lambda a: sum(a[1:], a[0]) / len(a)                                       # noqa: E731
        nb, yb = mean([c.num(n) for n in N]), mean(tt)
        sxx = sum((n - nb) ** 2 for n in N)
        Pt = sum(((n - nb) * (y - yb) for n, y in zip(N, tt)), c.num(0)) / sxx
        t0 = yb - Pt * nb
        c.assume(Pt > 0)
        P = Pt
        kw = dict(transit_times=tt)
        if mode == "times+period":
            P = c.real("period" + j, 0, nice=(2., 8.))
            kw["period"] = P
    if inds is not None:
        kw["transit_inds"] = list(inds)
    full = [t0 + Pt * n for n in range(max(N) + 1)]
    for n, x in zip(N, tt):
        full[n] = x
    # labelled transits are in order
    for x, y in zip(full, full[1:]):
        c.assume(x < y)
    return kw, t0, P, Pt, full


def make(c, eph, **kw):
    """TTV orbit and the plain orbit with the same parameters"""
    col = lambda k: [e[0][k] for e in eph]                                              # noqa: E731
    opts = {}
    for k in eph[0][0]:
        if k in ("ttvs", "transit_times"):
            opts[k] = [c.tensor(v) for v in col(k)]
        elif k == "transit_inds":
            opts[k] = [np.array(v) for v in col(k)]
        else:
            opts[k] = c.tensor(col(k))
    plain = KeplerianOrbit(period=c.tensor([e[2] for e in eph]), t0=c.tensor([e[1] for e in eph]), **kw)
    return TTVOrbit(**opts, **kw), plain


def extra(c, ecc, n=1):
    kw = dict(m_star=c.tensor(c.real("m_star", 0, nice=(.5, 2.))), r_star=c.tensor(c.num(1)))
    if ecc:
        kw.update(ecc=c.tensor([c.real("ecc%d" % j, 0, 1, nice=(.05, .6)) for j in range(n)]),
                  omega=c.tensor([c.angle("omega%d" % j) for j in range(n)]))
    return kw


def near(c, full, k, d, Pt):
    """d within half the gap to the neighbouring labelled transits"""
    lo = (full[k] - full[k - 1]) / 2 if k else Pt / 2
    hi = (full[k + 1] - full[k]) / 2 if k + 1 < len(full) else Pt / 2
    c.assume(d < hi)
    c.assume(d > -lo)


GETTERS = ["get_%s_%s" % (b, k) for b in ("relative", "planet", "star") for k in ("position", "velocity", "acceleration")]


def state(m, mode, ecc, inds=None, getters=GETTERS, which=None):
    def h(c):
        e = ephemeris(c, m, mode, inds)
        kw, t0, P, Pt, full = e
        orb, plain = make(c, [e], **extra(c, ecc))
        k = c.choice("transit", list(range(len(full))) if which is None else which)
        d = c.real("delta", nice=(-.3, .3))
        near(c, full, k, d, Pt)
        c.eq("labelled time", c.ev(orb.all_transit_times[0])[k], full[k])
        for g in getters:
            a = c.ev(list(getattr(orb, g)(c.tensor([full[k] + d]))))
            b = c.ev(list(getattr(plain, g)(c.tensor([t0 + d]))))
            for x, y, n in zip(a, b, "xyz"):
                c.eq("%s.%s" % (g, n), x.item(), y.item())
        if "get_relative_velocity" in getters:
            c.eq("rv", c.ev(orb.get_radial_velocity(c.tensor([full[k] + d]))).item(),
                 c.ev(plain.get_radial_velocity(c.tensor([t0 + d]))).item())
    return h


def outside(m, mode):
    """before the first / after the last labelled transit the nearest one is used"""
    def h(c):
        e = ephemeris(c, m, mode)
        kw, t0, P, Pt, full = e
        orb, plain = make(c, [e], **extra(c, False))
        d = c.real("delta", 0, nice=(3., 9.))
        s = c.choice("side", [-1, 1])
        x = full[0] - d if s < 0 else full[-1] + d
        a = c.ev(list(orb.get_relative_position(c.tensor([x]))))
        b = c.ev(list(plain.get_relative_position(c.tensor([t0 + s * d]))))
        for g, w, n in zip(a, b, "xyz"):
            c.eq("outside.%s" % n, g.item(), w.item())
    return h


def zero(m, ecc, inds=None):
    """no timing variations: the plain orbit at every time"""
    def h(c):
        P = c.real("period", 0, nice=(2., 8.))
        t0 = c.real("t0", nice=(-2., 2.))
        kw = extra(c, ecc)
        opts = {} if inds is None else dict(transit_inds=[np.array(inds)])
        orb = TTVOrbit(period=c.tensor([P]), t0=c.tensor([t0]), ttvs=[c.tensor([0.] * m)], **opts, **kw)
        plain = KeplerianOrbit(period=c.tensor([P]), t0=c.tensor([t0]), **kw)
        T = c.tensor([c.real("t", nice=(-4., 9.))])
        for g in GETTERS:
            a, b = [c.ev(list(getattr(o, g)(T))) for o in (orb, plain)]
            for x, y, n in zip(a, b, "xyz"):
                c.eq("%s.%s" % (g, n), x.item(), y.item())
    return h


def planets(mode, sizes, m=1, ecc=False):
    """several planets: each follows its own labels, at several times"""
    def h(c):
        es = [ephemeris(c, s, mode, None, str(j)) for j, s in enumerate(sizes)]
        orb, plain = make(c, es, **extra(c, ecc, len(es)))
        j = c.choice("planet", list(range(len(es))))
        kw, t0, P, Pt, full = es[j]
        ks = [c.choice("transit%d" % i, list(range(len(full)))) for i in range(m)]
        ds = [c.real("delta%d" % i, nice=(-.3, .3)) for i in range(m)]
        for k, d in zip(ks, ds):
            near(c, full, k, d, Pt)
        a = c.ev(list(orb.get_relative_position(c.tensor([full[k] + d for k, d in zip(ks, ds)]))))
        b = c.ev(list(plain.get_relative_position(c.tensor([t0 + d for d in ds]))))
        for x, y, n in zip(a, b, "xyz"):
            for i in range(m):
                c.eq("%s[%d]" % (n, i), np.reshape(x, (m, len(es)))[i, j], np.reshape(y, (m, len(es)))[i, j])
    return h


def transits(mode, m, texp):
    """in_transit finds the labelled transits"""
    def h(c):
        e = ephemeris(c, m, mode)
        kw, t0, P, Pt, full = e
        rs = c.real("r_star", 0, nice=(.5, 1.5))
        a = c.real("a", 0, nice=(3., 10.))
        r = c.real("r", 0, nice=(.05, .3))
        c.assume(a > rs + r)
        orb, plain = make(c, [e], a=c.tensor([a]), r_star=c.tensor(rs))
        k = c.choice("transit", list(range(len(full))))
        d = c.real("delta", nice=(-.3, .3))
        near(c, full, k, d, Pt)
        opts = dict(r=c.tensor([r]))
        if texp:
            opts["texp"] = c.tensor(c.real("texp", 0, nice=(.01, .2)))
        x, y = [[int(i) for i in np.asarray(c.ev(o.in_transit(c.tensor([s]), **opts))).ravel()]
                for o, s in ((orb, full[k] + d), (plain, t0 + d))]
        c.true("in transit like the plain orbit at the warped time", x == y, "%s, %s" % (x, y),
               margin=None)
    return h


F = ["TTVOrbit.__init__", "TTVOrbit._warp_times", "TTVOrbit._get_model_dt", "KeplerianOrbit getters"]
B = "all reals: period, t0 or transit times, TTVs with the labelled transits in order, every delta up to half the neighbouring gaps; %s"
POS = ["get_relative_position"]
HARNESSES = [
    dict(name="ttvs-1", fn=state(1, "ttvs", False), functions=F, bounds=B % "one labelled transit"),
    dict(name="ttvs-2", fn=state(2, "ttvs", False), functions=F, bounds=B % "two labelled transits"),
    dict(name="ttvs-3", fn=state(3, "ttvs", False, getters=POS), functions=F, bounds=B % "three labelled transits"),
    dict(name="ttvs-ecc", fn=state(2, "ttvs", True), functions=F, bounds=B % "two labelled transits, eccentric"),
    dict(name="ttvs-gap", fn=state(2, "ttvs", False, inds=(0, 2), getters=POS), functions=F, bounds=B % "transits 0 and 2 labelled"),
    dict(name="ttvs-gap-first", fn=state(1, "ttvs", True, inds=(1,), getters=POS), functions=F, bounds=B % "transit 1 labelled, eccentric"),
    dict(name="times-2", fn=state(2, "times", False), functions=F, bounds=B % "two transit times"),
    dict(name="times-3", fn=state(3, "times", False, getters=POS), functions=F, bounds=B % "three transit times"),
    dict(name="times-ecc", fn=state(2, "times", True, getters=POS), functions=F, bounds=B % "two transit times, eccentric"),
    dict(name="times-gap", fn=state(2, "times", False, inds=(0, 2), getters=POS), functions=F, bounds=B % "transits 0 and 2 given"),
    dict(name="times-period", fn=state(2, "times+period", False), functions=F, bounds=B % "two transit times and a separate period"),
    dict(name="times-period-ecc", fn=state(2, "times+period", True, getters=POS), functions=F, bounds=B % "two transit times and a separate period, eccentric"),
    dict(name="outside-ttvs", fn=outside(2, "ttvs"), functions=F, bounds="any time outside the labelled transits"),
    dict(name="outside-times", fn=outside(2, "times+period"), functions=F, bounds="any time outside the labelled transits"),
    dict(name="zero", fn=zero(3, False), functions=F, bounds="three transits without variations, any time"),
    dict(name="zero-ecc", fn=zero(2, True), functions=F, bounds="two transits without variations, any time, eccentric"),
    dict(name="zero-gap", fn=zero(2, False, (0, 2)), functions=F, bounds="transits 0 and 2 labelled without variations, any time"),
    dict(name="two-planets", fn=planets("ttvs", (2, 1)), functions=F, bounds=B % "two planets with two and one transits"),
    dict(name="two-planets-times", fn=planets("times", (2, 3)), functions=F, bounds=B % "two planets with two and three transit times"),
    dict(name="two-times", fn=planets("ttvs", (2,), m=2), functions=F, bounds=B % "two times"),
    dict(name="in-transit", fn=transits("ttvs", 2, False), functions=F + ["in_transit"], bounds=B % "two labelled transits"),
    dict(name="in-transit-times", fn=transits("times", 2, True), functions=F + ["in_transit"], bounds=B % "two transit times, exposure"),
]
