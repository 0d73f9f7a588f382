"""in_transit returns exactly the exposures that overlap a transit."""
from checks.common import *

TRUSTED = ["contact_points contract: mean anomalies at which the projected separation is L before and after inferior "
           "conjunction, flag = 0 when found (exoplanet_core, compiled)"]


class Planet:
    pass


def circ_params(c, n, tilt="b"):
    """n circular planets; per planet L = r_star + r, S = sin of the phase at contact"""
    out = []
    rs = c.real("r_star", 0, nice=(.5, 1.5))
    for j in range(n):
        p = Planet()
        p.P = c.real("period%d" % j, 0, nice=(1., 8.))
        p.a = c.real("a%d" % j, 0, nice=(3., 10.))
        p.r = c.real("r%d" % j, 0, nice=(.05, .4))
        p.t0 = c.real("t0%d" % j, nice=(-2., 2.))
        p.L = rs + p.r
        c.assume(p.a > p.L)
        if tilt == "b":
            p.b = c.real("b%d" % j, 0, strict=False, nice=(0., .9))
            c.assume(p.b * rs < p.a)
            p.ci = p.b * rs / p.a
        else:
            p.b = c.num(0)
            p.ci = c.num(0)
        p.si2 = 1 - p.ci * p.ci
        out.append(p)
    kw = dict(period=[p.P for p in out], a=[p.a for p in out], t0=[p.t0 for p in out])
    if tilt == "b":
        kw["b"] = [p.b for p in out]
    orb = KeplerianOrbit(r_star=c.tensor(rs), **{k: c.tensor(v) for k, v in kw.items()})
    return orb, out, rs


def close(c, p, s2, cosw):
    """planet in front of the star and projected distance <= L at a phase with this sine^2 and cosine"""
    return c.all(cosw > 0, s2 * p.si2 * p.a ** 2 <= p.L ** 2 - p.a ** 2 * p.ci ** 2)


def returned(c, orb, ts, **kw):
    if kw.get("texp") is not None:
        kw["texp"] = c.tensor(kw["texp"])
    if kw.get("r") is not None:
        kw["r"] = c.tensor(kw["r"])
    idx = c.ev(orb.in_transit(c.tensor(ts), **kw))
    return [int(i) for i in np.asarray(idx).reshape(-1)]


def margins(c, p, phi, w):
    """numeric distance of phase phi from the edge of the transit (boundary cases are not compared)"""
    if c.mode == "sym":
        return None
    v = (p.L ** 2 - p.a ** 2 * p.ci ** 2) / (p.si2 * p.a ** 2)
    if v < 0:
        return [v]
    h = np.arcsin(np.sqrt(v))
    phi = (phi + np.pi) % (2 * np.pi) - np.pi
    return [abs(phi) - h - w]


def instant(tilt, defr=False):
    """no exposure time: the index is returned iff the planet is in transit at that time"""
    def h(c):
        orb, (p,), rs = circ_params(c, 1, tilt)
        phi = c.angle("phi", -1, 1)
        k = c.int("k", nice=(-5, 5))
        t = p.t0 + p.P * (phi / (2 * c.pi) + k)
        if defr:
            p.L = rs
        got = returned(c, orb, [t], **({} if defr else dict(r=[p.r])))
        want = close(c, p, c.sin(phi) ** 2, c.cos(phi))
        c.true("index", want if 0 in got else c.neg(want), "returned %s" % got, margin=margins(c, p, phi, 0))
    return h


def exposed_complete(tilt, vector):
    """if the planet transits at some time s inside the exposure, the index is returned"""
    def h(c):
        orb, (p,), rs = circ_params(c, 1, tilt)
        phi = c.angle("phi", -1, 1)
        psi = c.angle("psi", -1, 1)
        k = c.int("k", nice=(-5, 5))
        m = c.choice("m", [0, 1, -1])
        texp = c.real("texp", 0, nice=(.01, .5))
        t = p.t0 + p.P * (phi / (2 * c.pi) + k)
        s = p.t0 + p.P * (psi / (2 * c.pi) + k + m)
        c.assume(s - t <= texp / 2)
        c.assume(t - s <= texp / 2)
        c.assume(close(c, p, c.sin(psi) ** 2, c.cos(psi)))
        got = returned(c, orb, [t], r=[p.r], texp=[texp] if vector else texp)
        c.true("index", 0 in got, "exposure overlapping a transit not returned",
               margin=margins(c, p, phi, np.pi * texp / p.P if c.mode == "num" else 0))
    return h


def exposed_sound(tilt, side, vector):
    """if the index is returned, the exposure contains a time at which the planet transits: the time closest to the
    transit centre"""
    def h(c):
        orb, (p,), rs = circ_params(c, 1, tilt)
        k = c.int("k", nice=(-5, 5))
        texp = c.real("texp", 0, nice=(.01, .5))
        th = c.pi * texp / p.P
        if side:
            psi = c.angle("psi", 0, 1)
            phi = side * (psi + th)
        else:
            psi = c.num(0)
            phi = c.angle("phi", -1, 1)
            c.assume(phi <= th)
            c.assume(phi >= -th)
        c.assume(phi < c.pi)
        c.assume(phi >= -c.pi)
        t = p.t0 + p.P * (phi / (2 * c.pi) + k)
        got = returned(c, orb, [t], r=[p.r], texp=[texp] if vector else texp)
        if 0 in got:
            c.true("index", close(c, p, c.sin(psi) ** 2, c.cos(psi)), "exposure outside every transit returned",
                   margin=margins(c, p, phi, np.pi * texp / p.P if c.mode == "num" else 0))
        else:
            c.true("index", c.neg(close(c, p, c.sin(psi) ** 2, c.cos(psi))), "exposure in a transit not returned",
                   margin=margins(c, p, phi, np.pi * texp / p.P if c.mode == "num" else 0))
    return h


def circ_planets(c):
    """two planets: the union over planets (the second t0 is named by the phase of the second planet)"""
    orb, ps, rs, t, phis = circ_pair(c)
    got = returned(c, orb, [t], r=[p.r for p in ps])
    want = c.any(*[close(c, p, c.sin(f) ** 2, c.cos(f)) for p, f in zip(ps, phis)])
    c.true("index", want if 0 in got else c.neg(want), "returned %s" % got,
           margin=None if c.mode == "sym" else margins(c, ps[0], phis[0], 0) + margins(c, ps[1], phis[1], 0))


def circ_pair(c):
    rs = c.real("r_star", 0, nice=(.5, 1.5))
    ps, phis = [], []
    t = None
    for j in range(2):
        p = Planet()
        p.P = c.real("period%d" % j, 0, nice=(1., 8.))
        p.a = c.real("a%d" % j, 0, nice=(3., 10.))
        p.r = c.real("r%d" % j, 0, nice=(.05, .4))
        p.L = rs + p.r
        c.assume(p.a > p.L)
        p.ci, p.si2 = c.num(0), c.num(1)
        phi = c.angle("phi%d" % j, -1, 1)
        k = c.int("k%d" % j, nice=(-3, 3))
        if j == 0:
            p.t0 = c.real("t0", nice=(-2., 2.))
            t = p.t0 + p.P * (phi / (2 * c.pi) + k)
        else:
            p.t0 = t - p.P * (phi / (2 * c.pi) + k)
        ps.append(p)
        phis.append(phi)
    orb = KeplerianOrbit(r_star=c.tensor(rs), **{n: c.tensor([getattr(p, k) for p in ps])
                                                for n, k in (("period", "P"), ("a", "a"), ("t0", "t0"))})
    return orb, ps, rs, t, phis


def circ_times(c):
    """two times: each index by itself, in increasing order"""
    orb, (p,), rs = circ_params(c, 1, None)
    phis = [c.angle("phi%d" % i, -1, 1) for i in range(2)]
    ks = [c.int("k%d" % i, nice=(-3, 3)) for i in range(2)]
    ts = [p.t0 + p.P * (f / (2 * c.pi) + k) for f, k in zip(phis, ks)]
    got = returned(c, orb, ts, r=[p.r])
    c.true("ordered", got == sorted(set(got)) and set(got) <= {0, 1}, "%s" % got)
    for i in range(2):
        want = close(c, p, c.sin(phis[i]) ** 2, c.cos(phis[i]))
        c.true("index %d" % i, want if i in got else c.neg(want), "returned %s" % got, margin=margins(c, p, phis[i], 0))


# ---------------------------------------------------------------------------------------------------- eccentric
def ecc_setup(c, n=1, t0=None):
    rs = c.real("r_star", 0, nice=(.5, 1.5))
    ps = []
    for j in range(n):
        p = Planet()
        p.P = c.real("period%d" % j, 0, nice=(1., 8.))
        p.a = c.real("a%d" % j, 0, nice=(4., 12.))
        p.e = c.real("ecc%d" % j, 0, 1, nice=(.05, .5))
        p.w = c.angle("omega%d" % j)
        p.r = c.real("r%d" % j, 0, nice=(.05, .4))
        p.b = c.real("b%d" % j, 0, strict=False, nice=(0., .8))
        p.L = rs + p.r
        sw, cw = c.sin(p.w), c.cos(p.w)
        fac = (1 - p.e ** 2) / (1 + p.e * sw)
        c.assume(p.b * rs < p.a * fac)
        p.ci = p.b * rs / (p.a * fac)
        p.si = c.sqrt(1 - p.ci ** 2)
        E0 = c.arctan2(c.sqrt(1 - p.e ** 2) * cw, p.e + sw)
        p.M0 = E0 - p.e * c.sin(E0)
        p.n = 2 * c.pi / p.P
        # duration of the two halves of the transit, as mean anomaly
        p.flag, p.d1, p.d2 = c.contact_halves(p.M0, p.a, p.e, cw, sw, p.ci, p.si, p.L)
        if p.flag == 0:
            c.assume(p.d1 < c.pi)
            c.assume(p.d2 < c.pi)
            c.assume(p.d1 > 0)
            c.assume(p.d2 > 0)
        p.t0 = c.real("t0%d" % j, nice=(-2., 2.)) if t0 is None else t0(j, p)
        ps.append(p)
    orb = KeplerianOrbit(period=c.tensor([p.P for p in ps]), a=c.tensor([p.a for p in ps]),
                         ecc=c.tensor([p.e for p in ps]), omega=c.tensor([p.w for p in ps]),
                         b=c.tensor([p.b for p in ps]), t0=c.tensor([p.t0 for p in ps]), r_star=c.tensor(rs))
    return orb, ps, rs


def ecc_overlap(texpmode):
    def h(c):
        orb, (p,), rs = ecc_setup(c)
        k = c.int("k", nice=(-5, 5))
        u = c.real("u", nice=(-.6, .6))
        # a time near the start or the end of a transit
        edge = c.choice("edge", ["start", "end"])
        kw = dict(r=[p.r])
        th = c.num(0)
        if texpmode:
            texp = c.real("texp", 0, nice=(.01, .3))
            th = texp * p.n / 2
            kw["texp"] = [texp] if texpmode == "vector" else texp
        if p.flag != 0:
            got = returned(c, orb, [p.t0 + u, p.t0 - u], **dict(kw, texp=texp if texpmode else None))
            c.true("no contact points: every index", got == [0, 1], "%s" % got)
            return
        c.assume(p.d1 + th < c.pi)
        c.assume(p.d2 + th < c.pi)
        ph = (-p.d1 + u) if edge == "start" else (p.d2 + u)
        # within half a period of the transit
        c.assume(ph >= -c.pi)
        c.assume(ph < c.pi)
        t = p.t0 + ph / p.n + k * p.P
        got = returned(c, orb, [t], **kw)
        want = c.all(ph + th >= -p.d1, ph - th <= p.d2)
        c.true("index", want if 0 in got else c.neg(want), "returned %s" % got,
               margin=None if c.mode == "sym" else [ph + th + p.d1, ph - th - p.d2])
    return h


def ecc_two(c):
    """two planets: union; if either has no contact points, every index"""
    us = [c.real("u%d" % i, nice=(-.3, .6)) for i in range(2)]
    k = c.int("k", nice=(-3, 3))
    tt = []

    def t0(j, p):
        # the time under test is u after the start of the transit of either planet (plus k periods of the second)
        if j == 0:
            x = c.real("t00", nice=(-2., 2.))
            tt.append(x + (us[0] - p.d1) / p.n)
            return x
        return tt[0] - (us[1] - p.d1) / p.n - k * p.P

    orb, ps, rs = ecc_setup(c, 2, t0)
    got = returned(c, orb, tt, r=[p.r for p in ps])
    if any(p.flag != 0 for p in ps):
        c.true("no contact points: every index", got == [0], "%s" % got)
        return
    for u, p in zip(us, ps):
        c.assume(u - p.d1 >= -c.pi)
        c.assume(u - p.d1 < c.pi)
    want = c.any(*[c.all(u >= 0, u - p.d1 <= p.d2) for u, p in zip(us, ps)])
    c.true("index", want if 0 in got else c.neg(want), "returned %s" % got,
           margin=None if c.mode == "sym" else us + [u - p.d1 - p.d2 for u, p in zip(us, ps)])


def contract(c):
    """the contact-point contract itself, on the compiled kernel, at every replayed witness"""
    orb, (p,), rs = ecc_setup(c)
    c.true("delay not implemented", True)
    c.raises("light_delay", NotImplementedError, lambda: orb.in_transit(c.tensor([p.t0]), light_delay=True))
    if c.mode == "num" and p.flag == 0:
        for d in (-p.d1, p.d2):
            t = p.t0 + d / p.n
            x, y, z = c.ev(list(orb.get_relative_position(c.tensor([t]))))
            c.eq("distance", np.hypot(x, y), p.L, rtol=1e-5)
            c.true("front", z > 0)
        x, y, z = c.ev(list(orb.get_relative_position(c.tensor([p.t0 + (p.d2 - p.d1) / 2 / p.n]))))
        c.true("inside", np.hypot(x, y) < p.L)


F = ORBIT_FNS + ["in_transit"]
B = "all reals: period, a > r_star + r, r, r_star > 0, b, t0, every time (phase in [-pi, pi] plus k periods, every integer k)"
BE = ("all reals: period, a, r, r_star > 0, 0<=ecc<1, omega, b, t0, times within half a period of the k-th transit, every integer k; "
      "each half of the transit plus half an exposure shorter than half a period")
HARNESSES = [
    dict(name="circ-instant-b", fn=instant("b"), functions=F, bounds=B),
    dict(name="circ-instant-default-r", fn=instant("b", True), functions=F, bounds=B + "; r omitted"),
    dict(name="circ-instant-edge-on", fn=instant(None), functions=F, bounds=B),
    dict(name="circ-complete-scalar", fn=exposed_complete("b", False), functions=F, bounds=B + "; texp < 2 periods"),
    dict(name="circ-complete-vector", fn=exposed_complete("b", True), functions=F, bounds=B + "; texp < 2 periods"),
    dict(name="circ-sound-after", fn=exposed_sound("b", 1, False), functions=F, bounds=B + "; every texp > 0"),
    dict(name="circ-sound-before", fn=exposed_sound("b", -1, True), functions=F, bounds=B + "; every texp > 0"),
    dict(name="circ-sound-centre", fn=exposed_sound("b", 0, False), functions=F, bounds=B + "; every texp > 0"),
    dict(name="circ-two-planets", fn=circ_planets, functions=F, bounds=B + "; two planets, edge on"),
    dict(name="circ-two-times", fn=circ_times, functions=F, bounds=B + "; two times, edge on"),
    dict(name="ecc-instant", fn=ecc_overlap(None), functions=F, bounds=BE),
    dict(name="ecc-texp-scalar", fn=ecc_overlap("scalar"), functions=F, bounds=BE),
    dict(name="ecc-texp-vector", fn=ecc_overlap("vector"), functions=F, bounds=BE),
    dict(name="ecc-two-planets", fn=ecc_two, functions=F, bounds=BE + "; two planets"),
    dict(name="contact-contract", fn=contract, functions=F, bounds="validation of the contract at the replayed witnesses"),
]
