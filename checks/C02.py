"""At t0 the planet transits at impact parameter b, in front of the star."""
from checks.common import *

TRUSTED = [KEPLER]


def orbit(c, ecc, tilt, ref="t0", Om=False, wform="omega", masses=False):
    P = c.real("period", 0, nice=(1., 8.))
    a = c.real("a", 0, nice=(3., 20.))
    rs = c.real("r_star", 0, nice=(.5, 2.))
    kw = dict(period=c.tensor(P), a=c.tensor(a), r_star=c.tensor(rs))
    e, sw, cw = c.num(0), c.num(1), c.num(0)
    if ecc:
        e = c.real("ecc", 0, 1, strict=False, nice=(.05, .8))
        c.assume(e < 1)
        w = c.angle("omega", -1, 1) if wform == "omega-range" else c.angle("omega")
        sw, cw = c.sin(w), c.cos(w)
        kw["ecc"] = c.tensor(e)
        if wform == "omega" or wform == "omega-range":
            kw["omega"] = c.tensor(w)
        else:
            kw.update(sin_omega=c.tensor(sw), cos_omega=c.tensor(cw))
    if Om:
        O = c.angle("Omega")
        kw["Omega"] = c.tensor(O)
        O = (c.cos(O), c.sin(O))
    else:
        O = (c.num(1), c.num(0))
    tr = c.real("tref", nice=(-3., 3.))
    if ref:
        kw[ref] = c.tensor(tr)
    else:
        tr = c.num(0)
    fac = (1 - e * e) / (1 + e * sw)
    b = i = None
    if tilt == "b":
        b = c.real("b", nice=(-.9, .9))
        c.assume(b * rs < a * fac)
        c.assume(b * rs > -a * fac)
        kw["b"] = c.tensor(b)
        ci = b * rs / (a * fac)
    elif tilt == "incl":
        i = c.angle("incl", 0, 1)
        c.assume(c.sin(i) > 0)
        kw["incl"] = c.tensor(i)
        ci = c.cos(i)
        b = ci * a / rs * fac
    else:
        ci = c.num(0)
        b = c.num(0)
    orb = KeplerianOrbit(**kw)
    return orb, dict(P=P, a=a, rs=rs, e=e, sw=sw, cw=cw, O=O, b=b, ci=ci, tr=tr, fac=fac, i=i)


def transit(ecc, tilt, ref="t0", Om=False, wform="omega", k=False):
    def h(c):
        orb, s = orbit(c, ecc, tilt, ref, Om, wform)
        t0 = c.ev(orb.t0).item()
        if ref == "t0" or ref is None:
            c.eq("t0", t0, s["tr"])
            t = s["tr"]
        else:
            t = t0
        if k:
            t = t + c.int("k", nice=(-9, 9)) * s["P"]
        x, y, z = [v.item() for v in c.ev(list(orb.get_relative_position(c.tensor(t))))]
        cO, sO = s["O"]
        # along the line of nodes the displacement vanishes; perpendicular to it, |b| r_star
        c.eq("along nodes", cO * x + sO * y, 0)
        c.eq("across nodes", -sO * x + cO * y, -s["b"] * s["rs"])
        c.eq("distance", x * x + y * y, (s["b"] * s["rs"]) ** 2)
        c.true("in front", z > 0)
        c.eq("separation", x * x + y * y + z * z, (s["a"] * s["fac"]) ** 2)
    return h


def params(ecc, tilt, Om=False, wform="omega"):
    def h(c):
        orb, s = orbit(c, ecc, tilt, "t0", Om, wform)
        b, ci, si, i = [v.item() for v in c.ev([orb.b, orb.cos_incl, orb.sin_incl, orb.incl])]
        c.eq("cos_incl", ci, s["ci"])
        c.eq("b", b, s["b"])
        c.eq("b(cos i)", b, s["a"] / s["rs"] * ci * s["fac"])
        c.eq("incl", c.cos(i), ci)
        c.eq("sin_incl", si, c.sqrt(1 - ci * ci))
        if s["i"] is not None:
            c.eq("echo incl", i, s["i"])
        if ecc:
            c.eq("cos_omega", c.ev(orb.cos_omega).item(), s["cw"])
            c.eq("sin_omega", c.ev(orb.sin_omega).item(), s["sw"])
            om = c.ev(orb.omega).item()
            c.eq("omega", c.cos(om), s["cw"])
            c.eq("omega.", c.sin(om), s["sw"])
    return h


def roundtrip(ecc):
    """building from b and from the resulting inclination, from t0 and from the resulting t_periastron"""
    def h(c):
        orb, s = orbit(c, ecc, "b", "t0")
        inc_, tp = [v.item() for v in c.ev([orb.incl, orb.t_periastron])]
        kw = dict(period=c.tensor(s["P"]), a=c.tensor(s["a"]), r_star=c.tensor(s["rs"]))
        if ecc:
            kw.update(ecc=c.tensor(s["e"]), sin_omega=c.tensor(s["sw"]), cos_omega=c.tensor(s["cw"]))
        o2 = KeplerianOrbit(incl=c.tensor(inc_), t_periastron=c.tensor(tp), **kw)
        b2, t02 = [v.item() for v in c.ev([o2.b, o2.t0])]
        c.eq("b", b2, s["b"])
        c.eq("t0", t02, s["tr"])
        # the periastron passage: the star-planet distance is a (1 - e) and the radial speed vanishes there
        x, y, z = [v.item() for v in c.ev(list(orb.get_relative_position(c.tensor(tp))))]
        c.eq("periastron distance", x * x + y * y + z * z, (s["a"] * (1 - s["e"])) ** 2)
        # ... and the argument of periastron measures the angle from the node
        if ecc:
            c.eq("node", x, -s["a"] * (1 - s["e"]) * s["cw"])
        c.true("latest", c.all(s["tr"] - tp <= s["P"], s["tr"] - tp >= -s["P"]))
    return h


def reject(c):
    T = lambda n, **k: c.tensor(c.real(n, 0, .9, **k))
    P = T("P")
    cases = {
        "b+incl": dict(b=T("b"), incl=T("i")),
        "t0+t_periastron": dict(t0=T("t0"), t_periastron=T("tp")),
        "ecc without omega": dict(ecc=T("e")),
        "ecc with sin_omega only": dict(ecc=T("e1"), sin_omega=T("sw")),
        "ecc with cos_omega only": dict(ecc=T("e2"), cos_omega=T("cw")),
        "omega and sin/cos": dict(ecc=T("e3"), omega=T("w3"), sin_omega=T("sw3"), cos_omega=T("cw3")),
        "b+duration ecc": dict(ecc=T("e4"), omega=T("w4"), b=T("b4"), duration=T("d4")),
        "incl+duration ecc": dict(ecc=T("e5"), omega=T("w5"), incl=T("i5"), duration=T("d5")),
    }
    for n, kw in cases.items():
        c.raises(n, ValueError, lambda: KeplerianOrbit(period=P, **kw))


F = ORBIT_FNS + ["_get_position", "get_relative_position"]
B = "all reals: period, a, r_star > 0, 0<=ecc<1, every omega, |b| below the separation at conjunction / 0<incl<pi"
HARNESSES = [
    dict(name="transit-ecc-b", fn=transit(True, "b"), functions=F, bounds=B),
    dict(name="transit-ecc-b-Omega", fn=transit(True, "b", Om=True), functions=F, bounds=B + ", Omega"),
    dict(name="transit-ecc-incl", fn=transit(True, "incl"), functions=F, bounds=B),
    dict(name="transit-ecc-incl-Omega-tp", fn=transit(True, "incl", "t_periastron", True), functions=F, bounds=B + ", Omega"),
    dict(name="transit-ecc-sincos", fn=transit(True, "b", wform="sincos"), functions=F, bounds=B),
    dict(name="transit-ecc-edge-on", fn=transit(True, None), functions=F, bounds=B),
    dict(name="transit-ecc-default-t0", fn=transit(True, "b", ref=None, k=True), functions=F, bounds=B + ", every integer k"),
    dict(name="transit-circ-b", fn=transit(False, "b", Om=True), functions=F, bounds=B),
    dict(name="transit-circ-incl-tp", fn=transit(False, "incl", "t_periastron"), functions=F, bounds=B),
    dict(name="transit-circ-edge-on", fn=transit(False, None, k=True), functions=F, bounds=B + ", every integer k"),
    dict(name="params-ecc-b", fn=params(True, "b"), functions=F, bounds=B),
    dict(name="params-ecc-incl", fn=params(True, "incl"), functions=F, bounds=B),
    dict(name="params-ecc-incl-sincos", fn=params(True, "incl", wform="sincos"), functions=F, bounds=B),
    dict(name="params-circ-b", fn=params(False, "b"), functions=F, bounds=B),
    dict(name="params-circ-incl", fn=params(False, "incl"), functions=F, bounds=B),
    dict(name="params-circ-none", fn=params(False, None), functions=F, bounds=B),
    dict(name="roundtrip-ecc", fn=roundtrip(True), functions=F, bounds=B),
    dict(name="roundtrip-circ", fn=roundtrip(False), functions=F, bounds=B),
    dict(name="reject", fn=reject, functions=F, bounds="every contradictory combination"),
]
