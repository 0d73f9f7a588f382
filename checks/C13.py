"""Every planet's column equals the single-planet result; times do not influence each other; integers work like floats."""
from checks.common import *

TRUSTED = [KEPLER, "quad_solution_vector contract: depends only on the (b, r) of its own element (exoplanet_core, compiled)"]

BODIES = ("relative", "planet", "star")
KINDS = ("position", "velocity", "acceleration")
ATTRS = ("a", "period", "rho_star", "m_planet", "m_total", "n", "a_star", "a_planet", "t0", "t_periastron", "K0",
         "cos_incl", "sin_incl", "b", "incl", "ecc", "omega", "Omega", "dcosidb", "M0", "tref")
SHARED = ("r_star", "m_star")


def planets(c, n, ecc, tilt, Om, par, ref="t0", ttv=None):
    """per-planet keyword arguments and the shared ones"""
    shared = {}
    ps = []
    if par == "stellar":
        shared["m_star"] = c.real("m_star", 0, nice=(.5, 2.))
        shared["r_star"] = c.real("r_star", 0, nice=(.5, 2.))
    elif par == "density":
        shared["rho_star"] = c.real("rho_star", 0, nice=(.5, 2.))
        shared["r_star"] = c.real("r_star", 0, nice=(.5, 2.))
    else:
        shared["r_star"] = c.real("r_star", 0, nice=(.5, 2.))
    for j in range(n):
        p = {}
        if ttv is None:
            p["period"] = c.real("period%d" % j, 0, nice=(2., 8.))
            p[ref] = c.real("%s%d" % (ref, j), nice=(-2., 2.))
        if par == "a":
            p["a"] = c.real("a%d" % j, 0, nice=(4., 20.))
        p["m_planet"] = c.real("m_planet%d" % j, 0, strict=False, nice=(.01, .3))
        if par == "a" and ttv is None:
            c.assume(4 * c.pi ** 2 * p["a"] ** 3 / (G(c) * p["period"] ** 2) > p["m_planet"])
        if ecc:
            p["ecc"] = c.real("ecc%d" % j, 0, 1, nice=(.05, .7))
            p["omega"] = c.angle("omega%d" % j)
        if tilt == "incl":
            p["incl"] = c.angle("incl%d" % j, 0, 1)
            c.assume(c.sin(p["incl"]) > 0)
        elif tilt == "b":
            p["b"] = c.real("b%d" % j, 0, strict=False, nice=(0., .9))
            if par == "a":
                fac = (1 - p["ecc"] ** 2) / (1 + p["ecc"] * c.sin(p["omega"])) if ecc else 1
                c.assume(p["b"] * shared["r_star"] < p["a"] * fac)
        if Om:
            p["Omega"] = c.angle("Omega%d" % j)
        ps.append(p)
    return shared, ps


def build(c, shared, ps, cls=KeplerianOrbit, scalar=False):
    kw = {k: c.tensor(v) for k, v in shared.items()}
    for k in ps[0]:
        v = [p[k] for p in ps]
        kw[k] = c.tensor(v[0] if scalar else v)
    return cls(**kw)


def same(c, name, got, want):
    c.shape(name + " shape", got, np.shape(want))
    for k, (g, w) in enumerate(zip(np.asarray(got, dtype=object).ravel(), np.asarray(want, dtype=object).ravel())):
        c.eq("%s[%d]" % (name, k), g, w)


def cols(x, m, n):
    return np.reshape(np.asarray(x, dtype=object), (m, n))


def state(n=2, m=1, kinds=KINDS, attrs=True, **opts):
    def h(c):
        shared, ps = planets(c, n, **opts)
        orb = build(c, shared, ps)
        ts = [c.real("t%d" % i, nice=(-4., 9.)) for i in range(m)]
        T = c.tensor(ts)
        full = {}
        for k in kinds:
            for b in BODIES:
                full[b, k] = c.ev(list(getattr(orb, "get_%s_%s" % (b, k))(T)))
                for v in full[b, k]:
                    c.shape("%s %s" % (b, k), v, tuple(x for x in (m, n) if x > 1))
        rv = c.ev(orb.get_radial_velocity(T)) if "velocity" in kinds else None
        at = {a: c.ev(getattr(orb, a)) for a in ATTRS + SHARED if attrs and getattr(orb, a, None) is not None}
        for j in range(n):
            one = build(c, shared, [ps[j]])
            sc = build(c, shared, [ps[j]], scalar=True)
            for a in at:
                w = c.ev(getattr(one, a))
                if np.size(at[a]) == 1:
                    c.eq("%s of planet %d" % (a, j), at[a].item(), w.item())
                else:
                    c.eq("%s of planet %d" % (a, j), at[a].ravel()[j], w.item())
                c.eq("%s of scalar planet %d" % (a, j), c.ev(getattr(sc, a)).item(), w.item())
            for i in range(m):
                for o, tag in ((one, "single"), (sc, "scalar")):
                    if tag == "scalar" and i:
                        continue
                    t1 = c.tensor([ts[i]]) if tag == "single" else c.tensor(ts[i])
                    for (b, k), v in full.items():
                        w = c.ev(list(getattr(o, "get_%s_%s" % (b, k))(t1)))
                        for d in range(3):
                            c.eq("%s %s %s.%s[%d,%d]" % (tag, b, k, "xyz"[d], i, j), cols(v[d], m, n)[i, j],
                                 w[d].item())
                    if rv is not None:
                        c.eq("%s rv[%d,%d]" % (tag, i, j), cols(rv, m, n)[i, j], c.ev(o.get_radial_velocity(t1)).item())
    return h


def rv_K(ecc, m):
    def h(c):
        shared, ps = planets(c, 2, ecc=ecc, tilt=None, Om=False, par="a")
        K = [c.real("K%d" % j, nice=(1., 9.)) for j in range(2)]
        orb = build(c, shared, ps)
        ts = [c.real("t%d" % i, nice=(-4., 9.)) for i in range(m)]
        full = c.ev(orb.get_radial_velocity(c.tensor(ts), K=c.tensor(K)))
        c.shape("shape", full, (m, 2) if m > 1 else (2,))
        for j in range(2):
            o = build(c, shared, [ps[j]])
            for i in range(m):
                c.eq("rv[%d,%d]" % (i, j), cols(full, m, 2)[i, j],
                     c.ev(o.get_radial_velocity(c.tensor([ts[i]]), K=c.tensor([K[j]]))).item())
    return h


def light_curve(texp, m=1, n=2):
    """each column only depends on its own planet's coordinates and radius, each row on its own time"""
    def h(c):
        orb = LineOrbit(c, n)
        r = [c.real("r%d" % j, 0, nice=(.05, .3)) for j in range(n)]
        u1, u2 = c.real("u1", nice=(.1, .5)), c.real("u2", nice=(.1, .3))
        c.assume(1 - u1 / 3 - u2 / 6 > 0)
        c.option("quad_split", False)
        ts = [c.real("t%d" % i, nice=(-1., 1.)) for i in range(m)]
        kw = dict(use_in_transit=False)
        if texp:
            te = [c.real("texp%d" % i, 0, nice=(.01, .2)) for i in range(m)]
            kw.update(oversample=3, order=texp - 1)
        ld = xo.LimbDarkLightCurve(c.tensor(u1), c.tensor(u2))
        full = c.ev(ld.get_light_curve(orbit=orb, r=c.tensor(r), t=c.tensor(ts),
                                       **(dict(texp=c.tensor(te), **kw) if texp else kw)))
        c.shape("shape", full, (m, n))
        T = orb.T
        for j in range(n):
            orb.T = [c.tensor(v) for v in ([orb.x0[j]], [orb.x1[j]], [orb.y0[j]], [orb.z0[j]], [orb.z1[j]])]
            for i in range(m):
                if texp:
                    kw["texp"] = c.tensor([te[i]])
                one = c.ev(ld.get_light_curve(orbit=orb, r=c.tensor([r[j]]), t=c.tensor([ts[i]]), **kw))
                c.eq("lc[%d,%d]" % (i, j), full[i, j], one.item())
            orb.T = T
    return h


def ttvs(m, ecc=False, n=2):
    def h(c):
        shared, ps = planets(c, n, ecc=ecc, tilt=None, Om=False, par="stellar")
        v = [[c.real("ttv%d_%d" % (j, k), nice=(-.1, .1)) for k in range(2 - j)] for j in range(n)]
        for p, x in zip(ps, v):
            for y in x:
                c.assume(y < p["period"] / 8)
                c.assume(-y < p["period"] / 8)
        orb = build(c, shared, ps, lambda **k: TTVOrbit(ttvs=[c.tensor(x) for x in v], **k))
        ts = [c.real("t%d" % i, nice=(-4., 9.)) for i in range(m)]
        full = c.ev(list(orb.get_relative_position(c.tensor(ts))))
        for j in range(n):
            o = build(c, shared, [ps[j]], lambda **k: TTVOrbit(ttvs=[c.tensor(v[j])], **k))
            same(c, "transit times %d" % j, c.ev(orb.transit_times[j]), c.ev(o.transit_times[0]))
            for i in range(m):
                w = c.ev(list(o.get_relative_position(c.tensor([ts[i]]))))
                for d in range(3):
                    c.eq("ttv %s[%d,%d]" % ("xyz"[d], i, j), cols(full[d], m, n)[i, j], w[d].item())
    return h


def array(shape, n=2, what="state", **opts):
    """times in an array of any shape: one more axis for the planets, and every element has the value of its own time"""
    def h(c):
        shared, ps = planets(c, n, **opts)
        names = np.array(["t_" + "".join(map(str, i)) for i in np.ndindex(*shape)])
        flat = [c.real(x, nice=(-4., 9.)) for x in names]
        if what == "ttv":
            v = [c.real("ttv%d" % j, nice=(-.1, .1)) for j in range(n)]
            for p, x in zip(ps, v):
                c.assume(x < p["period"] / 8)
                c.assume(-x < p["period"] / 8)
                for y in flat:
                    c.assume(y - p["t0"] < p["period"] / 4)
                    c.assume(p["t0"] - y < p["period"] / 4)
            full_orb = build(c, shared, ps, lambda **k: TTVOrbit(ttvs=[c.tensor([x]) for x in v], **k))
            one = [build(c, shared, [ps[j]], lambda **k: TTVOrbit(ttvs=[c.tensor([v[j]])], **k)) for j in range(n)]
        else:
            full_orb = build(c, shared, ps)
            one = [build(c, shared, [ps[j]]) for j in range(n)]
        plx = c.tensor(c.real("parallax", 0, nice=(.01, .2)))

        def results(o, T):
            out = {}
            if what == "angles":
                for k, x in enumerate(o.get_relative_angles(T, parallax=plx)):
                    out["rho theta".split()[k]] = x
                return out
            for b in (("relative",) if what == "ttv" else BODIES):
                for k in (("position",) if what == "ttv" else KINDS):
                    for d, x in zip("xyz", getattr(o, "get_%s_%s" % (b, k))(T)):
                        out["%s %s.%s" % (b, k, d)] = x
                for d, x in zip("xyz", getattr(o, "get_%s_position" % b)(T, parallax=plx)):
                    out["%s position.%s with parallax" % (b, d)] = x
            out["rv"] = o.get_radial_velocity(T)
            return out
        T = c.tensor(np.reshape(np.array(flat, dtype=object), shape).tolist())
        keys, vals = zip(*results(full_orb, T).items())
        full = [np.asarray(v, dtype=object) for v in c.ev(list(vals))]
        for k, v in zip(keys, full):
            c.shape(k, v, tuple(x for x in shape + (n,) if x > 1))
        full = [v.reshape(shape + (n,)) for v in full]
        for i, idx in enumerate(np.ndindex(*shape)):
            for j in range(n):
                w = c.ev(list(results(one[j], c.tensor([flat[i]])).values()))
                for k, a, b in zip(keys, full, w):
                    c.eq("%s%s" % (k, list(idx + (j,))), a[idx + (j,)], b.item())
    return h


def simple_array(shape, n=2):
    def h(c):
        rs = c.real("r_star", 0, nice=(.5, 1.5))
        P = [c.real("period%d" % j, 0, nice=(2., 8.)) for j in range(n)]
        D = [c.real("duration%d" % j, 0, nice=(.05, .4)) for j in range(n)]
        t0 = [c.real("t0%d" % j, nice=(-1., 1.)) for j in range(n)]
        ts = [c.real("t_" + "".join(map(str, i)), nice=(-1., 1.)) for i in np.ndindex(*shape)]
        for x in ts:
            for j in range(n):
                c.assume(x - t0[j] < D[j] / 4)
                c.assume(t0[j] - x < D[j] / 4)
                c.assume(D[j] < P[j])
        mk = lambda s: SimpleTransitOrbit(period=c.tensor(P[s]), duration=c.tensor(D[s]), t0=c.tensor(t0[s]),   # noqa: E731
                                          b=c.tensor([c.num(0)] * len(P[s])), r_star=c.tensor(rs),
                                          ror=c.tensor([c.num(.125)] * len(P[s])))
        T = c.tensor(np.reshape(np.array(ts, dtype=object), shape).tolist())
        full = [np.asarray(v, dtype=object) for v in c.ev(list(mk(slice(None)).get_relative_position(T)))]
        for d in range(3):
            c.shape("xyz"[d], full[d], tuple(x for x in shape + (n,) if x > 1))
        full = [v.reshape(shape + (n,)) for v in full]
        for j in range(n):
            o = mk(slice(j, j + 1))
            for i, idx in enumerate(np.ndindex(*shape)):
                w = c.ev(list(o.get_relative_position(c.tensor([ts[i]]))))
                for d in range(3):
                    c.eq("simple %s%s" % ("xyz"[d], list(idx + (j,))), full[d][idx + (j,)], w[d].item())
    return h


def simple(n, m):
    def h(c):
        rs = c.real("r_star", 0, nice=(.5, 1.5))
        P = [c.real("period%d" % j, 0, nice=(2., 8.)) for j in range(n)]
        D = [c.real("duration%d" % j, 0, nice=(.05, .4)) for j in range(n)]
        t0 = [c.real("t0%d" % j, nice=(-2., 2.)) for j in range(n)]
        b = [c.real("b%d" % j, 0, strict=False, nice=(0., .9)) for j in range(n)]
        r = [c.real("ror%d" % j, 0, nice=(.05, .3)) for j in range(n)]
        for j in range(n):
            c.assume(b[j] < 1 + r[j])
        mk = lambda s: SimpleTransitOrbit(period=c.tensor(P[s]), duration=c.tensor(D[s]), t0=c.tensor(t0[s]),   # noqa: E731
                                          b=c.tensor(b[s]), r_star=c.tensor(rs), ror=c.tensor(r[s]))
        ts = [c.real("t%d" % i, nice=(-4., 9.)) for i in range(m)]
        # all but the first planet and time: within half a period of t0
        for i in range(m):
            for j in range(n):
                if i + j:
                    c.assume(ts[i] - t0[j] < P[j] / 2)
                    c.assume(t0[j] - ts[i] < P[j] / 2)
        full = c.ev(list(mk(slice(None)).get_relative_position(c.tensor(ts))))
        for j in range(n):
            o = mk(slice(j, j + 1))
            for i in range(m):
                w = c.ev(list(o.get_relative_position(c.tensor([ts[i]]))))
                for d in range(3):
                    c.eq("simple %s[%d,%d]" % ("xyz"[d], i, j), cols(full[d], m, n)[i, j], w[d].item())
    return h


def integers(kind):
    """integer-typed parameters and times give the same orbit as the same values typed as floats"""
    def h(c):
        P, T0, t = [c.int(x, 1 if x == "period" else -5, 9 if x == "period" else 5, nice=(1, 5))
                    for x in ("period", "t0", "t")]
        out = []
        for dt in ("int64", "float64"):
            P_, T_, t_ = [c.tensor([x], dtype=dt) for x in (P, T0, t)]
            if kind == "simple":
                o = SimpleTransitOrbit(period=P_, duration=c.tensor([.2]), t0=T_, b=c.tensor([0], dtype=dt),
                                       r_star=c.tensor(1, dtype=dt), ror=c.tensor([.125]))
                vals = [c.ev(list(o.get_relative_position(t_)))]
            elif kind == "ttv":
                o = TTVOrbit(period=P_, t0=T_, ttvs=[c.tensor([.125, 0.])])
                vals = [c.ev(list(o.get_relative_position(t_)))]
            else:
                o = KeplerianOrbit(period=P_, t0=T_, m_planet=c.tensor([1], dtype=dt), m_star=c.tensor(2, dtype=dt),
                                   r_star=c.tensor(1, dtype=dt), b=c.tensor([0], dtype=dt))
                vals = [c.ev(list(getattr(o, "get_%s_%s" % (b, k))(t_))) for b in BODIES for k in KINDS]
                vals.append([c.ev(o.get_radial_velocity(t_))])
            out.append(vals)
        for a, b in zip(*out):
            for x, y in zip(a, b):
                same(c, "integer input", x, y)
    return h


F = ORBIT_FNS + ["get_{relative,planet,star}_{position,velocity,acceleration}", "get_radial_velocity", "TTVOrbit",
                 "SimpleTransitOrbit", "LimbDarkLightCurve.get_light_curve"]
B = "two planets; all real parameters in the stated domain; %s"
HARNESSES = [
    dict(name="ecc-a", fn=state(ecc=True, tilt="incl", Om=True, par="a"), functions=F, bounds=B % "one time"),
    dict(name="ecc-stellar", fn=state(ecc=True, tilt="incl", Om=True, par="stellar", ref="t_periastron"), functions=F, bounds=B % "one time"),
    dict(name="ecc-density-b", fn=state(ecc=True, tilt=None, Om=False, par="density"), functions=F, bounds=B % "one time"),
    dict(name="circ-a-b", fn=state(ecc=False, tilt="b", Om=False, par="a"), functions=F, bounds=B % "one time"),
    dict(name="circ-stellar", fn=state(ecc=False, tilt="incl", Om=True, par="stellar"), functions=F, bounds=B % "one time"),
    dict(name="circ-two-times", fn=state(m=2, ecc=False, tilt="incl", Om=True, par="a", attrs=False), functions=F, bounds=B % "two times"),
    dict(name="ecc-two-times", fn=state(m=2, ecc=True, tilt="incl", Om=True, par="a", attrs=False), functions=F, bounds=B % "two times"),
    dict(name="three-planets", fn=state(n=3, m=3, ecc=True, tilt=None, Om=False, par="stellar", kinds=("velocity",)), functions=F, bounds="three planets, three times"),
    dict(name="rv-K-ecc", fn=rv_K(True, 2), functions=F, bounds=B % "two times"),
    dict(name="rv-K-circ", fn=rv_K(False, 1), functions=F, bounds=B % "one time"),
    dict(name="lc", fn=light_curve(0, m=2), functions=F, bounds="two planets, two times, any linear motion"),
    dict(name="lc-three", fn=light_curve(0, m=1, n=3), functions=F, bounds="three planets, one time, any linear motion"),
    dict(name="lc-texp", fn=light_curve(1, m=2), functions=F, bounds="two planets, two times with their own exposures of three points, any linear motion"),
    dict(name="ttv-1", fn=ttvs(1), functions=F, bounds=B % "one time; two and one labelled transits"),
    dict(name="simple", fn=simple(2, 1), functions=F, bounds=B % "one time"),
    dict(name="simple-times", fn=simple(1, 2), functions=F, bounds="one planet, two times"),
    dict(name="circ-times-2x2", fn=array((2, 2), ecc=False, tilt="incl", Om=True, par="a"), functions=F, bounds=B % "2 x 2 times"),
    dict(name="ecc-times-2x2", fn=array((2, 2), ecc=True, tilt="incl", Om=True, par="a"), functions=F, bounds=B % "2 x 2 times"),
    dict(name="ecc-times-1x3x2", fn=array((1, 3, 2), ecc=True, tilt=None, Om=False, par="stellar"), functions=F, bounds=B % "1 x 3 x 2 times", thorough_only=True),
    dict(name="circ-times-2x3-one", fn=array((2, 3), n=1, ecc=False, tilt="incl", Om=False, par="stellar"), functions=F, bounds="one planet, 2 x 3 times"),
    dict(name="angles-times-2x2", fn=array((2, 2), n=1, what="angles", ecc=False, tilt=None, Om=False, par="a"), functions=F, bounds="one planet, 2 x 2 times"),
    dict(name="ttv-times-2x2", fn=array((2, 2), what="ttv", ecc=False, tilt=None, Om=False, par="stellar"), functions=F, bounds=B % "2 x 2 times; one labelled transit each, within a quarter of a period"),
    dict(name="simple-times-2x2", fn=simple_array((2, 2), n=1), functions=F, bounds="one planet, 2 x 2 times inside half of the transits"),
    dict(name="simple-times-1x2", fn=simple_array((1, 2)), functions=F, bounds=B % "1 x 2 times inside half of the transits"),
    dict(name="integers-kepler", fn=integers("kepler"), functions=F, bounds="period 1..9, t0 and t in -5..5"),
    dict(name="integers-simple", fn=integers("simple"), functions=F, bounds="period 1..9, t0 and t in -5..5"),
    dict(name="integers-ttv", fn=integers("ttv"), functions=F, bounds="period 1..9, t0 and t in -5..5"),
]
