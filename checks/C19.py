"""TTV ephemeris, offsets and transit times stay mutually consistent."""
from checks.common import *

TRUSTED = []


def attrs(c, orb, n):
    out = {}
    for k in ("transit_times", "transit_inds", "ttvs", "all_transit_times"):
        L = getattr(orb, k)
        c.true("one entry per planet in " + k, len(L) == n)
        out[k] = [c.ev(x) for x in L]
    for k in ("t0", "ttv_period", "period"):
        out[k] = c.ev(getattr(orb, k))
        c.shape(k, out[k], (n,))
    return out


def identity(c, o, j, N):
    """transit_times = t0 + ttv_period * transit_inds + ttvs; the unobserved ones follow the linear ephemeris"""
    tt, inds, v, full = [o[k][j] for k in ("transit_times", "transit_inds", "ttvs", "all_transit_times")]
    for x, nm in ((tt, "transit_times"), (v, "ttvs"), (inds, "transit_inds")):
        c.shape(nm, x, (len(N),))
    c.true("transit_inds", [int(x) for x in inds] == list(N), "%s" % (inds,))
    for i, k in enumerate(N):
        c.eq("transit_times[%d]" % i, tt[i], o["t0"][j] + o["ttv_period"][j] * k + v[i])
    c.shape("all_transit_times", full, (max(N) + 1,))
    for k in range(max(N) + 1):
        if k in N:
            c.eq("observed[%d]" % k, full[k], tt[list(N).index(k)])
        else:
            c.eq("unobserved[%d]" % k, full[k], o["t0"][j] + o["ttv_period"][j] * k)


def kwargs(c, inds, floats=False):
    if inds is None:
        return {}
    return dict(transit_inds=[np.array(x, dtype=float if floats else int) for x in inds])


def from_ttvs(sizes, inds=None, t0=True, floats=False, ref="t0"):
    def h(c):
        n = len(sizes)
        P = [c.real("period%d" % j, 0, nice=(2., 8.)) for j in range(n)]
        T0 = [c.real("t0%d" % j, nice=(-2., 2.)) if t0 else c.num(0) for j in range(n)]
        v = [[c.real("ttv%d_%d" % (j, k), nice=(-.1, .1)) for k in range(m)] for j, m in enumerate(sizes)]
        kw = dict(t0=c.tensor(T0)) if t0 else {}
        orb = TTVOrbit(period=c.tensor(P), ttvs=[c.tensor(x) for x in v], **kw, **kwargs(c, inds, floats))
        o = attrs(c, orb, n)
        for j in range(n):
            N = list(range(sizes[j])) if inds is None else inds[j]
            c.eq("period", o["period"][j], P[j])
            c.eq("ttv_period", o["ttv_period"][j], P[j])
            c.eq("t0", o["t0"][j], T0[j])
            c.eq("ttvs", o["ttvs"][j], v[j])
            identity(c, o, j, N)
    return h


def from_times(sizes, inds=None, period=None, floats=False):
    def h(c):
        n = len(sizes)
        tt = [[c.real("tt%d_%d" % (j, k), nice=(3. * k - .2, 3. * k + .2)) for k in range(m)] for j, m in enumerate(sizes)]
        kw = {}
        if period == "period":
            P = [c.real("period%d" % j, 0, nice=(2., 8.)) for j in range(n)]
            kw["period"] = c.tensor(P)
        elif period == "delta":
            # positive least-squares period
            D = [c.real("delta%d" % j, nice=(-.2, .2)) for j in range(n)]
            kw["delta_log_period"] = c.tensor(D)
        for j in range(n):
            N = list(range(sizes[j])) if inds is None else inds[j]
            nb, yb = c.num(sum(N)) / len(N), sum(tt[j][1:], tt[j][0]) / len(N)
            slope = sum(((k - nb) * (y - yb) for k, y in zip(N, tt[j])), c.num(0)) / sum((k - nb) ** 2 for k in N)
            c.assume(slope > 0)
        orb = TTVOrbit(transit_times=[c.tensor(x) for x in tt], **kw, **kwargs(c, inds, floats))
        o = attrs(c, orb, n)
        for j in range(n):
            N = list(range(sizes[j])) if inds is None else inds[j]
            c.eq("transit_times", o["transit_times"][j], tt[j])
            identity(c, o, j, N)
            # least squares: the residuals are orthogonal to a constant and to the transit number
            v = o["ttvs"][j]
            c.eq("residuals sum to zero", sum(v[1:], v[0]), 0, atol=1e-7)
            c.eq("residuals uncorrelated with the transit number", sum((k * x for k, x in zip(N, v)), c.num(0)), 0, atol=1e-7)
            if period == "period":
                c.eq("period", o["period"][j], P[j])
            elif period == "delta":
                c.eq("period", o["period"][j], o["ttv_period"][j] * c.exp(D[j]))
            else:
                c.eq("period", o["period"][j], o["ttv_period"][j])
    return h


def errors(c):
    P = c.tensor([c.real("period", 0)])
    c.raises("neither", ValueError, lambda: TTVOrbit(period=P))


F = ["TTVOrbit.__init__"]
B = "all real transit times / offsets / periods > 0; %s"
HARNESSES = [
    dict(name="ttvs-1", fn=from_ttvs((1,)), functions=F, bounds=B % "one transit"),
    dict(name="ttvs-3", fn=from_ttvs((3,)), functions=F, bounds=B % "three transits"),
    dict(name="ttvs-no-t0", fn=from_ttvs((2,), t0=False), functions=F, bounds=B % "two transits, t0 not given"),
    dict(name="ttvs-gap", fn=from_ttvs((2,), ((0, 3),)), functions=F, bounds=B % "transits 0, 3"),
    dict(name="ttvs-gap-two", fn=from_ttvs((3, 2), ((1, 2, 5), (2, 3))), functions=F, bounds=B % "two planets, transits 1, 2, 5 and 2, 3"),
    dict(name="ttvs-float-inds", fn=from_ttvs((3,), ((0, 2, 3),), floats=True), functions=F, bounds=B % "transits 0, 2, 3 given as floats"),
    dict(name="ttvs-two", fn=from_ttvs((2, 3)), functions=F, bounds=B % "two planets, two and three transits"),
    dict(name="times-2", fn=from_times((2,)), functions=F, bounds=B % "two transits"),
    dict(name="times-3", fn=from_times((3,)), functions=F, bounds=B % "three transits"),
    dict(name="times-5", fn=from_times((5,)), functions=F, bounds=B % "five transits"),
    dict(name="times-gap", fn=from_times((3,), ((0, 2, 5),)), functions=F, bounds=B % "transits 0, 2, 5"),
    dict(name="times-late", fn=from_times((2,), ((3, 4),)), functions=F, bounds=B % "transits 3, 4"),
    dict(name="times-two", fn=from_times((2, 3)), functions=F, bounds=B % "two planets, two and three transits"),
    dict(name="times-gap-two", fn=from_times((2, 3), ((0, 2), (1, 2, 4))), functions=F, bounds=B % "two planets with gaps"),
    dict(name="times-float-inds", fn=from_times((3,), ((0, 1, 3),), floats=True), functions=F, bounds=B % "transits 0, 1, 3 given as floats"),
    dict(name="times-period", fn=from_times((3,), period="period"), functions=F, bounds=B % "three transits, separate period"),
    dict(name="times-period-two", fn=from_times((2, 3), period="period"), functions=F, bounds=B % "two planets, separate periods"),
    dict(name="times-delta", fn=from_times((3,), period="delta"), functions=F, bounds=B % "three transits, delta_log_period"),
    dict(name="times-delta-two", fn=from_times((2, 2), period="delta"), functions=F, bounds=B % "two planets, delta_log_period"),
    dict(name="errors", fn=errors, functions=F, bounds="neither ttvs nor transit_times"),
]
