"""Semi-amplitude estimates are the exact weighted least-squares solution."""
from checks.estim import *
from checks.estim import TRUSTED      # noqa: F401

FN = ["estimate_semi_amplitude", "_get_design_matrix"]
MS = u.m / u.s


def times(c, n, grid=None, tag="x"):
    """observation times: arbitrary, or (n/d quarters of) a grid of phases"""
    if grid is not None:
        return [c.num(q) for q in grid]
    return [c.real("%s%d" % (tag, i), nice=(1.3 * i, 1.3 * i + 1)) for i in range(n)]


def periods(c, n):
    return [c.real("P%d" % i, 0, nice=(2. + 3 * i, 4. + 3 * i)) for i in range(n)]


def phase(c, x, P, t0=None):
    return 2 * c.pi * (x if t0 is None else x - t0) / P


def columns(c, x, P, t0=None):
    """signals of the planets at the times"""
    if t0 is not None:
        return [[-c.sin(phase(c, t, p, s)) for t in x] for p, s in zip(P, t0)]
    out = []
    for p in P:
        out.append([c.sin(phase(c, t, p)) for t in x])
        out.append([c.cos(phase(c, t, p)) for t in x])
    return out


def centred(w, v):
    m = sum(a * b for a, b in zip(w, v)) / sum(w)
    return [b - m for b in v]


def det(M):
    if len(M) == 1:
        return M[0][0]
    if len(M) == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return sum((-1) ** k * M[0][k] * det([r[:k] + r[k + 1:] for r in M[1:]]) for k in range(len(M)))


def ask(c, P, x, y, unit=(None, None, None, None), yerr=None, t0=None, scalar=False):
    """the code's answer; unit: units of (periods and t0, x, y, yerr)"""
    def t(v, k):
        return quantity(c, v, k)
    kw = {}
    if yerr is not None:
        kw["yerr"] = t(yerr, unit[3])
    if t0 is not None:
        kw["t0s"] = t(t0[0] if scalar else t0, unit[0])
    return run(c, est.estimate_semi_amplitude, t(P[0] if scalar else P, unit[0]), t(x, unit[1]), t(y, unit[2]), **kw)


def solution(c, x, P, y, w, t0):
    """weighted least squares with a constant: amplitudes, from the weighted and centred normal equations"""
    B = [centred(w, v) for v in columns(c, x, P, t0)]
    Y = centred(w, y)
    k = len(B)
    M = [[sum(q * a * b for q, a, b in zip(w, B[i], B[j])) for j in range(k)] for i in range(k)]
    r = [sum(q * a * b for q, a, b in zip(w, B[i], Y)) for i in range(k)]
    d = det(M)
    c.assume(d != 0)
    return [det([[r[i] if j == q else M[i][j] for j in range(k)] for i in range(k)]) / d for q in range(k)]


def judge(c, got, amp, t0):
    if t0 is None:
        amp = [c.sqrt(a * a + b * b) for a, b in zip(amp[::2], amp[1::2])]
    c.shape("K", got, (len(amp),))
    for i, (g, a) in enumerate(zip(plain(got), amp)):
        c.eq("K%d" % i, g, a, rtol=1e-5, atol=1e-6)


def fit(npl, n, t0s=False, weights=None, grid=None, P=None, scalar=False, unit=(None,) * 4, scale=(1, 1, 1, 1)):
    """any data: the least-squares solution"""
    def h(c):
        x = times(c, n, grid)
        p = periods(c, npl) if P is None else [c.num(q) for q in P]
        t0 = [c.real("t0%d" % i, nice=(-1., 1.)) for i in range(npl)] if t0s is True else (
            [c.num(q) for q in t0s] if t0s else None)
        y = [c.real("y%d" % i, nice=(-5., 5.)) for i in range(n)]
        e = w = None
        if weights == "each":
            e = [c.real("e%d" % i, 0, nice=(.5, 2.)) for i in range(n)]
        elif weights == "one":
            e = c.real("e", 0, nice=(.5, 2.))
        if e is None:
            w = [c.num(1)] * n
        else:
            w = [1 / (s * s) for s in (e if weights == "each" else [e] * n)]
        amp = solution(c, x, p, y, w, t0)
        # the same in the units of the input
        st, sx, sy, se = scale
        give = lambda v, s: v if v is None else ([q * s for q in v] if isinstance(v, list) else v * s)     # noqa: E731
        got = ask(c, give(p, st), give(x, sx), give(y, sy), unit, give(e, se), give(t0, st), scalar)
        judge(c, got, amp, t0)
    return h


def recover(npl, n, t0s=False, weights=False, grid=None, P=None):
    """a noise-free signal: exactly its amplitudes"""
    def h(c):
        x = times(c, n, grid)
        p = periods(c, npl) if P is None else [c.num(q) for q in P]
        t0 = [c.real("t0%d" % i, nice=(-1., 1.)) for i in range(npl)] if t0s is True else (
            [c.num(q) for q in t0s] if t0s else None)
        B = columns(c, x, p, t0)
        A = [c.real("A%d" % i, nice=(-5., 5.)) for i in range(len(B))]
        C = c.real("C", nice=(-5., 5.))
        e = [c.real("e%d" % i, 0, nice=(.5, 2.)) for i in range(n)] if weights else None
        w = [1 / (s * s) for s in e] if e else [c.num(1)] * n
        y = [sum(a * b[j] for a, b in zip(A, B)) + C for j in range(n)]
        # the columns are independent
        Z = [centred(w, v) for v in B]
        c.assume(det([[sum(q * a * b for q, a, b in zip(w, Z[i], Z[j])) for j in range(len(Z))] for i in range(len(Z))]) != 0)
        judge(c, ask(c, p, x, y, yerr=e, t0=t0), A, t0)
    return h


def orbit(c):
    """the sign convention is that of the orbit's radial velocity (positive redshift) after the transit"""
    p = c.real("P0", 0, nice=(2., 4.))
    t0 = c.real("t00", nice=(-1., 1.))
    m = c.real("m_planet", 0, nice=(.001, .1))
    x = times(c, 3)
    o = KeplerianOrbit(period=c.tensor(p), t0=c.tensor(t0), m_planet=c.tensor(m), b=0.)
    rv = plain(c.ev(o.get_radial_velocity(c.tensor(x))))
    B = columns(c, x, [p], [t0])[0]
    c.assume(det([[sum((b - sum(B) / 3) ** 2 for b in B)]]) != 0)
    K = ask(c, [p], x, rv, t0=[t0])
    c.lt("positive", 0, plain(K)[0])


F_ = "all %s, %s"
HARNESSES = []


def add(name, fn, bounds, **kw):
    HARNESSES.append(dict(name=name, fn=fn, functions=FN, bounds=bounds, **kw))


Q8 = [0., .5, 1., 1.5, 2., 2.5, 3.5]          # eighths of the period 4
add("recover-1", recover(1, 3), "one planet, 3 arbitrary times, any period")
add("recover-1-t0", recover(1, 3, True), "one planet, 3 arbitrary times, any period and t0")
add("recover-1-t0-weights", recover(1, 3, True, True), "one planet, 3 arbitrary times, any period, t0 and uncertainties")
add("recover-2-t0", recover(2, 4, (0., .5), grid=[0., .5, 1.5, 3.], P=(4., 2.)), "two planets, 4 times of a grid, given t0")
add("recover-2", recover(2, 6, grid=Q8[:6], P=(4., 2.)), "two planets, 6 times of a grid")
add("fit-1", fit(1, 4, grid=Q8[:4], P=(4.,)), "one planet, 4 times of a grid, all data")
add("fit-1-weights", fit(1, 4, weights="each", grid=Q8[:4], P=(4.,)), "one planet, 4 times of a grid, all data and uncertainties")
add("fit-1-one-weight", fit(1, 4, weights="one", grid=Q8[:4], P=(4.,)), "one planet, 4 times of a grid, all data, one uncertainty")
add("fit-1-t0", fit(1, 3, True), "one planet, 3 arbitrary times, any period and t0, all data")
add("fit-1-t0-weights", fit(1, 3, True, "each"), "one planet, 3 arbitrary times, any period and t0, all data and uncertainties")
add("fit-1-scalar", fit(1, 3, True, scalar=True), "one planet given by scalars, 3 arbitrary times")
add("fit-2-t0", fit(2, 4, (0., .5), grid=[0., .5, 1.5, 3.], P=(4., 2.)), "two planets, 4 times of a grid, given t0, all data")
add("fit-2-t0-weights", fit(2, 4, (0., .5), "each", grid=[0., .5, 1.5, 3.], P=(4., 2.)),
    "two planets, 4 times of a grid, given t0, all data and uncertainties")
add("fit-2", fit(2, 6, grid=Q8[:6], P=(4., 2.)), "two planets, 6 times of a grid, all data")
add("fit-2-weights", fit(2, 6, weights="each", grid=Q8[:6], P=(4., 2.)), "two planets, 6 times of a grid, all data and uncertainties", thorough_only=True)
add("orbit", orbit, "any circular orbit seen edge on, 3 arbitrary times")
for nm, un, sc in (("hours", ("hour", None, None, None), (24, 1, 1, 1)), ("minutes", (None, "min", None, None), (1, 1440, 1, 1)),
                   ("km", (None, None, "km/s", None), (1, 1, Fraction(1, 1000), 1)), ("km-err", (None, None, None, "km/s"), (1, 1, 1, Fraction(1, 1000))),
                   ("all", ("hour", "d", "km/s", "cm/s"), (24, 1, Fraction(1, 1000), 100))):
    un = tuple(None if q is None else u.Unit(q) for q in un)
    add("units-" + nm, fit(1, 3, (.5,), "each", grid=[0., .5, 1.], P=(4.,), unit=un, scale=sc), "units (%s): all data and uncertainties" % nm)
