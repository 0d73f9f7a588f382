"""Periodogram peaks are true local maxima, strongest first."""
from checks.estim import *
from checks.estim import TRUSTED      # noqa: F401


def spectrum(c, n, falling=False, tag=""):
    """n frequencies in order, with positive power"""
    f = [c.real(tag + "f%d" % i, 0, nice=(.3 + .3 * i, .5 + .3 * i)) for i in range(n)]
    for x, y in zip(f[:-1], f[1:]):
        c.assume(x < y)
    p = [c.real(tag + "p%d" % i, 0, nice=(.2, 4.)) for i in range(n)]
    if falling:
        f = f[::-1]
    for a, b in zip(p[:-1], p[1:]):           # the logarithm is increasing
        c.axiom(c.iff(a < b, c.log(a) < c.log(b)))
        c.axiom(c.iff(a > b, c.log(a) > c.log(b)))
    return f, p


def maxima(p):
    return [i for i in range(1, len(p) - 1) if tr(p[i] > p[i - 1]) and tr(p[i] > p[i + 1])]


def parabola(c, f, p, i):
    """(frequency of the vertex, log power there, variance) of the parabola through log power around i"""
    a, b, d = f[i - 1], f[i], f[i + 1]
    la, lb, ld = c.log(p[i - 1]), c.log(p[i]), c.log(p[i + 1])
    s1 = (lb - la) / (b - a)
    s2 = (ld - lb) / (d - b)
    k = (s2 - s1) / (d - a)              # half the curvature
    v = (a + b) / 2 - s1 / (2 * k)
    top = lb + s1 * (v - b) + k * (v - b) * (v - a)
    return v, top, -1 / (2 * k)


def judge(c, f, p, peaks, count):
    """peaks: a list of dictionaries"""
    top = maxima(p)
    c.true("number of peaks", len(peaks) == min(count, len(top)))
    idx = [int(q["index"]) for q in peaks]
    c.true("local maxima", set(idx) <= set(top) and len(set(idx)) == len(idx))
    if not set(idx) <= set(top):
        return
    for a, b in zip(idx[:-1], idx[1:]):
        c.le("highest first", p[b], p[a])
    for i in top:
        if idx and i not in idx:
            c.le("none skipped", p[i], p[idx[-1]])
    for i, q in zip(idx, peaks):
        v, lp, var = parabola(c, f, p, i)
        c.eq("log_power", q["log_power"], lp, rtol=1e-6)
        c.eq("period", q["period"], 1 / v, rtol=1e-6)
        c.eq("period_uncert squared", q["period_uncert"] ** 2, var / v ** 4, rtol=1e-6)
        c.lt("period_uncert", 0, q["period_uncert"])


def listed(n, max_peaks, falling=False, pattern=None, distinct=True):
    def h(c):
        f, p = spectrum(c, n, falling)
        shape(c, p, pattern)
        if pattern is None and distinct:
            for a, b in zip(p[:-1], p[1:]):
                c.assume(a != b)
        got = run(c, est.find_peaks, arr(c, f), arr(c, p), max_peaks=max_peaks)
        c.true("a list", isinstance(got, list))
        judge(c, f, p, got, max_peaks)
    return h


def shape(c, p, pattern):
    """pattern of ups (u), downs (d) and plateaus (=) of the power"""
    for a, b, k in zip(p[:-1], p[1:], pattern or ""):
        c.assume(a < b if k == "u" else (a > b if k == "d" else a == b))


def single(n, pattern=None):
    """max_peaks=0"""
    def h(c):
        f, p = spectrum(c, n)
        shape(c, p, pattern)
        if not maxima(p):
            c.raises("no peak", ValueError, lambda: run(c, est.find_peaks, arr(c, f), arr(c, p)))
            return
        got = run(c, est.find_peaks, arr(c, f), arr(c, p))
        c.true("a dictionary", isinstance(got, dict))
        judge(c, f, p, [got], 1)
    return h


def default_is_zero(c):
    """the default is the strongest peak, max_peaks=1 the same in a list"""
    f, p = spectrum(c, 6)
    shape(c, p, "ududd")
    a = run(c, est.find_peaks, arr(c, f), arr(c, p))
    (b,) = run(c, est.find_peaks, arr(c, f), arr(c, p), 1)
    c.true("keys", sorted(a) == sorted(b) == ["index", "log_power", "period", "period_uncert"])
    for k in a:
        c.eq(k, a[k], b[k])


def untouched(c):
    """the arrays passed in are not changed"""
    f, p = spectrum(c, 5)
    shape(c, p, "udud")
    F, P = arr(c, f), arr(c, p)
    run(c, est.find_peaks, F, P, 2)
    c.eq("freq", F, f)
    c.eq("power", P, p)


FN = ["find_peaks"]
B = "all frequencies in %s order and positive powers, %s"
HARNESSES = [
    dict(name="list-4", fn=listed(4, 2, distinct=False), functions=FN, bounds=B % ("rising", "4 samples, max_peaks=2, with plateaus")),
    dict(name="list-5", fn=listed(5, 2), functions=FN, bounds=B % ("rising", "5 samples, max_peaks=2")),
    dict(name="list-6", fn=listed(6, 1), functions=FN, bounds=B % ("rising", "6 samples, max_peaks=1")),
    dict(name="list-5-falling", fn=listed(5, 1, True), functions=FN, bounds=B % ("falling", "5 samples, max_peaks=1")),
    dict(name="three-of-three", fn=listed(7, 5, pattern="ududud"), functions=FN, bounds=B % ("rising", "three peaks, max_peaks=5")),
    dict(name="two-of-three", fn=listed(7, 2, pattern="ududud"), functions=FN, bounds=B % ("rising", "three peaks, max_peaks=2")),
    dict(name="one-of-three", fn=listed(7, 1, pattern="ududud"), functions=FN, bounds=B % ("rising", "three peaks, max_peaks=1")),
    dict(name="two-of-two-falling", fn=listed(6, 2, True, pattern="ududd"), functions=FN, bounds=B % ("falling", "two peaks, max_peaks=2")),
    dict(name="plateau", fn=listed(7, 3, pattern="u=dudu"), functions=FN, bounds=B % ("rising", "a plateau and a peak")),
    dict(name="single-4", fn=single(4), functions=FN, bounds=B % ("rising", "4 samples, max_peaks=0")),
    dict(name="single-three", fn=single(7, "ududud"), functions=FN, bounds=B % ("rising", "three peaks, max_peaks=0")),
    dict(name="single-none", fn=single(5, "uuuu"), functions=FN, bounds=B % ("rising", "no peak, max_peaks=0")),
    dict(name="single-plateau", fn=single(5, "u==d"), functions=FN, bounds=B % ("rising", "no strict peak, max_peaks=0")),
    dict(name="single-2", fn=single(2), functions=FN, bounds=B % ("rising", "2 samples, max_peaks=0")),
    dict(name="default", fn=default_is_zero, functions=FN, bounds=B % ("rising", "two peaks")),
    dict(name="untouched", fn=untouched, functions=FN, bounds=B % ("rising", "5 samples")),
]
