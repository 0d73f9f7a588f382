"""Autocorrelation periods are admissible local maxima."""
import inspect

from scipy.ndimage import gaussian_filter as _gaussian

from checks.estim import *
from checks.estim import NP as NP0
from checks.estim import TRUSTED as T0

TRUSTED = T0 + ["numpy.fft is modelled by its algebra: the transform turns circular convolutions into products and is inverted by ifft",
                "scipy's gaussian_filter is replaced by one that returns an arbitrary sequence (its arguments are judged)"]


class Image:
    """the Fourier transform of a real sequence, represented by the sequence"""
    _symq = True

    def __init__(self, t, real=False):
        self.t = list(t)
        self.real_valued = real

    def conjugate(self):
        return Image([self.t[-i % len(self.t)] for i in range(len(self.t))], self.real_valued)
    conj = conjugate

    def __mul__(self, o):
        n = len(self.t)
        return Image([sum(self.t[j] * o.t[(i - j) % n] for j in range(n)) for i in range(n)])
    __rmul__ = __mul__

    def __abs__(self):
        return Size(self)

    def __pow__(self, k):
        if k != 2:
            return NotImplemented
        return self * self

    def __len__(self):
        return len(self.t)

    def __array_ufunc__(self, ufunc, method, *a, **k):
        n = ufunc.__name__
        if method == "__call__" and not k:
            if n == "conjugate":
                return a[0].conjugate()
            if n == "absolute":
                return abs(a[0])
            if n == "multiply" and all(isinstance(q, Image) for q in a):
                return a[0] * a[1]
        return NotImplemented


class Size:
    """absolute values"""
    _symq = True

    def __init__(self, of):
        self.of = of

    def __pow__(self, k):
        return self.of * self.of.conjugate() if k == 2 else NotImplemented

    def __mul__(self, o):
        return self ** 2 if o is self else NotImplemented

    def __array_ufunc__(self, ufunc, method, *a, **k):
        if ufunc.__name__ == "square":
            return self ** 2
        return NotImplemented


class Fourier:
    @staticmethod
    def fft(x, n=None, **kw):
        x = list(x)
        n = len(x) if n is None else n
        return Image((x + [0] * n)[:n])

    @staticmethod
    def ifft(f, n=None, **kw):
        assert n is None or n == len(f)
        return symnp.sarr(f.t)
    rfft = fft

    @staticmethod
    def irfft(f, n=None, **kw):
        assert n == len(f)
        return symnp.sarr(f.t)


def call(c, fn, *a, **kw):
    if c.mode == "num":
        return run(c, fn, *a, **kw)
    repl = dict(kw.pop("_repl", {}))
    with symnp.patched(est, np=NP0(fft=Fourier()), u=Units(), **repl):
        return fn(*a, **kw)


def spec(x):
    """normalised autocorrelation of a series, no wrap-around"""
    n = len(x)
    m = sum(x) / n
    d = [v - m for v in x]
    r = [sum(d[i] * d[i + k] for i in range(n - k)) for k in range(n)]
    return r


def function(n):
    def h(c):
        x = [c.real("x%d" % i, nice=(-3., 3.)) for i in range(n)]
        r = spec(x)
        c.assume(r[0] > 0)
        got = call(c, est.autocorr_function, arr(c, x))
        c.shape("acf", got, (n,))
        for k, g in enumerate(plain(got)):
            c.eq("lag%d" % k, g, r[k] / r[0], atol=1e-6)
        c.eq("zero lag", plain(got)[0], 1)
    return h


def power_of_two(top):
    def h(c):
        n = c.int("n", 1, top)
        r = est.next_pow_two(n)
        r = int(r)
        c.true("a power of two", r >= 1 and r & (r - 1) == 0)
        c.le("not smaller", n, r)
        if r > 1:
            c.lt("the next one", r, 2 * n)
    return h


def dims(c):
    x = [c.real("x%d" % i) for i in range(4)]
    v = np.asarray(x, dtype=float).reshape(2, 2) if c.mode == "num" else symnp.sarr(x).reshape(2, 2)
    c.raises("two dimensions", ValueError, lambda: call(c, est.autocorr_function, v))


def maxima(a):
    return [i for i in range(1, len(a) - 1) if tr(a[i] > a[i - 1]) and tr(a[i] > a[i + 1])]


def estimator(x, pattern=None, limits="nx", oversample=None, smooth=None, data=None, start=0, positional=False):
    """any smoothed autocorrelation function (with a pattern of ups and downs), any limits"""
    def h(c):
        X = [c.num(Fraction(q) + start) for q in x]
        step = min(Fraction(b) - Fraction(a) for a, b in zip(x[:-1], x[1:]))
        dx = step / Fraction(2 if oversample is None else oversample)
        span = Fraction(x[-1]) - Fraction(x[0])
        n = -(-span // dx)
        y = [c.real("y%d" % i, nice=(-3., 3.)) for i in range(len(x))] if data is None else [c.num(Fraction(q)) for q in data]
        A = [c.real("a%d" % i, nice=(-1., 1.)) for i in range(n)]
        for a, b, k in zip(A[:-1], A[1:], pattern or ""):
            c.assume(a < b if k == "u" else (a > b if k == "d" else a == b))
        kw = {}
        low, high = c.num(step), c.num(span)
        if "n" in limits:
            low = kw["min_period"] = c.real("min_period", 0, nice=(.3, 3.))
        if "x" in limits:
            high = kw["max_period"] = c.real("max_period", 0, nice=(.3, 5.))
        if oversample is not None:
            kw["oversample"] = oversample
        s = 2
        if smooth:
            s = kw["smooth"] = c.real("smooth", 0, nice=(.5, 3.))
        # the interpolated series
        at = [Fraction(x[0]) + i * dx for i in range(n)]

        def interp(t):
            for i in range(len(x) - 1):
                a, b = Fraction(x[i]), Fraction(x[i + 1])
                if a <= t <= b:
                    w = (t - a) / (b - a)
                    return y[i] * (1 - w) + y[i + 1] * w
        r = spec([interp(t) for t in at])
        c.assume(r[0] > 0)
        seen = []

        def filt(*a, **k):
            b = inspect.signature(_gaussian).bind(*a, **k)
            b.apply_defaults()
            seen.append(b.arguments)
            return arr(c, A)
        got = call(c, est.autocorr_estimator, arr(c, X), arr(c, y), _repl=dict(gaussian_filter=filt), **kw)
        c.true("smoothed once", len(seen) == 1 and seen[0]["order"] == 0 and seen[0]["mode"] == "reflect")
        c.shape("acf", seen[0]["input"], (n,))
        for k, g in enumerate(plain(seen[0]["input"])):
            c.eq("autocorrelation%d" % k, g, r[k] / r[0], atol=1e-6)
        c.eq("smoothing", seen[0]["sigma"], s * low / dx)
        tau, acor = got["autocorr"]
        c.eq("lags", tau, [i * dx for i in range(n)])
        c.eq("function", acor, A)
        # the admissible maximum
        ok = [i for i in maxima(A) if tr(i * dx >= low)]
        pick = None
        if ok and tr(ok[0] * dx <= high):
            pick = ok[0]
            if len(ok) > 1 and tr(A[ok[1]] > A[ok[0]]):
                pick = ok[1]
            if not tr(pick * dx <= high):
                pick = None
        c.true("number of peaks", len(got["peaks"]) == (pick is not None))
        if pick is not None and got["peaks"]:
            p = got["peaks"][0]
            c.true("keys", sorted(p) == ["period", "period_uncert"] and not isinstance(p["period_uncert"], list))
            c.true("no uncertainty", bool(np.isnan(p["period_uncert"])))
            c.eq("period", p["period"], pick * dx)
    return h


E = ["autocorr_estimator", "autocorr_function", "next_pow_two"]
B = "any smoothed autocorrelation function of %d samples%s, %s"
HARNESSES = []


def add(name, fn, functions, bounds, **kw):
    HARNESSES.append(dict(name=name, fn=fn, functions=functions, bounds=bounds, **kw))


for k in (2, 3, 4, 5, 6):
    add("function-%d" % k, function(k), E[1:], "all series of %d samples" % k)
add("function-9", function(9), E[1:], "all series of 9 samples", thorough_only=True)
add("dimensions", dims, E[1:2], "all 2x2 arrays")
add("power-of-two", power_of_two(10 ** 6), E[2:], "all lengths up to 10^6")
U = (0, 1, 2, 3)
add("data", estimator(U, "uudud"), E, "all series of 4 uniform samples; limits arbitrary")
add("data-uneven", estimator((0, 1, 3, 3.5), "ududuududuudu", oversample=2), E, "all series of 4 uneven samples; limits arbitrary")
DATA = (0, 1, -1, 2, .5)
add("free-6", estimator(U, data=DATA[:4]), E, B % (6, "", "any limits"))
add("free-5", estimator((0, 1, 2.5), data=DATA[:3], limits="n"), E, B % (5, "", "min_period"))
add("free-6-no-limits", estimator(U, data=DATA[:4], limits=""), E, B % (6, "", "no limits"))
add("free-6-max", estimator(U, data=DATA[:4], limits="x"), E, B % (6, "", "max_period"))
add("two", estimator((0, 1, 2, 3, 4), "dududdd", data=DATA), E, B % (8, ", two maxima", "any limits"))
add("three", estimator((0, 1, 2, 3, 4), "ududud", data=DATA), E, B % (8, ", three maxima", "any limits"))
add("late", estimator((0, 1, 2, 3, 4), "dddudud", data=DATA), E, B % (8, ", two late maxima", "any limits"))
add("plateau", estimator((0, 1, 2, 3, 4), "u=dudu=", data=DATA), E, B % (8, ", a plateau and a maximum", "any limits"))
add("none", estimator((0, 1, 2, 3, 4), "ddddduu", data=DATA), E, B % (8, ", no maximum", "any limits"))
add("shifted", estimator(U, "dudud", data=DATA[:4], start=5), E, B % (6, ", two maxima", "times starting at 5"))
add("coarse", estimator((0, 1, 2, 3, 4, 5), "udud", data=DATA + (1,), oversample=1), E, B % (5, ", two maxima", "oversample=1"))
add("fine", estimator((0, 1, 2), "udududd", data=DATA[:3], oversample=4), E, B % (8, ", three maxima", "oversample=4"))
add("smooth", estimator(U, "udud", data=DATA[:4], smooth=True), E, B % (6, ", two maxima", "any limits and smoothing"))
add("smooth-no-limits", estimator(U, "udud", data=DATA[:4], smooth=True, limits=""), E, B % (6, ", two maxima", "any smoothing"))
