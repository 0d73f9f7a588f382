"""Period searches honour their limits and report the peak they found.

The periodograms themselves come from AstroPy and are replaced by arbitrary ones; what they are asked for is recorded through
their real signatures.
"""
import inspect

from astropy.timeseries import BoxLeastSquares, LombScargle

from checks.C36 import judge, spectrum
from checks.estim import *
from checks.estim import TRUSTED as T0

TRUSTED = T0 + ["AstroPy's LombScargle and BoxLeastSquares are replaced by objects with the same signatures that return arbitrary spectra"]


def bound(fn, *a, **k):
    b = inspect.signature(fn).bind(None, *a, **k)
    b.apply_defaults()
    out = dict(b.arguments)
    out.pop("self")
    return out


def data(c, n, yerr):
    x = [c.real("x%d" % i, nice=(1.5 * i, 1.5 * i + 1)) for i in range(n)]
    for a, b in zip(x[:-1], x[1:]):
        c.assume(a < b)
    y = [c.real("y%d" % i, nice=(-3., 3.)) for i in range(n)]
    e = [c.real("e%d" % i, 0, nice=(.5, 2.)) for i in range(n)] if yerr else None
    return x, y, e


def same(c, name, got, want):
    if want is None or got is None or isinstance(want, (str, dict)):
        c.true(name, type(got) is type(want) and got == want)
    else:
        c.eq(name, got, want)


def given_data(c, m, x, y, e):
    same(c, "y", m["y"], y)
    if e is None or m["dy"] is None:
        c.true("yerr", e is None and m["dy"] is None)
    else:
        c.eq("yerr", m["dy"], e)


# ---- Lomb-Scargle -----------------------------------------------------------------------------------------------------------

def ls(n=4, nx=3, yerr=False, limits="", filt=False, max_peaks=None, extra=None, pattern=None, grid=None, period=None):
    def h(c):
        x, y, e = data(c, nx, yerr)
        f, p = spectrum(c, n)
        if grid:
            f = [c.num(Fraction(q)) for q in grid]
        kw = dict(extra or {})
        want = dict(samples_per_peak=5, nyquist_factor=5, minimum_frequency=None, maximum_frequency=None, **{})
        want.update(extra or {})
        if "n" in limits:
            kw["min_period"] = c.real("min_period", 0, nice=(.5, 1.))
            want["maximum_frequency"] = 1 / kw["min_period"]
        if "x" in limits:
            kw["max_period"] = c.real("max_period", 0, nice=(10., 20.))
            want["minimum_frequency"] = 1 / kw["max_period"]
        v = [q / nx for q in p]
        if filt:
            kw["filter_period"] = c.num(period) if period else c.real("filter_period", 0, nice=(.5, 5.))
            v = [q / c.sqrt(1 + (1 / kw["filter_period"] / g) ** 6) for q, g in zip(v, f)]
        for a, b in zip(v[:-1], v[1:]):           # the logarithm is increasing
            c.axiom(c.iff(a < b, c.log(a) < c.log(b)))
            c.axiom(c.iff(a > b, c.log(a) > c.log(b)))
        for a, b, k in zip(v[:-1], v[1:], pattern or ""):
            c.assume(a < b if k == "u" else a > b)
        if max_peaks is not None:
            kw["max_peaks"] = max_peaks
        log = []

        class LS:
            def __init__(self, *a, **k):
                self.given = bound(LombScargle.__init__, *a, **k)

            def autofrequency(self, *a, **k):
                log.append(bound(LombScargle.autofrequency, *a, **k))
                return arr(c, f)

            def power(self, *a, **k):
                self.how = bound(LombScargle.power, *a, **k)
                return arr(c, p)

            def autopower(self, *a, **k):
                self.how = bound(LombScargle.autopower, *a, **k)
                log.append(self.how)
                return arr(c, f), arr(c, p)

        def search(*a, **k):
            a = bound(lambda self, freq, power, max_peaks=0: None, *a, **k)
            log2.append(dict(a, freq=list(a["freq"]), power=list(a["power"])))
            return {} if a["max_peaks"] == 0 else []

        log2 = []
        repl = dict(LombScargle=LS)
        if filt and not period:           # the peaks of a spectrum: decided by C36 and the cases of a given filter_period
            repl["find_peaks"] = search
        got = run(c, est.lomb_scargle_estimator, arr(c, x), arr(c, y), *([arr(c, e)] if yerr else []), _repl=repl, **kw)
        m = got["ls"]
        c.true("one model", isinstance(m, LS) and len(log) == 1)
        c.eq("x", m.given["t"], x)
        given_data(c, m.given, x, y, e)
        c.true("model", m.given["fit_mean"] is True and m.given["center_data"] is True and m.given["nterms"] == 1)
        c.true("normalization", (m.how["normalization"] or m.given["normalization"]) == "psd")
        for k in want:
            if k in log[0]:
                same(c, k, log[0][k], want[k])
        F, P = got["periodogram"]
        c.eq("frequencies", F, f)
        c.eq("periodogram", P, [q / nx for q in p])
        if log2:
            c.true("one search", len(log2) == 1 and log2[0]["max_peaks"] == (2 if max_peaks is None else max_peaks))
            c.eq("searched frequencies", log2[0]["freq"], f)
            for i, (a, b) in enumerate(zip(log2[0]["power"], v)):
                c.eq("filtered%d" % i, a, b)
            return
        if max_peaks == 0:
            c.true("a dictionary", isinstance(got["peaks"], dict))
            judge(c, f, v, [got["peaks"]], 1)
        else:
            c.true("a list", isinstance(got["peaks"], list))
            judge(c, f, v, got["peaks"], 2 if max_peaks is None else max_peaks)
    return h


# ---- box least squares ------------------------------------------------------------------------------------------------------

KEYS = ["objective", "period", "power", "depth", "depth_err", "duration", "transit_time", "depth_snr", "log_likelihood"]


class Results(dict):
    """AstroPy's BoxLeastSquaresResults is a dictionary with attributes"""
    __getattr__ = dict.__getitem__
    __setattr__ = dict.__setitem__


def bls(n=4, nx=3, yerr=False, limits="", extra=None, direct=(), named=False, base=None, duration=False, pattern=None, falling=True):
    """limits: n and x for min_period and max_period; direct: n, x for minimum_period and maximum_period"""
    def h(c):
        x, y, e = data(c, nx, yerr)
        f, p = spectrum(c, n, falling)
        for a, b, k in zip(p[:-1], p[1:], pattern or ""):
            c.assume(a < b if k == "u" else a > b)
        cols = {k: [c.real("%s%d" % (k, i), nice=(-1., 1.)) for i in range(n)] for k in KEYS[3:]}
        kw = dict(extra or {})
        want = dict(objective=None, method=None, oversample=10, minimum_n_transit=3, minimum_period=None, maximum_period=None)
        want.update(extra or {})
        for s, k, q in (("n", "minimum_period", "min_period"), ("x", "maximum_period", "max_period")):
            if s in limits:
                want[k] = kw[q] = c.real(q, 0, nice=(1., 2.))
            if s in direct:
                want[k] = kw[k] = c.real(k, 0, nice=(1., 2.))
        if duration:
            d = kw["duration"] = c.real("duration", 0, nice=(.1, .3))
        else:
            d = 0.2
        length = c.choice("grid", [nx, nx + 1, 3 * nx, 4 * nx + 1]) if base is None else base
        log = []

        class BLS:
            def __init__(self, *a, **k):
                self.given = bound(BoxLeastSquares.__init__, *a, **k)
                log.append(("init", self.given))

            def autoperiod(self, *a, **k):
                k = bound(BoxLeastSquares.autoperiod, *a, **k)
                log.append(("autoperiod", k))
                q = int(-(-length // k["frequency_factor"]))
                return arr(c, [c.num(1 + i) for i in range(q)])

            def autopower(self, *a, **k):
                k = bound(BoxLeastSquares.autopower, *a, **k)
                log.append(("search", k))
                return self.answer()

            def power(self, *a, **k):
                k = bound(BoxLeastSquares.power, *a, **k)
                k.pop("period")
                (last,) = [q for s, q in log if s == "autoperiod"][-1:]
                log.append(("search", dict(last, **k)))
                return self.answer()

            def answer(self):
                r = Results(objective="likelihood", period=arr(c, [1 / g for g in f]), power=arr(c, p))
                r.update((k, arr(c, v)) for k, v in cols.items())
                return r

        a = [arr(c, x), arr(c, y)] + ([arr(c, e)] if yerr else [])
        got = run(c, est.bls_estimator, *a, _repl=dict(BoxLeastSquares=BLS), **kw)
        c.true("one model, one search", [s for s, _ in log if s != "autoperiod"] == ["init", "search"])
        m = log[0][1]
        how = log[-1][1] if log[-1][0] == "search" else {}
        # any choice of the reference time will do
        shift = x[0] - m["t"][0]
        c.eq("x", m["t"], [v - shift for v in x])
        given_data(c, m, x, y, e)
        for k in want:
            same(c, k, how[k], want[k])
        same(c, "duration", how["duration"], d)
        if "frequency_factor" in kw:
            c.true("frequency_factor", how["frequency_factor"] == kw["frequency_factor"])
        else:
            # not more periods than samples, and no coarser than needed
            q = how["frequency_factor"]
            c.true("periods", -(-length // q) <= nx and (q == 1 or -(-length // (q / 2)) > nx))
            for s, k in log:
                if s == "autoperiod":
                    for key in ("minimum_period", "maximum_period", "minimum_n_transit"):
                        same(c, "grid " + key, k[key], want[key])
                    same(c, "grid duration", k["duration"], d)
        t = [v + shift for v in cols["transit_time"]]
        r = got["bls"]
        c.eq("transit_time", r["transit_time"], t)
        c.eq("period", r["period"], [1 / g for g in f])
        c.eq("power", r["power"], p)
        for k in cols:
            if k != "transit_time":
                c.eq(k, r[k], cols[k])
        judge(c, f, p, got["peaks"], 1)
        info = got["peak_info"]
        if not got["peaks"]:
            c.true("no peak", info is None)
            return
        i = int(got["peaks"][0]["index"])
        c.true("entries", sorted(info) == sorted(KEYS[1:]))
        full = dict(cols, transit_time=t, period=[1 / g for g in f], power=p)
        for k in KEYS[1:]:
            c.eq("peak " + k, info[k], full[k][i])
    return h


L = ["lomb_scargle_estimator", "find_peaks"]
X = ["bls_estimator", "find_peaks"]
S = "any data, any spectrum of %d frequencies, %s"
HARNESSES = []


def add(name, fn, functions, bounds, **kw):
    HARNESSES.append(dict(name=name, fn=fn, functions=functions, bounds=bounds, **kw))


add("ls", ls(), L, S % (4, "no options"))
add("ls-yerr", ls(3, yerr=True, max_peaks=1), L, S % (3, "yerr, max_peaks=1"))
add("ls-min", ls(3, limits="n"), L, S % (3, "min_period"))
add("ls-max", ls(3, limits="x"), L, S % (3, "max_period"))
add("ls-both", ls(3, limits="nx", max_peaks=0, pattern="ud"), L, S % (3, "min_period, max_period, max_peaks=0"))
add("ls-extra", ls(3, limits="n", extra=dict(samples_per_peak=7, nyquist_factor=3)), L, S % (3, "min_period and extra options"))
G3, G4 = (.25, .5, 1), (.25, .5, .75, 1)
add("ls-filter", ls(3, filt=True), L, S % (3, "any filter_period: the filtered spectrum that is searched"))
add("ls-filter-all", ls(4, filt=True, limits="nx", yerr=True, max_peaks=1), L, S % (4, "any filter_period, both limits, yerr, max_peaks=1: the filtered spectrum that is searched"))
add("ls-filter-3", ls(3, filt=True, grid=G3, period=2), L, "any data and powers at 3 frequencies of a grid, one filter_period")
add("ls-filter-4", ls(4, filt=True, grid=G4, period=2, max_peaks=0, pattern="udd"), L, "any data and powers at 4 frequencies of a grid, one filter_period, max_peaks=0")
add("bls", bls(), X, S % (4, "no options"))
add("bls-yerr", bls(3, yerr=True, duration=True), X, S % (3, "yerr, duration"))
add("bls-min", bls(3, limits="n", pattern="ud"), X, S % (3, "min_period"))
add("bls-max", bls(3, limits="x", pattern="ud"), X, S % (3, "max_period"))
add("bls-minimum", bls(3, direct="n", limits="x", pattern="ud", yerr=True), X, S % (3, "minimum_period, max_period"))
add("bls-maximum", bls(3, direct="x", limits="n", pattern="ud"), X, S % (3, "min_period, maximum_period"))
add("bls-named", bls(3, direct="nx", pattern="ud"), X, S % (3, "minimum_period, maximum_period"))
add("bls-extra", bls(3, limits="nx", pattern="ud", extra=dict(objective="snr", method="slow", oversample=3, minimum_n_transit=2)), X, S % (3, "options of the search"))
add("bls-factor", bls(3, limits="nx", pattern="ud", extra=dict(frequency_factor=1.5)), X, S % (3, "frequency_factor given"))
add("bls-5", bls(5, pattern="udud", base=2), X, S % (5, "two peaks"))
add("bls-none", bls(4, pattern="uuu", base=2), X, S % (4, "no peak"))
add("bls-rising", bls(4, falling=False, base=2, nx=2), X, S % (4, "frequencies rising"))
