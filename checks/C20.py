"""Expected transit times are exactly the ephemeris inside the window."""
import exoplanet.orbits.ttv as ttv
from engine import symnp
from engine.harness import Skip
from exoplanet.orbits.ttv import compute_expected_transit_times

from checks.common import *

TRUSTED = ["numpy functions called by the code (floor, ceil, arange, masks) are modelled by engine/symnp.py"]


def call(c, lo, hi, P, t0):
    if c.mode == "num":
        return compute_expected_transit_times(lo, hi, P, t0)
    with symnp.patched(ttv, np=symnp.SymNP()):
        return compute_expected_transit_times(lo, hi, P, t0)


def expected(c, lo, hi, P, t0, K):
    out = []
    for k in range(-K, K + 1):
        t = t0 + k * P
        if c.mode == "num":
            for edge in (lo, hi):
                if abs(t - edge) < 1e-9 * max(1, abs(t), P) and not (k == 0 or t == edge):
                    raise Skip()
        if bool(c.all(lo <= t, t <= hi)):
            out.append(t)
    return out


def window(span, off, n=1, give="list", edge=None):
    def h(c):
        P = [c.real("period%d" % j, 0, nice=(1., 4.)) for j in range(n)]
        t0 = [c.real("t0_%d" % j, nice=(-3., 3.)) for j in range(n)]
        if edge == "lo":
            k = c.int("k", -2, 2)
            lo, hi = t0[0] + P[0] * int(k), c.real("max_time", nice=(-3., 5.))
            if c.mode == "num" and int(k) != 0:
                raise Skip()
        elif edge == "hi":
            k = c.int("k", -2, 2)
            lo, hi = c.real("min_time", nice=(-5., 3.)), t0[0] + P[0] * int(k)
            if c.mode == "num" and int(k) != 0:
                raise Skip()
        else:
            lo, hi = c.real("min_time", nice=(-3., 0.)), c.real("max_time", nice=(0., 4.))
        for p, t in zip(P, t0):
            c.assume(lo - t > off[0] * p)
            c.assume(lo - t < off[1] * p)
            c.assume(hi - lo < span * p)
            c.assume(hi - lo > -1 * p)
        K = int(math.ceil(max(abs(off[0]), abs(off[1])) + span)) + 1
        want = [expected(c, lo, hi, p, t, K) for p, t in zip(P, t0)]
        wrap = symnp.sarr if c.mode == "sym" else np.array
        args = {"list": (P, t0), "array": (wrap(P), wrap(t0)), "scalar": (P[0], t0[0]), "tuple": (tuple(P), tuple(t0))}[give]
        got = call(c, lo, hi, *args)
        c.true("one array per planet", len(got) == n, "%d" % len(got))
        for j in range(n):
            c.true("number of transits", len(got[j]) == len(want[j]), "%s, expected %s" % (got[j], want[j]))
            for i, (g, w) in enumerate(zip(got[j], want[j])):
                c.eq("transit[%d]" % i, g, w)
    return h


F = ["compute_expected_transit_times"]
B = "all real min_time, max_time, t0, period > 0 with %g P < min_time - t0 < %g P, -P < max_time - min_time < %g P; %s"


def H(name, span, off, n=1, give="list", edge=None, note="one planet"):
    return dict(name=name, fn=window(span, off, n, give, edge), functions=F, bounds=B % (off[0], off[1], span, note),
                opts=dict(max_paths=3000))


HARNESSES = [
    H("inside", 3, (-1.5, 1.5)),
    H("late", 2, (1, 4), note="window after t0"),
    H("early", 2, (-5, -2), note="window before t0"),
    H("long", 6, (-1, 1), give="scalar", note="long window, scalar arguments"),
    H("edge-lo", 2, (-3, 3), edge="lo", note="a transit exactly at min_time"),
    H("edge-hi", 2, (-5, 3), edge="hi", note="a transit exactly at max_time"),
    H("array", 2, (-1, 1), give="array", note="array arguments"),
    H("two", 1.5, (-1, .5), n=2, note="two planets"),
    H("two-tuple", 1.25, (-.5, .5), n=2, give="tuple", note="two planets, tuples"),
]
