"""Regular-grid interpolation is multilinear, exact at nodes and bounded."""
import itertools

from exoplanet.interp import RegularGridInterpolator, regular_grid_interp

from checks.common import *

TRUSTED = ["numpy.searchsorted on a sorted vector"]


def grid(c, dims, nice=None):
    pts = []
    for d, m in enumerate(dims):
        g = [c.real("g%d_0" % d, nice=(-2., -1.))]
        for i in range(1, m):
            g.append(g[-1] + c.real("h%d_%d" % (d, i), 0, nice=(.3, 1.2)))
        pts.append(g)
    return pts


def cell(c, g, x):
    """index of the cell the multilinear interpolant of x uses (the first / last one outside the hull)"""
    i = 0
    for k in range(1, len(g) - 1):
        if bool(x < g[k]):
            break
        i = k
    return i


def multilinear(c, pts, vals, xs, cells):
    """vals: dict from node indices to value"""
    out = c.num(0)
    for corner in itertools.product((0, 1), repeat=len(pts)):
        w = c.num(1)
        for g, x, i, e in zip(pts, xs, cells, corner):
            y = (x - g[i]) / (g[i + 1] - g[i])
            w = w * (y if e else 1 - y)
        out = out + w * vals[tuple(i + e for i, e in zip(cells, corner))]
    return out


def model(dims, nout=(), nt=1, fill=None, static=True, bounded=False, cls=False, where="any"):
    def h(c):
        pts = grid(c, dims)
        nodes = list(itertools.product(*[range(m) for m in dims]))
        chans = list(itertools.product(*[range(m) for m in nout]))
        V = {ch: {n: c.real("v" + "_".join(map(str, n + ch)), nice=(-2., 2.)) for n in nodes} for ch in chans}
        values = np.empty(tuple(dims) + tuple(nout), dtype=object)
        for ch in chans:
            for n in nodes:
                values[n + ch] = V[ch][n]
        xs, cs, outside = [], [], []
        for k in range(nt):
            if where == "node":
                n = c.choice("node%d" % k, nodes)
                x = [g[i] for g, i in zip(pts, n)]
            else:
                x = [c.real("x%d_%d" % (k, d), nice=(-2., 1.5)) for d in range(len(dims))]
            out = [False, False]
            for g, v in zip(pts, x):
                if where == "inside":
                    c.assume(v >= g[0])
                    c.assume(v <= g[-1])
                elif where == "outside" or (fill is not None and where == "any"):
                    out[0] = out[0] or bool(v < g[0]) or bool(v > g[-1])
            xs.append(x)
            outside.append(out[0])
            if where == "node":
                cs.append([min(i, m - 2) for i, m in zip(n, dims)])
            else:
                cs.append([cell(c, g, v) for g, v in zip(pts, x)])
        kw = {}
        if fill is not None:
            fv = c.real("fill", nice=(-5., 5.))
            kw["fill_value"] = c.tensor(fv) if fill == "tensor" else fill
            if fill != "tensor":
                fv = c.num(fill)
        pt_ = [c.tensor(g, static=static) for g in pts]
        vt = c.tensor(values, static=static)
        xt = c.tensor(xs, static=static)
        if cls:
            res = RegularGridInterpolator(pt_, vt, **kw).evaluate(xt)
        else:
            res = regular_grid_interp(pt_, vt, xt, **kw)
        got = c.ev(res)
        c.shape("interpolated", got, (nt,) + tuple(nout))
        for k in range(nt):
            for ch in chans:
                g = got[(k,) + ch]
                if outside[k] and fill is not None:
                    want = fv
                elif where == "node":
                    want = V[ch][n]
                else:
                    want = multilinear(c, pts, V[ch], xs[k], cs[k])
                c.eq("value[%d]%s" % (k, list(ch) or ""), g, want)
                if bounded:
                    corner = [V[ch][tuple(i + e for i, e in zip(cs[k], q))] for q in itertools.product((0, 1), repeat=len(dims))]
                    lo, hi = c.real("lo", nice=(-5., -3.)), c.real("hi", nice=(3., 5.))
                    for v in corner:
                        c.assume(lo <= v)
                        c.assume(v <= hi)
                    c.le("at least the smallest corner value", lo, g)
                    c.le("at most the largest corner value", g, hi)
    return h


F = ["regular_grid_interp", "RegularGridInterpolator"]
B = "all strictly increasing grids and all values; grid %s, %s"


def H(name, dims, note, thorough=False, **kw):
    return dict(name=name, fn=model(dims, **kw), functions=F, bounds=B % (" x ".join(map(str, dims)), note),
                thorough_only=thorough)


HARNESSES = [
    H("1d-2", (2,), "any coordinate"),
    H("1d-3", (3,), "any coordinate"),
    H("1d-5", (5,), "any coordinate"),
    H("1d-9", (9,), "any coordinate", thorough=True),
    H("2d-2x2", (2, 2), "any coordinates"),
    H("2d-3x2", (3, 2), "any coordinates, unknown static shapes", static=False),
    H("2d-3x4", (3, 4), "any coordinates"),
    H("2d-5x5", (5, 5), "any coordinates", thorough=True),
    H("3d-2x3x2", (2, 3, 2), "any coordinates"),
    H("3d-3x3x3", (3, 3, 3), "any coordinates", thorough=True),
    H("4d", (2, 2, 2, 2), "any coordinates"),
    H("1d-fill", (3,), "any coordinate, symbolic fill value", fill="tensor"),
    H("1d-fill-zero", (3,), "any coordinate, fill value 0", fill=0.0),
    H("2d-fill", (3, 2), "any coordinates, symbolic fill value", fill="tensor"),
    H("3d-fill", (2, 2, 2), "any coordinates, symbolic fill value", fill="tensor"),
    H("2d-fill-out", (2, 2), "any coordinates, two output channels, fill value 3", fill=3.0, nout=(2,)),
    H("1d-out", (3,), "any coordinate, two output channels", nout=(2,)),
    H("2d-out", (2, 3), "any coordinates, three output channels", nout=(3,)),
    H("1d-out-out", (2,), "any coordinate, 2 x 2 output channels", nout=(2, 2)),
    H("1d-tests", (3,), "two coordinates", nt=2),
    H("2d-tests", (2, 2), "three coordinates inside the hull", nt=3, nout=(2,), where="inside"),
    H("1d-tests-fill", (2,), "two coordinates, two output channels, fill value", nt=2, nout=(2,), fill="tensor"),
    H("1d-node", (4,), "every node", where="node"),
    H("2d-node", (3, 3), "every node", where="node"),
    H("2d-node-fill", (3, 3), "every node, symbolic fill value", where="node", fill="tensor"),
    H("3d-node", (2, 2, 3), "every node", where="node", nout=(2,)),
    H("1d-bounded", (3,), "inside the hull: within the range of the corner values", where="inside", bounded=True),
    H("2d-bounded", (2, 2), "inside the hull: within the range of the corner values", where="inside", bounded=True),
    H("class", (3, 2), "any coordinates, through the class", cls=True),
    H("class-fill", (3,), "any coordinates, through the class", cls=True, fill="tensor", nout=(2,)),
]
