"""numpy code of /repo executed on symbolic values.

``SArr`` is an object array of ``Sym``; comparisons give concrete bool arrays (forking the path), everything else
stays symbolic.  ``SymNP`` stands for the ``numpy`` module inside the module under test, so that constructors that
do not dispatch on their arguments (``arange``, ``zeros``, ...) also produce symbolic arrays.
"""
import contextlib
import math

import numpy as np

from . import graph, sym
from .graph import elementwise
from .sym import SBool, Sym, Unsupported, lift


def has_sym(x):
    if isinstance(x, (Sym, SBool, SArr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (Sym, SBool)) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    return False


def base(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, tuple):
        return tuple(base(v) for v in x)
    if isinstance(x, list):
        return [base(v) for v in x]
    return x


def wrap(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return x
        if x.ndim == 0:
            return wrap(x.item())
        return x.view(SArr)
    if isinstance(x, tuple):
        return tuple(wrap(v) for v in x)
    if isinstance(x, list):
        return [wrap(v) for v in x]
    return x


def sarr(values):
    """object array of Sym (finite numbers lifted)"""
    a = np.asarray(values, dtype=object)
    return elementwise(_lift, a).view(SArr) if a.ndim else _lift(a.item())


def _lift(x):
    if isinstance(x, (Sym,)):
        return x
    if isinstance(x, SBool):
        return lift(x)
    if isinstance(x, complex):
        return x
    return lift(x)


def _bool(f):
    def g(*xs):
        out = elementwise(lambda *v: bool(f(*v)), *[np.asarray(base(x), dtype=object) for x in xs])
        return out.astype(bool) if out.ndim else bool(out.item())
    return g


def _el(f):
    def g(*xs):
        out = elementwise(lambda *v: f(*[_lift(x) for x in v]), *[np.asarray(base(x), dtype=object) for x in xs])
        return wrap(out)
    return g


def _nan_safe(f):
    """nan / inf operands: plain numbers"""
    def g(*xs):
        return f(*xs)
    return g


def pinned_floor(x):
    """the floor of a symbolic number, as a number when the path pins it"""
    x = _lift(x)
    if isinstance(x, float) or x.is_const():
        return sym.s_floor(x)
    for j in [0] + [s * k for k in range(1, 9) for s in (1, -1)]:
        if sym.ctx().decide(sym.s_and(x >= j, x < j + 1)):
            return lift(j)
    return sym.s_floor(x)


def pinned_ceil(x):
    return -pinned_floor(-_lift(x))


def _mod(x, y):
    return sym.s_mod(x, y)


UF = {
    np.less: _bool(lambda a, b: a < b), np.less_equal: _bool(lambda a, b: a <= b),
    np.greater: _bool(lambda a, b: a > b), np.greater_equal: _bool(lambda a, b: a >= b),
    np.equal: _bool(lambda a, b: a == b), np.not_equal: _bool(lambda a, b: a != b),
    np.logical_and: _bool(lambda a, b: bool(a) and bool(b)), np.logical_or: _bool(lambda a, b: bool(a) or bool(b)),
    np.logical_not: _bool(lambda a: not bool(a)),
    np.isfinite: _bool(lambda a: isinstance(a, Sym) or math.isfinite(a)),
    np.isnan: _bool(lambda a: not isinstance(a, Sym) and math.isnan(a)),
    np.isinf: _bool(lambda a: not isinstance(a, Sym) and math.isinf(a)),
    np.floor: _el(pinned_floor), np.ceil: _el(pinned_ceil),
    np.trunc: _el(lambda x: pinned_floor(x) if bool(x >= 0) else pinned_ceil(x)),
    np.rint: _el(lambda x: pinned_floor(x + lift(1) / 2)),
    np.sqrt: _el(lambda x: sym.s_root(x, 2)), np.cbrt: _el(lambda x: sym.s_root(x, 3)),
    np.sin: _el(sym.s_sin), np.cos: _el(sym.s_cos), np.exp: _el(sym.s_exp), np.log: _el(sym.s_log),
    np.arctan2: _el(sym.s_arctan2), np.arccos: _el(sym.s_arccos), np.arcsin: _el(sym.s_arcsin),
    np.square: _el(lambda x: x * x), np.absolute: _el(abs), np.fabs: _el(abs), np.reciprocal: _el(lambda x: 1 / x),
    np.hypot: _el(lambda a, b: sym.s_root(a * a + b * b, 2)), np.remainder: _el(_mod),
    np.floor_divide: _el(lambda a, b: pinned_floor(a / b)),
    np.maximum: _el(graph._max), np.minimum: _el(graph._min),
    np.fmax: _el(graph._max), np.fmin: _el(graph._min), np.log10: _el(lambda x: x.log10()),
    np.log2: _el(lambda x: x.log2()), np.log1p: _el(lambda x: x.log1p()), np.expm1: _el(lambda x: x.expm1()),
    np.deg2rad: _el(lambda x: x.deg2rad()), np.radians: _el(lambda x: x.deg2rad()),
    np.conjugate: _el(lambda x: x),
    np.add: _el(lambda a, b: a + b), np.subtract: _el(lambda a, b: a - b), np.multiply: _el(lambda a, b: a * b),
    np.divide: _el(lambda a, b: graph._truediv(a, b)), np.negative: _el(lambda a: -a),
    np.power: _el(lambda a, b: a ** b),
}


class SArr(np.ndarray):
    __array_priority__ = 50

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if any(type(x).__array_ufunc__ is None if hasattr(type(x), "__array_ufunc__") else False for x in inputs):
            return NotImplemented
        if any(hasattr(x, "_symq") for x in inputs):
            return NotImplemented
        ins = [base(x) for x in inputs]
        if method == "__call__" and ufunc in UF and not set(kw) - {"dtype", "casting"}:
            r = UF[ufunc](*ins)
        else:
            r = wrap(getattr(ufunc, method)(*ins, **kw))
        if out is not None:
            o = out[0]
            if isinstance(o, np.ndarray) and o.dtype != object and has_sym(r):
                raise Unsupported("symbolic value stored in a float array")
            base(o)[...] = base(r) if isinstance(r, np.ndarray) else r
            return o
        return r

    def __array_function__(self, func, types, args, kwargs):
        name = getattr(func, "__name__", "")
        mod = "linalg." if "linalg" in (getattr(func, "__module__", "") or "") else ""
        f = FN.get(mod + name)
        if f is not None:
            return f(*args, **kwargs)
        args = [base(a) for a in args]
        kwargs = {k: base(v) for k, v in kwargs.items()}
        return wrap(func(*args, **kwargs))

    def astype(self, dtype, *a, **kw):
        k = np.dtype(dtype).kind
        if k in "fO":
            return self.copy()
        if k in "iu":
            return np.array([int(pinned_floor(x) if bool(_lift(x) >= 0) else pinned_ceil(x)) for x in self.flat],
                            dtype=dtype).reshape(self.shape)
        if k == "b":
            return np.array([bool(x) for x in self.flat]).reshape(self.shape)
        return np.ndarray.astype(self, dtype, *a, **kw)

    def mean(self, axis=None, **kw):
        return mean(self, axis=axis)

    def max(self, axis=None, **kw):
        return wrap(np.max(base(self), axis=axis))

    def min(self, axis=None, **kw):
        return wrap(np.min(base(self), axis=axis))

    def sum(self, axis=None, **kw):
        return wrap(np.sum(base(self), axis=axis))

    @property
    def real(self):
        return self


# ------------------------------------------------------------------ functions
def mean(x, axis=None, **kw):
    x = np.asarray(base(x), dtype=object)
    n = x.size if axis is None else x.shape[axis]
    return wrap(np.sum(x, axis=axis)) / n


def average(x, axis=None, weights=None, **kw):
    if weights is None:
        return mean(x, axis)
    w = np.asarray(base(weights), dtype=object)
    x = np.asarray(base(x), dtype=object)
    return wrap(np.sum(x * w, axis=axis)) / wrap(np.sum(w, axis=axis))


def solve(A, b):
    """Gaussian elimination while a pivot is known not to be zero, otherwise Cramer's rule"""
    A = elementwise(_lift, np.array(base(A), dtype=object))
    b = np.array(base(b), dtype=object)
    n = A.shape[0]
    vec = b.ndim == 1
    B = elementwise(_lift, b.reshape(n, -1))
    X = _eliminate(A.copy(), B.copy())
    if X is None:
        X = _cramer(A, B)
    return wrap(X[:, 0] if vec else X)


def _nonzero(x):
    if x.is_const():
        return x.const() != 0
    return sym.ctx().known_sign(x.rf.num) != 0


def _eliminate(A, B):
    n = A.shape[0]
    for k in range(n):
        p = [i for i in range(k, n) if A[i, k].is_const() and A[i, k].const() != 0]
        p = p or [i for i in range(k, n) if _nonzero(A[i, k])]
        if not p:
            return None
        p = p[0]
        if p != k:
            A[[k, p]] = A[[p, k]]
            B[[k, p]] = B[[p, k]]
        for i in range(n):
            if i == k or (A[i, k].is_const() and A[i, k].const() == 0):
                continue
            f = A[i, k] / A[k, k]
            for j in range(k, n):
                A[i, j] = A[i, j] - f * A[k, j]
            for j in range(B.shape[1]):
                B[i, j] = B[i, j] - f * B[k, j]
    X = graph.obj(B.shape)
    for i in range(n):
        for j in range(B.shape[1]):
            X[i, j] = B[i, j] / A[i, i]
    return X


def det(M):
    """determinant by expansion along the first row (minors are shared)"""
    n = len(M)
    memo = {}

    def minor(r, cols):
        if r == n:
            return lift(1)
        if cols in memo:
            return memo[cols]
        out, sg = lift(0), 1
        for q, j in enumerate(cols):
            x = M[r][j]
            if not (x.is_const() and x.const() == 0):
                out = out + (x if q % 2 == 0 else -x) * minor(r + 1, cols[:q] + cols[q + 1:])
        memo[cols] = out
        return out
    return minor(0, tuple(range(n)))


def _cramer(A, B):
    n = A.shape[0]
    M = A.tolist()
    d = det(M)
    if not bool(d != 0):
        raise np.linalg.LinAlgError("Singular matrix")
    X = graph.obj(B.shape)
    for i in range(n):
        for j in range(B.shape[1]):
            X[i, j] = det([[B[r, j] if q == i else M[r][q] for q in range(n)] for r in range(n)]) / d
    return X


def lstsq(A, b, rcond=None):
    A_ = base(A)
    x = solve(np.dot(A_.T, A_), np.dot(A_.T, base(b)))
    return x, None, None, None


def inv(A):
    n = np.shape(A)[0]
    return solve(A, np.array([[lift(int(i == j)) for j in range(n)] for i in range(n)], dtype=object))


def polyfit(x, y, deg, w=None, **kw):
    A = np.vander(base(x), deg + 1)
    y = base(y)
    if A.shape[0] == deg + 1:
        return solve(A, y)
    W = np.ones(len(y)) if w is None else base(w) ** 2
    return solve(np.dot(A.T, A * W[:, None]), np.dot(A.T, y * W))


def polyval(p, x):
    r = 0
    for c in base(p):
        r = r * x + c
    return r


def arange(*args, dtype=None, **kw):
    if not any(has_sym(a) for a in args):
        return np.arange(*args, dtype=dtype, **kw)
    args = [_lift(a.item() if isinstance(a, np.ndarray) else a) for a in args]
    start, stop, step = (lift(0), args[0], lift(1)) if len(args) == 1 else (
        (args[0], args[1], lift(1)) if len(args) == 2 else args)
    n = 0
    q = (stop - start) / step
    while bool(q > n):
        n += 1
        if n > 64:
            raise Unsupported("symbolic arange longer than 64")
    out = graph.obj((n,))
    for i in range(n):
        out[i] = start + i * step
    out = wrap(out)
    return out.astype(dtype) if dtype is not None else out


def linspace(start, stop, num=50, endpoint=True, **kw):
    if not (has_sym(start) or has_sym(stop)):
        return np.linspace(start, stop, num, endpoint, **kw)
    start, stop = _lift(start), _lift(stop)
    d = num - 1 if endpoint else num
    out = graph.obj((num,))
    for i in range(num):
        out[i] = start + (stop - start) * i / d if d else start
    return wrap(out)


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("np.interp with period")
    xp, fp = [np.asarray(base(v), dtype=object) for v in (xp, fp)]

    def one(v):
        v = _lift(v)
        if bool(v <= xp[0]):
            return fp[0] if left is None or bool(v == xp[0]) else left
        for i in range(1, len(xp)):
            if bool(v <= xp[i]):
                return fp[i - 1] + (fp[i] - fp[i - 1]) * (v - xp[i - 1]) / (xp[i] - xp[i - 1])
        return fp[-1] if right is None else right
    return wrap(elementwise(one, np.asarray(base(x), dtype=object)))


def as_array(x, dtype=None, copy=None, ndmin=0, **kw):
    if not has_sym(x):
        return np.array(x, dtype=dtype, ndmin=ndmin)
    a = np.array(base(x), dtype=object, ndmin=ndmin)
    a = elementwise(_lift, a)
    if a.ndim == 0:
        return _zero_d(a)
    a = a.view(SArr)
    if dtype is not None and np.dtype(dtype).kind in "iub":
        return a.astype(dtype)
    return a


def _zero_d(a):
    return a.view(SArr)


def diff(x, n=1, axis=-1, **kw):
    x = base(x)
    for _ in range(n):
        x = np.diff(np.asarray(x, dtype=object), axis=axis)
    return wrap(x)


def var(x, axis=None, ddof=0, **kw):
    x = np.asarray(base(x), dtype=object)
    m = mean(x, axis)
    if axis is not None:
        raise Unsupported("variance over an axis")
    return wrap(np.sum((x - m) ** 2)) / (x.size - ddof)


def isclose(*a, **kw):
    raise Unsupported("np.isclose on symbolic values")


def copy(x, *a, **kw):
    return wrap(np.array(base(x), dtype=object))


def shape(x):
    if hasattr(x, "_symq"):
        return np.shape(x.value)
    return np.shape(base(x))


def atleast_1d(*xs):
    out = [x.atleast_1d() if hasattr(x, "_symq") else (
        as_array(x, ndmin=1) if has_sym(x) else np.atleast_1d(x)) for x in xs]
    return out[0] if len(out) == 1 else tuple(out)


def size(x, axis=None):
    s = shape(x)
    return int(np.prod(s)) if axis is None else s[axis]


FN = {"mean": mean, "average": average, "linalg.solve": solve, "linalg.lstsq": lstsq, "linalg.inv": inv,
      "polyfit": polyfit, "polyval": polyval, "interp": interp, "diff": diff, "var": var, "isclose": isclose,
      "allclose": isclose, "copy": copy, "linspace": linspace, "atleast_1d": atleast_1d,
      "std": lambda *a, **k: sym.s_root(var(*a, **k), 2)}


class _Linalg:
    def __init__(self):
        self.solve, self.lstsq, self.inv = (self._d(n) for n in ("solve", "lstsq", "inv"))

    @staticmethod
    def _d(n):
        def f(*a, **k):
            return FN["linalg." + n](*a, **k) if has_sym(a) else getattr(np.linalg, n)(*a, **k)
        return f

    def __getattr__(self, k):
        return getattr(np.linalg, k)


def _full(fill):
    def f(shape, dtype=None, **kw):
        if dtype is not None and np.dtype(dtype).kind not in "fO":
            return np.full(shape, fill, dtype=dtype)
        a = np.empty(shape, dtype=object)
        a[...] = lift(fill)
        return a.view(SArr)
    return f


class SymNP:
    """the numpy module, with symbolic constructors"""

    def __init__(self, **extra):
        self._extra = dict(extra)
        self._extra.setdefault("linalg", _Linalg())

    arange = staticmethod(arange)
    linspace = staticmethod(linspace)
    array = staticmethod(as_array)
    asarray = staticmethod(as_array)
    asanyarray = staticmethod(as_array)
    ascontiguousarray = staticmethod(as_array)
    atleast_1d = staticmethod(atleast_1d)
    shape = staticmethod(shape)
    size = staticmethod(size)
    zeros = staticmethod(_full(0))
    ones = staticmethod(_full(1))
    empty = staticmethod(_full(0))

    @staticmethod
    def full(shape, fill, dtype=None, **kw):
        a = np.empty(shape, dtype=object)
        a[...] = fill if isinstance(fill, float) and not math.isfinite(fill) else _lift(fill)
        return a.view(SArr)

    def __getattr__(self, name):
        if name in self._extra:
            return self._extra[name]
        f = getattr(np, name)
        if isinstance(f, np.ufunc):
            g = UF.get(f)
            if g is None:
                return f

            def h(*a, **k):
                if has_sym(a) and not k:
                    return g(*a)
                return f(*a, **k)
            for m in ("reduce", "accumulate", "outer", "at"):
                setattr(h, m, getattr(f, m))
            return h
        if callable(f) and not isinstance(f, type):
            g = FN.get(name)

            def h(*a, **k):
                if g is not None and (has_sym(a) or has_sym(k)):
                    return g(*a, **k)
                if has_sym(a) or has_sym(k):
                    return wrap(f(*[base(x) for x in a], **{n: base(v) for n, v in k.items()}))
                return f(*a, **k)
            return h
        return f


def floor_int(x):
    return int(pinned_floor(x))


@contextlib.contextmanager
def patched(module, **repl):
    """temporarily replace names in a module of /repo (in this process only)"""
    old = {}
    try:
        for k, v in repl.items():
            if hasattr(module, k):
                old[k] = getattr(module, k)
                setattr(module, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(module, k, v)
