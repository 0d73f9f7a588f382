"""Symbolic interpreter of raw (unoptimised) PyTensor graphs.

Arrays are numpy object arrays with concrete shapes whose elements are ``Sym`` (floats), ``int`` (integer
tensors), ``bool``/``SBool`` (boolean tensors) or the floats nan / +-inf.
"""
import math
from fractions import Fraction

import numpy as np
from pytensor.graph.basic import Constant, Variable
from pytensor.graph.op import Op
from pytensor.scalar.basic import ScalarType

from . import alg, sym
from .alg import rf_atom, T
from .sym import (NAN, Sym, SBool, Unsupported, ctx, div, f_div, is_bool, lift, s_and, s_implies, s_not, s_or,
                  s_mod, s_floor, s_ceil, uf)


def obj(shape):
    return np.empty(shape, dtype=object)


def elementwise(f, *arrs):
    """f applied over broadcast object arrays, always returning an object array"""
    arrs = [np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a for a in arrs]
    b = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = obj(b[0].shape)
    flat = [x.ravel() for x in b]
    o = out.reshape(-1)
    for i in range(o.size):
        o[i] = f(*[x[i] for x in flat])
    return o.reshape(b[0].shape)


def dkind(var):
    d = getattr(var.type, "dtype", None)
    if d is None:
        return "o"
    if d == "bool":
        return "b"
    if d.startswith("float"):
        return "f"
    if d.startswith(("int", "uint")):
        return "i"
    return d


def conv(x, kind):
    """convert an element to a dtype kind"""
    if kind == "f":
        if isinstance(x, Sym):
            return x
        return lift(x)
    if kind == "i":
        if isinstance(x, (SBool,)):
            return x._num()
        if isinstance(x, (bool, np.bool_)):
            return int(x)
        if isinstance(x, Sym) and x.is_const() and x.const().denominator == 1:
            return int(x.const())
        if isinstance(x, (np.integer,)):
            return int(x)
        if isinstance(x, float) and not math.isfinite(x):
            raise Unsupported("integer from %r" % x)
        return x
    if kind == "b":
        if isinstance(x, (SBool, bool)):
            return x
        if isinstance(x, np.bool_):
            return bool(x)
        if isinstance(x, Sym):
            return x != 0
        return bool(x)
    return x


def conv_arr(a, kind):
    a = np.asarray(a)
    out = obj(a.shape)
    o, s = out.reshape(-1), a.reshape(-1)
    for i in range(o.size):
        o[i] = conv(s[i] if a.dtype == object else s[i].item(), kind)
    return o.reshape(a.shape)


def to_bool_arr(a):
    out = np.empty(a.shape, dtype=bool)
    o, s = out.reshape(-1), a.reshape(-1)
    for i in range(o.size):
        o[i] = bool(s[i])
    return o.reshape(a.shape)


def to_int(x):
    if isinstance(x, np.ndarray):
        x = x.item() if x.ndim == 0 else x.reshape(-1)[0]
    if isinstance(x, Sym):
        return sym.concretize_int(x)
    if isinstance(x, SBool):
        return x._num()
    return int(x)


def to_int_arr(a):
    out = np.empty(a.shape, dtype=int)
    o, s = out.reshape(-1), a.reshape(-1)
    for i in range(o.size):
        o[i] = to_int(s[i])
    return o.reshape(a.shape)


# ------------------------------------------------------------------ scalar operations
def _isnan(x):
    return isinstance(x, float) and math.isnan(x)


def _fold(f):
    def g(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


def _cmp(op):
    def g(a, b):
        if is_bool(a) or isinstance(a, SBool):
            a = lift(a) if is_bool(a) else a
        if isinstance(a, (SBool,)) or isinstance(b, SBool):
            if op == "eq":
                return sym.s_iff(conv(a, "b"), conv(b, "b"))
            if op == "ne":
                return s_not(sym.s_iff(conv(a, "b"), conv(b, "b")))
            a, b = lift(a), lift(b)
        if not isinstance(a, float):
            a = lift(a)
        if op == "eq":
            return a == b
        if op == "ne":
            return a != b
        return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[op]()
    return g


def same(a, b):
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.rf.key() == b.rf.key()
    if type(a) is type(b) and isinstance(a, (int, float, bool)):
        return a == b
    return a is b


def switch(c, a, b):
    if isinstance(c, Sym):
        c = c != 0
    if isinstance(c, SBool):
        if same(a, b):
            return a
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return s_or(s_and(c, a), s_and(s_not(c), b))
        return a if bool(c) else b
    return a if c else b


def _and(a, b):
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return s_and(a, b)
    return to_int(a) & to_int(b)


def _or(a, b):
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return s_or(a, b)
    return to_int(a) | to_int(b)


def _xor(a, b):
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return s_not(sym.s_iff(a, b))
    return to_int(a) ^ to_int(b)


def _invert(a):
    if isinstance(a, (bool, SBool)):
        return s_not(a)
    return ~to_int(a)


def _clip(x, lo, hi):
    x, lo, hi = [v if isinstance(v, float) else lift(v) for v in (x, lo, hi)]
    if bool(x < lo):
        return lo
    return hi if bool(x > hi) else x


def _max(a, b):
    a = a if isinstance(a, float) else lift(a)
    if _isnan(a) or _isnan(b):
        return NAN
    if same(a, b):
        return a
    return a if bool(a >= b) else b


def _min(a, b):
    a = a if isinstance(a, float) else lift(a)
    if _isnan(a) or _isnan(b):
        return NAN
    if same(a, b):
        return a
    return a if bool(a <= b) else b


def _lf(name):
    def g(x):
        x = lift(x)
        if isinstance(x, float):
            f = getattr(np, name)
            with np.errstate(all="ignore"):
                return float(f(x))
        return getattr(x, name)()
    return g


def _add(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        a = conv(a, "i") if isinstance(a, SBool) else a
        b = conv(b, "i") if isinstance(b, SBool) else b
    return a + b


def _mul(a, b):
    # bool * number: zero or the number
    for p, q in ((a, b), (b, a)):
        if isinstance(p, SBool):
            if isinstance(q, (bool, SBool)):
                return s_and(p, q)
            if isinstance(q, Sym) and q.is_const() and q.const() == 0:
                return q
            return q if bool(p) else (lift(0) if isinstance(q, (Sym, float)) else 0)
        if isinstance(p, bool):
            if isinstance(q, (bool, SBool)):
                return s_and(p, q)
    return a * b


def _pow(a, b):
    if isinstance(a, int) and isinstance(b, int) and b >= 0:
        return a ** b
    if isinstance(a, float):
        return a ** float(b)
    return lift(a) ** b


def _reciprocal(a):
    return f_div(lift(1), a if isinstance(a, float) else lift(a))


def _truediv(a, b):
    a = a if isinstance(a, float) else lift(a)
    b = b if isinstance(b, float) else lift(b)
    return f_div(a, b)


def _intdiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b if b else 0
    return s_floor(_truediv(a, b))


def _mod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    return s_mod(a, b)


def _sub(a, b):
    return conv(a, "i") - conv(b, "i") if isinstance(a, SBool) or isinstance(b, SBool) else a - b


def _floor(x):
    return x if isinstance(x, (float, int)) else s_floor(x)


def _ceil(x):
    return x if isinstance(x, (float, int)) else s_ceil(x)


def _round_even(x):
    x = lift(x)
    if isinstance(x, float):
        return x
    r = s_floor(x + Fraction(1, 2))
    return r


def _exp(x):
    x = x if isinstance(x, float) else lift(x)
    if isinstance(x, float):
        return lift(math.exp(x)) if x < 0 and math.isinf(x) else x
    return sym.s_exp(x)


def _number(x):
    """numbers that are no polynomial in the literals of the code are rounded before a special function is applied"""
    if isinstance(x, float) or x.is_const():
        return x
    v = sym.const_value(x)
    return x if v is None else sym.Sym(sym.rf_const(Fraction(v)))


def _num_special(name, fn):
    def g(*xs):
        xs = [_number(lift(x)) for x in xs]
        if all(isinstance(x, float) or x.is_const() for x in xs):
            return lift(float(fn(*[float(x) for x in xs])))
        if any(isinstance(x, float) for x in xs):
            raise Unsupported("%s of nan/inf" % name)
        return uf(name, xs)[0]
    return g


def _special():
    import scipy.special as sp
    return {
        "GammaLn": sp.gammaln, "Erf": sp.erf, "Erfc": sp.erfc, "Erfcx": sp.erfcx, "Psi": sp.psi,
        "Erfinv": sp.erfinv, "Erfcinv": sp.erfcinv, "Gamma": sp.gamma, "BetaInc": sp.betainc,
        "TriGamma": lambda x: sp.polygamma(1, x),
    }


def _log1mexp(x):
    x = x if isinstance(x, float) else _number(lift(x))
    if isinstance(x, float):
        return lift(0) if x < 0 else NAN
    if x.is_const() and x.const() >= 0:
        return float("-inf") if x.const() == 0 else NAN
    if x.is_const():
        return lift(math.log(-math.expm1(float(x.const()))))
    return sym.s_log(1 - sym.s_exp(x))


def _betainc(a, b, x):
    """regularised incomplete beta function: an unknown function that increases from 0 to 1 with x"""
    a, b, x = _number(lift(a)), _number(lift(b)), _number(lift(x))
    if not isinstance(x, float) and x.is_const():
        if x.const() <= 0:
            return lift(0) if x.const() == 0 else NAN
        if x.const() >= 1:
            return lift(1) if x.const() == 1 else NAN
    xs = [lift(a), lift(b), x]
    if any(isinstance(q, float) for q in xs) or all(q.is_const() for q in xs):
        return _num_special("BetaInc", _special()["BetaInc"])(*xs)

    def axioms(args, r):
        p, q, y = args
        r = r[0]
        ok = s_and(p > 0, s_and(q > 0, s_and(y > 0, y < 1)))
        yield s_or(s_not(ok), s_and(r > 0, r < 1))
        for (p2, q2, y2), (r2,) in list(sym.ctx().uf_apps.get("BetaInc", [])):
            if p2.rf.key() == p.rf.key() and q2.rf.key() == q.rf.key() and y2.rf.key() != y.rf.key():
                both = s_and(ok, s_and(y2 > 0, y2 < 1))
                yield s_or(s_not(both), s_or(s_not(y < y2), r < r2))
                yield s_or(s_not(both), s_or(s_not(y2 < y), r2 < r))
    return uf("BetaInc", xs, axioms=axioms)[0]


def _erf(x):
    x = _number(lift(x))
    if isinstance(x, float):
        return lift(1) if x > 0 else lift(-1)
    if x.is_const():
        return _num_special("Erf", _special()["Erf"])(x)

    def axioms(args, r):
        (y,), (r,) = args, r
        yield s_and(r > -1, r < 1)
        yield sym.s_iff(y > 0, r > 0)
        yield sym.s_iff(y < 0, r < 0)
    return uf("Erf", [x], axioms=axioms)[0]


def _erfcx(x):
    x = _number(lift(x))
    if isinstance(x, float):
        return lift(0) if x > 0 else x
    if x.is_const():
        return _num_special("Erfcx", _special()["Erfcx"])(x)
    return uf("Erfcx", [x], axioms=lambda args, r: [r[0] > 0])[0]


def _sign(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN if math.isnan(x) else lift(1 if x > 0 else -1)
    return x.sign()


def _softplus(x):
    return sym.s_log(1 + _exp(x))


def _sigmoid(x):
    return f_div(lift(1), 1 + _exp(-x))


def _logaddexp(*xs):
    return sym.s_log(sum((_exp(x) for x in xs), lift(0)))


SCALAR = {
    "Add": _fold(_add), "Mul": _fold(_mul), "Sub": _sub, "TrueDiv": _truediv, "IntDiv": _intdiv, "Mod": _mod,
    "Pow": _pow, "Neg": lambda a: -a, "Reciprocal": _reciprocal, "Sqr": lambda a: a * a, "Sqrt": _lf("sqrt"),
    "Abs": lambda a: abs(a), "Sign": _sign, "Sgn": _sign,
    "Exp": _exp, "Expm1": lambda x: _exp(x) - 1, "Exp2": lambda x: _exp(x * sym.s_log(lift(2))),
    "Log": _lf("log"), "Log1p": _lf("log1p"), "Log2": _lf("log2"), "Log10": _lf("log10"),
    "Sin": _lf("sin"), "Cos": _lf("cos"), "Tan": _lf("tan"), "ArcSin": _lf("arcsin"), "ArcCos": _lf("arccos"),
    "ArcTan": _lf("arctan"), "ArcTan2": lambda y, x: sym.s_arctan2(y, x),
    "Deg2Rad": _lf("deg2rad"), "Rad2Deg": _lf("rad2deg"),
    "Cosh": lambda x: (_exp(x) + _exp(-x)) / 2, "Sinh": lambda x: (_exp(x) - _exp(-x)) / 2,
    "Tanh": lambda x: f_div(_exp(x) - _exp(-x), _exp(x) + _exp(-x)),
    "Floor": _floor, "Ceil": _ceil, "Trunc": lambda x: x if isinstance(x, (int, float)) else sym.s_trunc(x),
    "RoundHalfToEven": _round_even, "RoundHalfAwayFromZero": _round_even,
    "LT": _cmp("lt"), "LE": _cmp("le"), "GT": _cmp("gt"), "GE": _cmp("ge"), "EQ": _cmp("eq"), "NEQ": _cmp("ne"),
    "AND": _fold(_and), "OR": _fold(_or), "XOR": _fold(_xor), "Invert": _invert,
    "IsNan": lambda x: _isnan(x), "IsInf": lambda x: isinstance(x, float) and math.isinf(x),
    "Switch": switch, "Clip": _clip, "Second": lambda a, b: b, "Identity": lambda a: a, "Cast": lambda a: a,
    "Maximum": _fold(_max), "ScalarMaximum": _fold(_max), "Minimum": _fold(_min), "ScalarMinimum": _fold(_min),
    "Softplus": _softplus, "Sigmoid": _sigmoid, "LogAddExp": _logaddexp,
    "Conj": lambda a: a, "Real": lambda a: a,
    "BetaInc": _betainc, "Log1mexp": _log1mexp,
    "Erfcx": _erfcx, "Erf": _erf, "Erfc": lambda x: 1 - _erf(x),
}


def scalar_fn(op):
    name = type(op).__name__
    f = SCALAR.get(name)
    if f is not None:
        return f
    if name in ("Composite", "ScalarInnerGraphOp"):
        return lambda *xs: run_inner(op.inner_fgraph if hasattr(op, "inner_fgraph") else op.fgraph, xs)
    sp = _special()
    if name in sp:
        return _num_special(name, sp[name])
    raise Unsupported("scalar op %s" % name)


def run_inner(fg, xs):
    env = {v: np.array(x, dtype=object).reshape(()) for v, x in zip(fg.inputs, xs)}
    res = Interp(env).run(list(fg.outputs))
    outs = [r.item() for r in res]
    return outs[0] if len(outs) == 1 else tuple(outs)


# ------------------------------------------------------------------ the interpreter
HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


class Interp:
    def __init__(self, env=None):
        self.env = dict(env or {})
        self.ops_seen = set()

    def run(self, outs):
        for o in outs:
            self.compute(o)
        return [self.env[o] for o in outs]

    def compute(self, var):
        stack = [var]
        while stack:
            v = stack[-1]
            if v in self.env:
                stack.pop()
                continue
            if v.owner is None:
                self.env[v] = self.leaf(v)
                stack.pop()
                continue
            node = v.owner
            if type(node.op).__name__ == "IfElse":
                # only the selected branch is evaluated
                cond = node.inputs[0]
                if cond not in self.env:
                    stack.append(cond)
                    continue
                c = self.env[cond]
                c = bool(c.reshape(-1)[0] if isinstance(c, np.ndarray) else c)
                n = node.op.n_outs
                branch = node.inputs[1:1 + n] if c else node.inputs[1 + n:1 + 2 * n]
                miss = [b for b in branch if b not in self.env]
                if miss:
                    stack.extend(miss)
                    continue
                for o, b in zip(node.outputs, branch):
                    self.env[o] = self.env[b]
                stack.pop()
                continue
            miss = [i for i in node.inputs if i not in self.env]
            if miss:
                stack.extend(miss)
                continue
            res = self.apply(node, [self.env[i] for i in node.inputs])
            for o, r in zip(node.outputs, res):
                self.env[o] = r
            stack.pop()

    def leaf(self, v):
        if isinstance(v, Constant):
            if v.data is None or isinstance(v.data, slice):
                return v.data
            k = dkind(v)
            a = np.asarray(v.data)
            if k == "o" or a.dtype == object:
                return v.data
            return conv_arr(a, k)
        if hasattr(v, "get_value"):
            return conv_arr(np.asarray(v.get_value()), dkind(v))
        raise Unsupported("unbound graph input %s" % v)

    def apply(self, node, ins):
        op = node.op
        name = type(op).__name__
        self.ops_seen.add(name)
        h = None
        for k in type(op).__mro__:
            h = HANDLERS.get(k.__name__)
            if h is not None:
                break
        if h is None:
            return self.fallback(node, ins)
        res = h(self, node, ins)
        if not isinstance(res, (list, tuple)):
            res = [res]
        out = []
        for o, r in zip(node.outputs, res):
            if r is None:
                out.append(None)
                continue
            k = dkind(o)
            out.append(conv_arr(r, k) if k in "fib" else r)
        return out

    def fallback(self, node, ins):
        """an operation without symbolic semantics can still be executed on concrete values"""
        vals = []
        for i, x in zip(node.inputs, ins):
            if isinstance(x, np.ndarray):
                d = i.type.dtype
                flat = [e for e in x.reshape(-1)]
                if any(isinstance(e, SBool) or (isinstance(e, Sym) and not e.is_const()) for e in flat):
                    raise Unsupported("operation %s on symbolic values" % type(node.op).__name__)
                x = np.array([float(e) if isinstance(e, Sym) else e for e in flat], dtype=d).reshape(x.shape)
            vals.append(x)
        st = [[None] for _ in node.outputs]
        node.op.perform(node, vals, st)
        return [conv_arr(np.asarray(s[0]), dkind(o)) for s, o in zip(st, node.outputs)]


@handler("Elemwise")
def _elemwise(I, node, ins):
    sop = node.op.scalar_op
    f = scalar_fn(sop)
    n = len(node.outputs)
    if type(sop).__name__ == "Cast":
        k = dkind(node.outputs[0])
        if k == "i":
            return elementwise(lambda x: (to_int(sym.s_trunc(x)) if isinstance(x, Sym) and not x.is_const()
                                          else (int(x.const()) if isinstance(x, Sym) else conv(x, "i"))), ins[0])
        return elementwise(lambda x: conv(x, k), ins[0])
    if type(sop).__name__ in ("TrueDiv", "Reciprocal", "Sqrt", "Sin", "Cos"):
        ins = [conv_arr(x, "f") for x in ins]
    if n == 1:
        return elementwise(f, *ins)
    outs = elementwise(f, *ins)
    res = [obj(outs.shape) for _ in range(n)]
    for idx in np.ndindex(outs.shape):
        for k in range(n):
            res[k][idx] = outs[idx][k]
    return res


@handler("DimShuffle", "ExpandDims")
def _dimshuffle(I, node, ins):
    op = node.op
    x = ins[0]
    if not hasattr(op, "new_order"):
        return np.expand_dims(x, op.axis)
    order = op.new_order
    drop = [i for i in range(x.ndim) if i not in order]
    for i in drop:
        if x.shape[i] != 1:
            raise ValueError("cannot drop a non-broadcastable dimension")
    perm = [i for i in order if i != "x"]
    y = x.transpose(perm + drop).reshape([x.shape[i] for i in perm])
    shape = [1 if i == "x" else x.shape[i] for i in order]
    return y.reshape(shape)


def _int_index(x):
    if x is None or isinstance(x, (slice, int)):
        return x
    if isinstance(x, np.ndarray):
        return to_int(x) if x.ndim == 0 else x
    return to_int(x)


def _subtensor_idx(node, ins, skip):
    from pytensor.tensor.subtensor import indices_from_subtensor
    idx = indices_from_subtensor(list(ins[skip:]), node.op.idx_list)
    out = []
    for i in idx:
        if isinstance(i, slice):
            out.append(slice(*[None if v is None else _int_index(v) for v in (i.start, i.stop, i.step)]))
        else:
            out.append(_int_index(i))
    return tuple(out)


def _arr(x):
    """numpy indexing of an object array with all-integer indices returns a bare element"""
    if isinstance(x, np.ndarray):
        return x
    a = obj(())
    a[()] = x
    return a


@handler("Subtensor")
def _subtensor(I, node, ins):
    return _arr(ins[0][_subtensor_idx(node, ins, 1)])


@handler("IncSubtensor")
def _incsubtensor(I, node, ins):
    x, y = ins[0].copy(), ins[1]
    idx = _subtensor_idx(node, ins, 2)
    if node.op.set_instead_of_inc:
        x[idx] = y if y.ndim else y.item()
    else:
        v = _arr(x[idx])
        r = elementwise(_add, v, np.broadcast_to(y, v.shape))
        x[idx] = r if r.ndim else r.item()
    return x


def _adv_idx(i):
    if i is None or isinstance(i, slice):
        return i
    if isinstance(i, np.ndarray):
        flat = i.reshape(-1)
        if flat.size and all(isinstance(e, (bool, SBool, np.bool_)) for e in flat):
            return to_bool_arr(i)
        return to_int_arr(i)
    return i


def _fix_adv(node, idx_vars, idx):
    out = []
    for v, i in zip(idx_vars, idx):
        if isinstance(i, np.ndarray) and dkind(v) == "b":
            out.append(to_bool_arr(i))
        elif isinstance(i, slice):
            out.append(slice(*[None if k is None else (to_int(k) if isinstance(k, np.ndarray) else k)
                               for k in (i.start, i.stop, i.step)]))
        else:
            out.append(_adv_idx(i))
    return tuple(out)


@handler("AdvancedSubtensor", "AdvancedSubtensor1")
def _advsub(I, node, ins):
    return _arr(ins[0][_fix_adv(node, node.inputs[1:], ins[1:])])


@handler("AdvancedIncSubtensor", "AdvancedIncSubtensor1")
def _advinc(I, node, ins):
    x, y = ins[0].copy(), ins[1]
    idx = _fix_adv(node, node.inputs[2:], ins[2:])
    if node.op.set_instead_of_inc:
        x[idx] = y
    else:
        pos = np.arange(x.size).reshape(x.shape)[idx]
        yb = np.broadcast_to(y, pos.shape)
        xf = x.reshape(-1)
        for p, v in zip(np.ravel(pos), yb.reshape(-1)):
            xf[p] = _add(xf[p], v)
        x = xf.reshape(x.shape)
    return x


@handler("MakeSlice")
def _mkslice(I, node, ins):
    return [slice(*[None if v is None else to_int(v) if isinstance(v, np.ndarray) else v for v in ins])]


@handler("Join")
def _join(I, node, ins):
    return np.concatenate(ins[1:], axis=to_int(ins[0]))


@handler("MakeVector")
def _makevector(I, node, ins):
    out = obj((len(ins),))
    for i, x in enumerate(ins):
        out[i] = x.item()
    return out


@handler("Reshape")
def _reshape(I, node, ins):
    return ins[0].reshape([to_int(x) for x in ins[1].reshape(-1)])


@handler("Alloc")
def _alloc(I, node, ins):
    return np.broadcast_to(ins[0], tuple(to_int(x) for x in ins[1:])).copy()


@handler("AllocEmpty")
def _allocempty(I, node, ins):
    out = obj(tuple(to_int(x) for x in ins))
    out[...] = lift(0)
    return out


@handler("BroadcastTo")
def _broadcastto(I, node, ins):
    return np.broadcast_to(ins[0], tuple(to_int(x) for x in ins[1:])).copy()


@handler("Shape")
def _shape(I, node, ins):
    out = obj((ins[0].ndim,))
    for i, s in enumerate(ins[0].shape):
        out[i] = int(s)
    return out


@handler("Shape_i")
def _shape_i(I, node, ins):
    return _arr(int(ins[0].shape[node.op.i]))


@handler("SpecifyShape", "TensorFromScalar", "ScalarFromTensor", "Unbroadcast", "DeepCopyOp", "ViewOp", "OutputGuard",
         "CpuContiguous", "ZeroGrad", "ConsiderConstant", "DisconnectedGrad")
def _ident(I, node, ins):
    return ins[0]


@handler("ScalarOp")
def _scalarop(I, node, ins):
    f = scalar_fn(node.op)
    r = f(*[x.item() if isinstance(x, np.ndarray) else x for x in ins])
    if isinstance(r, tuple):
        return [_arr(x) for x in r]
    return [_arr(r)]


@handler("CheckAndRaise")
def _assert(I, node, ins):
    for c in ins[1:]:
        for e in c.reshape(-1):
            if not bool(conv(e, "b")):
                raise node.op.exc_type(node.op.msg)
    return ins[0]


@handler("CAReduce")
def _careduce(I, node, ins):
    op = node.op
    x = ins[0]
    sop = type(op.scalar_op).__name__
    f = scalar_fn(op.scalar_op)
    axis = op.axis
    if axis is None:
        axis = tuple(range(x.ndim))
    elif isinstance(axis, int):
        axis = (axis,)
    axis = tuple(a % x.ndim for a in axis)
    keep = [i for i in range(x.ndim) if i not in axis]
    y = x.transpose(keep + list(axis)).reshape([x.shape[i] for i in keep] + [int(np.prod([x.shape[i] for i in axis]))])
    out = obj(y.shape[:-1])
    k = dkind(node.inputs[0])
    ident = {"Add": 0, "Mul": 1, "AND": True, "OR": False}.get(sop)
    if ident is not None and sop in ("Add", "Mul") and dkind(node.outputs[0]) == "f":
        ident = lift(ident)
    for idx in np.ndindex(out.shape):
        v = list(y[idx])
        if sop in ("AND", "OR") and k == "b":
            v = [conv(e, "b") for e in v]
        r = ident
        for n, e in enumerate(v):
            r = e if (r is None or (n == 0 and r is ident)) else f(r, e)
        if r is None:
            raise ValueError("zero-size array to reduction operation")
        out[idx] = r
    return out


@handler("Argmax")
def _argmax(I, node, ins):
    op = node.op
    x = ins[0]
    axis = op.axis
    axis = tuple(range(x.ndim)) if axis is None else tuple(a % x.ndim for a in axis)
    keep = [i for i in range(x.ndim) if i not in axis]
    y = x.transpose(keep + list(axis)).reshape([x.shape[i] for i in keep] + [int(np.prod([x.shape[i] for i in axis]))])
    out = obj(y.shape[:-1])
    for idx in np.ndindex(out.shape):
        b = 0
        for k in range(1, y.shape[-1]):
            if bool(lift(y[idx][k]) > y[idx][b]):
                b = k
        out[idx] = b
    return out


@handler("Dot")
def _dot(I, node, ins):
    return _matmul(ins[0], ins[1])


def _matmul(a, b):
    if not (a.size and b.size):
        # shape rules of an empty product; an empty sum is zero
        r = np.dot(np.zeros(a.shape), np.zeros(b.shape))
        out = obj(np.shape(r))
        out[...] = lift(0)
        return out
    return _arr(np.dot(a, b))


@handler("Blockwise")
def _blockwise(I, node, ins):
    op = node.op
    core = type(op.core_op).__name__
    if core == "Dot":
        a, b = ins
        batch = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
        a = np.broadcast_to(a, batch + a.shape[-2:])
        b = np.broadcast_to(b, batch + b.shape[-2:])
        out = obj(batch + (a.shape[-2], b.shape[-1]))
        for idx in np.ndindex(batch):
            out[idx] = np.dot(a[idx], b[idx])
        return out
    return I.fallback(node, ins)


@handler("SearchsortedOp")
def _searchsorted(I, node, ins):
    x, v = ins[0], ins[1]
    side = node.op.side
    if len(ins) > 2:
        x = x[to_int_arr(ins[2])]

    def one(val):
        # numpy's binary search on a sorted array: the first position i such that all earlier entries are < val
        # (side='left') or <= val (side='right')
        n = 0
        for e in x.reshape(-1):
            e = lift(e)
            lo = (e < val) if side == "left" else (e <= val)
            if not bool(lo):
                break
            n += 1
        return n
    return elementwise(one, v)


@handler("ARange")
def _arange(I, node, ins):
    start, stop, step = [x.item() for x in ins]
    k = dkind(node.outputs[0])
    if all(isinstance(x, int) for x in (start, stop, step)):
        vals = list(range(start, stop, step))
    else:
        n = s_ceil(_truediv(lift(stop) - start, step))
        n = max(0, to_int(n))
        vals = [lift(start) + lift(step) * i for i in range(n)]
    out = obj((len(vals),))
    for i, v in enumerate(vals):
        out[i] = v
    return out


@handler("Nonzero")
def _nonzero(I, node, ins):
    m = to_bool_arr(conv_arr(ins[0], "b"))
    return [np.asarray(i, dtype=object) for i in np.nonzero(m)]


@handler("Split")
def _split(I, node, ins):
    x, axis, sizes = ins
    sz = [to_int(s) for s in sizes.reshape(-1)]
    return np.split(x, np.cumsum(sz)[:-1], axis=to_int(axis))


@handler("CumOp")
def _cumop(I, node, ins):
    x = ins[0]
    axis = node.op.axis
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    y = np.moveaxis(x, axis, 0).copy()
    for i in range(1, y.shape[0]):
        y[i] = elementwise(_add if node.op.mode == "add" else _mul, y[i - 1], y[i])
    return np.moveaxis(y, 0, axis)


@handler("Eye")
def _eye(I, node, ins):
    n, m, k = [to_int(x) for x in ins]
    return conv_arr(np.eye(n, m, k), dkind(node.outputs[0]))


@handler("Repeat")
def _repeat(I, node, ins):
    return np.repeat(ins[0], to_int_arr(ins[1]) if ins[1].ndim else to_int(ins[1]), axis=node.op.axis)


@handler("SortOp")
def _sort(I, node, ins):
    axis = ins[1]
    axis = -1 if axis is None else (None if getattr(axis, "data", 1) is None else to_int(axis))
    x = ins[0]
    if x.ndim != 1:
        raise Unsupported("sort of a matrix")
    return _isort(list(x))[0]


@handler("ArgSortOp")
def _argsort(I, node, ins):
    x = ins[0]
    if x.ndim != 1:
        raise Unsupported("argsort of a matrix")
    return _isort(list(x))[1]


def _isort(v):
    idx = []
    for i in range(len(v)):
        j = len(idx)
        while j > 0 and bool(lift(v[idx[j - 1]]) > v[i]):
            j -= 1
        idx.insert(j, i)
    a, b = obj((len(v),)), obj((len(v),))
    for n, i in enumerate(idx):
        a[n], b[n] = v[i], i
    return a, b


@handler("ExtractDiag")
def _extractdiag(I, node, ins):
    return np.diagonal(ins[0], node.op.offset, node.op.axis1, node.op.axis2).copy()


@handler("OpFromGraph")
def _ofg(I, node, ins):
    fg = node.op.fgraph
    sub = Interp(dict(zip(fg.inputs, ins)))
    res = sub.run(list(fg.outputs))
    I.ops_seen |= sub.ops_seen
    return res


@handler("SymbolicRandomVariable")
def _srv(I, node, ins):
    raise Unsupported("random variable %s not bound" % node.op)


@handler("RandomVariable")
def _rv(I, node, ins):
    raise Unsupported("random variable %s not bound" % node.op)


# ------------------------------------------------------------------ contracts of the compiled kernels
def kepler_contract(M, e):
    """(sin f, cos f) of the Keplerian orbit with mean anomaly M and eccentricity e

    If M = X - e sin X (mod 2 pi) for an angle X already named by the harness or the code, X is the eccentric
    anomaly (the equation has one solution for 0 <= e < 1); otherwise a fresh angle is introduced.
    """
    M, e = lift(M), lift(e)
    if isinstance(M, float) or isinstance(e, float):
        return NAN, NAN
    if e.is_const() and e.const() == 0:
        c, s = sym.cis(M)
        return s, c
    E = _find_E(M, e)
    if E is None:
        k, terms = sym.split_angle(M)
        Mn = lift(0) + sym.pi() * k
        for c, mono in terms:
            Mn = Mn + Sym(mono) * c
        key = ("kepler", Mn.rf.key(), e.rf.key())
        a = T.get(key)
        if a is None:
            n = len(T.atoms)
            s_, c_ = sym.new_pair("E%d" % n)
            a = sym.angle_atom("E%d" % n, key, rf_atom(c_), rf_atom(s_), (-10 ** 6, 10 ** 6))
            a.info["range"] = None
            a.cons.clear()
            E = Sym(rf_atom(a))
            ctx().axiom((E - e * Sym(rf_atom(s_))) == Mn)
            # same sense of rotation
        E = Sym(rf_atom(a))
    cE, sE = sym.cis(E)
    den = 1 - e * cE
    if not is_bool(den > 0):
        ctx().axiom(den > 0)
    return sym.s_root(1 - e * e, 2) * sE / den, (cE - e) / den


def _find_E(M, e):
    k, terms = sym.split_angle(M)
    X = sym.pi() * k
    rest = lift(0)
    for c, mono in terms:
        a = sym._atom_of(mono)
        if a is not None and a.kind == "angle":
            X = X + Sym(mono) * c
        else:
            rest = rest + Sym(mono) * c
    try:
        r = rest + e * sym.s_sin(X)
    except Unsupported:
        return None
    if r.is_const() and r.const() == 0:
        return X
    return None


@handler("Kepler")
def _kepler(I, node, ins):
    M, e = ins
    if M.shape != e.shape:
        raise ValueError("dimension mismatch in the Kepler solver")
    s, c = obj(M.shape), obj(M.shape)
    for idx in np.ndindex(M.shape):
        s[idx], c[idx] = kepler_contract(M[idx], e[idx])
    return [s, c]


def quad_contract(b, r):
    def ax(args, out):
        b, r = args
        # nothing is occulted for b >= 1 + r: solution vector of the full disc
        return [s_implies(b >= 1 + r, s_and(out[0] == sym.pi(), out[1] == sym.pi() * Fraction(2, 3), out[2] == 0)),
                s_implies(r == 0, s_and(out[0] == sym.pi(), out[1] == sym.pi() * Fraction(2, 3), out[2] == 0)),
                s_implies(r - 1 >= b, s_and(out[0] == 0, out[1] == 0, out[2] == 0))]
    if isinstance(lift(b), float) or isinstance(lift(r), float):
        return (NAN,) * 3
    b, r = abs(lift(b)), lift(r)
    # opts["quad_split"] = False: leave the case distinction to the axioms
    if ctx().opts.get("quad_split", True) and ctx().decide(b >= 1 + r):
        return sym.pi(), sym.pi() * Fraction(2, 3), lift(0)
    return uf("quad", (b, r), 3, ax)


@handler("QuadSolutionVector")
def _quad(I, node, ins):
    b, r = ins
    if b.shape != r.shape:
        raise ValueError("dimension mismatch in quad_solution_vector")
    s = obj(b.shape + (3,))
    for idx in np.ndindex(b.shape):
        s[idx] = list(quad_contract(b[idx], r[idx]))
    # derivatives: opaque
    d = obj(b.shape + (3,))
    d[...] = NAN
    return [s, d, d.copy()]




def contact_contract(*args, define=None):
    """(M_left, M_right, flag): opaque values; the harness states what it needs of them

    define: the harness names the two (opaque, arbitrary) values by expressions of its own that take every real value
    """
    args = tuple(lift(x) for x in args)
    key = ("uf", "contact") + tuple(a.rf.key() for a in args)
    if define is not None and T.get(key) is None:
        at = T.new("contact_flag_%d" % len(T.atoms), "uf", info={"uf": "contact", "args": args, "i": 2})
        T.by_key[key] = (define[0], define[1], Sym(rf_atom(at)))
        ctx().uf_apps.setdefault("contact", []).append((args, T.by_key[key]))
    out = uf("contact", args, 3)
    fl = 0 if ctx().decide(out[2] == 0) else 1
    return out[0], out[1], fl


@handler("ContactPoints")
def _contact(I, node, ins):
    sh = ins[0].shape
    for x in ins:
        if x.shape != sh:
            raise ValueError("dimension mismatch in contact_points")
    l, r, f = obj(sh), obj(sh), obj(sh)
    for idx in np.ndindex(sh):
        l[idx], r[idx], f[idx] = contact_contract(*[x[idx] for x in ins])
    return [l, r, f]
