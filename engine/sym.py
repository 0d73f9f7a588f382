"""Symbolic real numbers and boolean conditions, path forking, and the translation to the SMT solver.

A harness runs once per feasible path.  ``Sym`` is an exact rational function over atoms (see alg.py); every
branch of the executed code (``bool(cond)``, a pytensor switch, a root of a negative number, ...) is decided by
z3 under the path condition, and if both sides are feasible the path forks.
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3

from . import alg
from .alg import (RF, T, norm, p_add, p_const, p_factor, p_is_const, p_constval, p_mul, p_neg, p_key, p_scale,
                  p_atoms, rf_add, rf_atom, rf_const, rf_div, rf_inv, rf_mul, rf_neg, rf_powi, rf_sub, rf_terms,
                  root_int, rf_str)

NAN = float("nan")


class PathDead(BaseException):
    """the current path turned out to be infeasible"""


class Unsupported(Exception):
    """the executed code left the fragment this engine encodes"""


# ------------------------------------------------------------------ conditions
class SBool:
    __slots__ = ("op", "args", "_key")

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._key = None

    def key(self):
        if self._key is None:
            if self.op in ("<", "<=", "=="):
                self._key = (self.op, self.args[0].key())
            else:
                self._key = (self.op,) + tuple(a.key() for a in self.args)
        return self._key

    def __bool__(self):
        return ctx().decide(self)

    def __and__(self, o):
        return s_and(self, o)
    __rand__ = __and__
    __mul__ = __and__
    __rmul__ = __and__

    def __or__(self, o):
        return s_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return s_or(s_and(self, s_not(o)), s_and(s_not(self), o))
    __rxor__ = __xor__

    def __invert__(self):
        return s_not(self)

    logical_not = __invert__

    def __eq__(self, o):
        return s_not(self ^ o)

    def __ne__(self, o):
        return self ^ o

    __hash__ = object.__hash__

    # a condition used as a number: fork
    def _num(self):
        return 1 if bool(self) else 0

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __int__(self):
        return self._num()

    def __repr__(self):
        if self.op in ("<", "<=", "=="):
            return "(%s %s 0)" % (rf_str(self.args[0]), self.op)
        return "(%s %s)" % (self.op, " ".join(map(repr, self.args)))


def is_bool(x):
    return isinstance(x, (bool, np.bool_))


def s_not(a):
    if is_bool(a):
        return not a
    if not isinstance(a, SBool):
        return not bool(a)
    if a.op == "not":
        return a.args[0]
    if a.op == "<":
        return SBool("<=", (rf_neg(a.args[0]),))
    if a.op == "<=":
        return SBool("<", (rf_neg(a.args[0]),))
    return SBool("not", (a,))


def s_and(*xs):
    out = []
    for x in xs:
        if is_bool(x):
            if not x:
                return False
            continue
        if not isinstance(x, SBool):
            if not bool(x):
                return False
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SBool("and", tuple(out))


def s_or(*xs):
    return s_not(s_and(*[s_not(x) for x in xs]))


def s_implies(a, b):
    return s_or(s_not(a), b)


def s_iff(a, b):
    return s_and(s_implies(a, b), s_implies(b, a))


# ------------------------------------------------------------------ constants
_const_cache = {}
_named = []     # (name, float value)


def register_named(name, value):
    value = float(value)
    for n, v in _named:
        if n == name:
            return
    _named.append((name, value))
    _const_cache.clear()


def _simple(v, rel=2e-15):
    """a rational with a short decimal or small denominator within rounding of v, else None"""
    if v == 0:
        return Fraction(0)
    if v == int(v) and abs(v) < 1e15:
        return Fraction(int(v))
    r = repr(v)
    mant = r.split("e")[0].replace(".", "").replace("-", "").strip("0")
    if len(mant) <= 12:
        return Fraction(r)
    f = Fraction(v).limit_denominator(2000)
    if f != 0 and abs(f.numerator) < 10 ** 6 and abs(float(f) - v) <= rel * abs(v):
        return f
    if abs(v) < 1:
        f = 1 / Fraction(1 / v).limit_denominator(2000)
        if f.denominator < 10 ** 6 and abs(float(f) - v) <= rel * abs(v):
            return f
    # short decimal up to a few ulps
    f = Fraction("%.11e" % v)
    if abs(float(f) - v) <= rel * abs(v):
        return f
    return None


def const_parts(v):
    """(rational, [(name, exponent)]) with value v up to rounding"""
    v = float(v)
    snap = _ctx.opts.get("snap") if _ctx is not None else None
    if snap and abs(v) <= 64:
        # nodes and weights of a rule: rationals up to the rounding of a few operations
        f = Fraction(v).limit_denominator(snap)
        if abs(float(f) - v) <= 5e-16 * max(1, abs(v)):
            return (f, ())
    if v in _const_cache:
        return _const_cache[v]
    res = None
    f = _simple(v)
    if f is not None:
        res = (f, ())
    if res is None:
        for k in (1, -1, 2, -2, 3, -3):
            f = _simple(v / math.pi ** k)
            if f is not None and f.denominator <= 10000 and abs(f.numerator) <= 10 ** 6:
                res = (f, (("pi", k),))
                break
    if res is None:
        for q in (2, 3):
            f = _simple(v ** 2 / q) if q != 2 or True else None
            for k in (0, 1):
                w = v / math.sqrt(q) / math.pi ** k
                f = _simple(w)
                if f is not None and f.denominator <= 1000 and abs(f.numerator) <= 1000:
                    res = (f, (("sqrt%d" % q, 1),) + ((("pi", k),) if k else ()))
                    break
            if res:
                break
    if res is None:
        for n, val in _named:
            for e in (1, -1, 2, -2, Fraction(1, 2), Fraction(1, 3)):
                for k in (0, 1, -1, 2, -2):
                    f = _simple(v / val ** float(e) / math.pi ** k)
                    if f is not None and f.denominator <= 2000 and abs(f.numerator) <= 10 ** 6:
                        res = (f, ((n, e),) + ((("pi", k),) if k else ()))
                        break
                if res:
                    break
            if res:
                break
    if res is None:
        for i, (n, val) in enumerate(_named):
            for n2, val2 in _named[i + 1:]:
                for e, e2 in ((1, 1), (1, -1), (-1, 1)):
                    f = _simple(v / val ** e / val2 ** e2)
                    if f is not None and f.denominator <= 100 and abs(f.numerator) <= 10 ** 4:
                        res = (f, ((n, e), (n2, e2)))
                        break
                if res:
                    break
            if res:
                break
    if res is None:
        res = (Fraction(v), ())
    if len(_const_cache) < 20000:
        _const_cache[v] = res
    return res


def named_atom(name):
    a = T.get(("const", name))
    if a is None:
        if name == "pi":
            a = T.new("pi", "const", key=("const", name), sign="+")
            a.info["value"] = math.pi
        elif name.startswith("sqrt") and name[4:].isdigit():
            n = int(name[4:])
            return named_root(n)
        else:
            val = dict(_named)[name]
            a = T.new(name, "const", key=("const", name), sign="+" if val > 0 else None)
            a.info["value"] = val
        v = Fraction(a.info["value"])
        w = abs(v) / 10 ** 15
        p = alg.p_atom(a)
        a.cons.append((">=", p_add(p, p_const(-(v - w)))))
        a.cons.append(("<=", p_add(p, p_const(-(v + w)))))
    return a


def named_root(n):
    return root_of_poly(p_const(n), 2)


def pi():
    return Sym(rf_atom(named_atom("pi")))


def named(name):
    return Sym(rf_atom(named_atom(name)))


def lift(x):
    """python / numpy number -> Sym (nan and inf stay floats)"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SBool):
        return Sym(rf_const(x._num()))
    if isinstance(x, (bool, np.bool_)):
        return Sym(rf_const(int(x)))
    if isinstance(x, (int, np.integer)):
        return Sym(rf_const(int(x)))
    if isinstance(x, Fraction):
        return Sym(rf_const(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if not math.isfinite(x):
            return x
        f, parts = const_parts(x)
        r = rf_const(f)
        for n, e in parts:
            a = Sym(rf_atom(named_atom(n)))
            if e == int(e):
                r = rf_mul(r, rf_powi(a.rf, int(e)))
            else:
                r = rf_mul(r, a.pow_frac(Fraction(e)).rf)
        return Sym(r)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise Unsupported("cannot lift %r" % (type(x),))


def is_num(x):
    return isinstance(x, (Sym, SBool, bool, np.bool_, int, float, Fraction, np.integer, np.floating))


# ------------------------------------------------------------------ symbolic numbers
def _wrap2(f):
    def g(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if not is_num(o):
            return NotImplemented
        o = lift(o)
        return f(self, o)
    return g


class Sym:
    __slots__ = ("rf", "nn")
    __array_priority__ = 0

    def __init__(self, rf, nn=False):
        self.rf = rf
        self.nn = nn          # known to be >= 0 by construction (squares, roots, and their sums, products, quotients)

    def nonneg(self):
        return self.nn or (self.is_const() and self.const() >= 0)

    # -- queries
    def is_const(self):
        return self.rf.is_const()

    def const(self):
        return self.rf.const()

    def __repr__(self):
        return rf_str(self.rf)

    def __hash__(self):
        return hash(self.rf.key())

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("symbolic value used as a float: %s" % self)

    def __int__(self):
        return truncate_int(self)

    def __index__(self):
        return concretize_int(self)

    def __bool__(self):
        return bool(self != 0)

    # -- arithmetic
    def __pos__(self):
        return self

    def __neg__(self):
        return Sym(rf_neg(self.rf))

    @_wrap2
    def __add__(self, o):
        if isinstance(o, float):
            return o
        return Sym(rf_add(self.rf, o.rf), self.nonneg() and o.nonneg())
    __radd__ = __add__

    @_wrap2
    def __sub__(self, o):
        if isinstance(o, float):
            return -o
        return Sym(rf_sub(self.rf, o.rf))

    @_wrap2
    def __rsub__(self, o):
        if isinstance(o, float):
            return o
        return Sym(rf_sub(o.rf, self.rf))

    @_wrap2
    def __mul__(self, o):
        if isinstance(o, float):
            return mul_inf(o, self)
        nn = self is o or (self.nonneg() and o.nonneg()) or (
            not self.is_const() and self.rf.key() == o.rf.key())
        return Sym(rf_mul(self.rf, o.rf), nn)
    __rmul__ = __mul__

    @_wrap2
    def __truediv__(self, o):
        if isinstance(o, float):
            return NAN if math.isnan(o) else lift(0)
        return div(self, o)

    @_wrap2
    def __rtruediv__(self, o):
        if isinstance(o, float):
            return mul_inf(o, self)
        return div(o, self)

    @_wrap2
    def __mod__(self, o):
        return s_mod(self, o)

    @_wrap2
    def __rmod__(self, o):
        return s_mod(o, self)

    @_wrap2
    def __floordiv__(self, o):
        return s_floor(div(self, o))

    @_wrap2
    def __rfloordiv__(self, o):
        return s_floor(div(o, self))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = lift(o)
        if isinstance(o, float):
            raise Unsupported("power inf/nan")
        if o.is_const():
            e = o.const()
            if e.denominator == 1:
                n = int(e)
                if n < 0:
                    return div(lift(1), self ** (-n))
                return Sym(rf_powi(self.rf, n), n % 2 == 0 or self.nonneg())
            if e.denominator > 12:
                e = e.limit_denominator(12)
            return self.pow_frac(e)
        # x^y = exp(y log x)
        return s_exp(o * s_log(self))

    def __rpow__(self, o):
        return lift(o) ** self

    def pow_frac(self, e):
        r = s_root(self, e.denominator)
        if isinstance(r, float):
            return r
        n = e.numerator
        if n < 0:
            return div(lift(1), Sym(rf_powi(r.rf, -n)))
        return Sym(rf_powi(r.rf, n))

    def __abs__(self):
        if self.is_const():
            return lift(abs(self.const()))
        if len(self.rf.num) == 1 and not self.rf.den:
            # |k * x^even| needs no decision
            pass
        if self.nn:
            return self
        return self if ctx().decide(self >= 0) else -self

    # -- comparisons
    @_wrap2
    def __lt__(self, o):
        if isinstance(o, float):
            return o > 0 and not math.isnan(o)
        return mk_cmp("<", rf_sub(self.rf, o.rf))

    @_wrap2
    def __le__(self, o):
        if isinstance(o, float):
            return o > 0 and not math.isnan(o)
        return mk_cmp("<=", rf_sub(self.rf, o.rf))

    @_wrap2
    def __gt__(self, o):
        if isinstance(o, float):
            return o < 0 and not math.isnan(o)
        return mk_cmp("<", rf_sub(o.rf, self.rf))

    @_wrap2
    def __ge__(self, o):
        if isinstance(o, float):
            return o < 0 and not math.isnan(o)
        return mk_cmp("<=", rf_sub(o.rf, self.rf))

    def __eq__(self, o):
        if isinstance(o, np.ndarray) or not is_num(o):
            return NotImplemented
        o = lift(o)
        if isinstance(o, float):
            return False
        return mk_cmp("==", rf_sub(self.rf, o.rf))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return s_not(r)

    # -- numpy object-array protocol
    def sqrt(self):
        return s_root(self, 2)

    def cbrt(self):
        return s_root(self, 3)

    def square(self):
        return self * self

    def sin(self):
        return s_sin(self)

    def cos(self):
        return s_cos(self)

    def tan(self):
        return div(s_sin(self), s_cos(self))

    def arcsin(self):
        return s_arcsin(self)

    def arccos(self):
        return s_arccos(self)

    def arctan(self):
        return s_arctan(self)

    def arctan2(self, o):
        return s_arctan2(self, lift(o))

    def exp(self):
        return s_exp(self)

    def log(self):
        return s_log(self)

    def log1p(self):
        return s_log(self + 1)

    def expm1(self):
        return s_exp(self) - 1

    def log10(self):
        return s_log(self) / s_log(lift(10))

    def log2(self):
        return s_log(self) / s_log(lift(2))

    def floor(self):
        return s_floor(self)

    def ceil(self):
        return s_ceil(self)

    __floor__ = floor
    __ceil__ = ceil

    def __trunc__(self):
        return s_trunc(self)

    def __round__(self, n=None):
        if n:
            raise Unsupported("round to digits")
        return s_floor(self + Fraction(1, 2))

    def rint(self):
        return s_floor(self + Fraction(1, 2))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def deg2rad(self):
        return self * pi() / 180

    radians = deg2rad

    def rad2deg(self):
        return self * 180 / pi()

    degrees = rad2deg

    def sign(self):
        if self > 0:
            return lift(1)
        return lift(-1) if self < 0 else lift(0)


def mul_inf(o, s):
    if math.isnan(o):
        return o
    if s == 0:
        return NAN
    return o if s > 0 else -o


def f_div(a, b):
    """division for mixed Sym/float"""
    if isinstance(a, float) or isinstance(b, float):
        a2 = a if isinstance(a, float) else None
        if a2 is not None and isinstance(b, float):
            try:
                return a / b
            except ZeroDivisionError:
                return NAN
        return a / b
    return div(a, b)


def div(a, b):
    if b.is_const():
        if b.const() == 0:
            return div_zero(a)
        return Sym(RF(p_scale(a.rf.num, 1 / b.const()), a.rf.den))
    if not nonzero(b.rf):
        return div_zero(a)
    return Sym(rf_div(a.rf, b.rf))


def div_zero(a):
    if bool(a == 0):
        return NAN
    return float("inf") if bool(a > 0) else float("-inf")


def nonzero(rf):
    return not ctx().decide(mk_cmp("==", RF(rf.num)))


def mk_cmp(op, rf):
    if rf.is_const():
        v = rf.const()
        return bool({"<": v < 0, "<=": v <= 0, "==": v == 0}[op])
    if op == "==":
        rf = RF(rf.num)
    return SBool(op, (rf,))


# ------------------------------------------------------------------ roots
def root_of_poly(f, q):
    """atom for f^(1/q), f >= 0 a polynomial"""
    key = ("root", q, p_key(f))
    a = T.get(key)
    if a is None:
        if p_is_const(f):
            name = "rt%d(%s)" % (q, p_constval(f))
        else:
            name = "rt%d_%d" % (q, len(T.atoms))
        a = T.new(name, "root", key=key, sign="0+", info={"of": f, "q": q})
        a.deg, a.rule = q, f
        m = alg.p_pow({((a.id, 1),): 1}, 1)
        raw = {((a.id, q),): 1}
        a.cons.append(("=", p_add(raw, p_neg(f))))
        a.cons.append((">=", m))
        if p_is_const(f) and p_constval(f) > 0:
            a.sign = "+"
    return a


def _int_root_split(n, q):
    """n = k^q * r"""
    k, r = 1, n
    d = 2
    while d ** q <= r and d < 2000:
        while r % (d ** q) == 0:
            r //= d ** q
            k *= d
        d += 1
    e = root_int(r, q)
    if e is not None and e > 1:
        return k * e, 1
    return k, r


def _trig_alts(f):
    """equivalent forms of a polynomial using sin^2 = 1 - cos^2 for the sine/cosine pairs it contains"""
    out = [f]
    done = set()
    for i in sorted(p_atoms(f)):
        a = T.atoms[i]
        pr = a.info.get("pair")
        if a.kind != "sin" or pr is None or i in done:
            continue
        done.add(i)
        new = []
        for g in out:
            h = {}
            for m, c in g.items():
                d = dict(m)
                e = d.get(i, 0)
                if e < 2:
                    t = {m: c}
                else:
                    qn, rem = divmod(e, 2)
                    d.pop(i)
                    if rem:
                        d[i] = rem
                    t = {tuple(sorted(d.items())): c}
                    base = {(): 1, ((pr, 2),): -1}
                    for _ in range(qn):
                        t = alg.p_mul_raw(t, base)
                h = p_add(h, t)
            new.append(h)
        out = out + new
    return out


def s_root(x, q):
    x = lift(x)
    if isinstance(x, float):
        return x if not x < 0 else NAN
    if x.is_const():
        v = x.const()
        if v < 0:
            return NAN
        if v == 0:
            return lift(0)
        k1, r1 = _int_root_split(v.numerator, q)
        k2, r2 = _int_root_split(v.denominator, q)
        res = lift(Fraction(k1, k2))
        # r1/r2 -> (r1 r2^(q-1))^(1/q) / r2
        rest = r1 * r2 ** (q - 1)
        k3, rest = _int_root_split(rest, q)
        res = res * Fraction(k3, r2)
        if rest != 1:
            res = res * Sym(rf_atom(root_of_poly(p_const(rest), q)))
        return res
    if q % 2 == 0 and not x.nn and not ctx().decide(x >= 0):
        return NAN
    if q % 2 == 1 and not x.nn and not ctx().decide(x >= 0):
        return -s_root(-x, q)
    if ctx().decide_quiet(x == 0):
        return lift(0)
    # x > 0: no factor vanishes and the remaining root is positive
    positive = ctx().known_sign(x.rf.num) != 0
    # denominators: multiply by powers to make them perfect q-th powers
    num = x.rf.num
    den = rf_const(1)
    for f, e in x.rf.den.values():
        up = -(-e // q) * q
        if up != e:
            num = p_mul(num, alg.p_pow(f, up - e))
        d = Sym(RF(dict(f)))
        d = Sym(rf_powi(d.rf, up // q))
        if q % 2 == 0 and (up // q) % 2 == 1:
            d = abs(d)
        den = rf_mul(den, d.rf)
    best = None
    for alt in (_trig_alts(num) if q == 2 else [num]):
        c, fs = p_factor(alt)
        left = sum(1 for f, e in fs if e % q)
        size = sum(len(f) for f, e in fs if e % q)
        if best is None or (left, size) < best[0]:
            best = ((left, size), c, fs)
        if left == 0:
            break
    _, c, fs = best
    out = rf_const(1)
    rest = []
    for f, e in fs:
        k, r = divmod(e, q)
        if k:
            g = Sym(RF(dict(f)))
            g = Sym(norm(rf_powi(g.rf, k)))
            if q % 2 == 0 and k % 2 == 1:
                g = abs(g)
            out = rf_mul(out, g.rf)
        if r:
            rest.append((f, r))
    # sign bookkeeping of the remaining factors: combine those whose sign is unknown
    comb = p_const(1)
    sgn = 1
    singles = []
    # the sign of a single remaining factor follows from x >= 0; large factors are not worth a query
    sign = lambda f: ctx().sign_of(f) if len(rest) > 1 and len(f) <= 16 else ctx().known_sign(f)   # noqa: E731
    for f, r in rest:
        s = sign(f) if r % 2 == 1 else None
        if r % 2 == 0:
            s = sign(f)
            if s == 1 or s == -1:
                singles.append((f if s == 1 else p_neg(f), r))
                continue
        if s == 1:
            singles.append((f, r))
        elif s == -1:
            sgn = -sgn
            singles.append((p_neg(f), r))
        else:
            comb = p_mul(comb, alg.p_pow(f, r))
    cc = c * sgn
    if p_is_const(comb):
        cv = cc * p_constval(comb)
        cr = s_root(lift(cv), q)
        if isinstance(cr, float):
            # the signs found contradict x >= 0 (possible only on an infeasible path)
            raise PathDead()
        out = rf_mul(out, cr.rf)
    else:
        comb = p_scale(comb, 1)
        ac = abs(cc)
        out = rf_mul(out, s_root(lift(ac), q).rf)
        if cc < 0:
            comb = p_neg(comb)
        g = root_of_poly(comb, q)
        if positive and q % 2 == 0 or ctx().known_sign(comb) == 1:
            g.sign = "+"
        out = rf_mul(out, norm(RF(alg.p_atom(g))))
    for f, r in singles:
        g = root_of_poly(f, q)
        if sign(f) == 1 or (positive and q % 2 == 0):
            g.sign = "+"
        out = rf_mul(out, norm(rf_powi(rf_atom(g), r)))
    return Sym(rf_div(norm(out), den), True) if not den.is_const() or den.const() != 1 else Sym(norm(out), True)


# ------------------------------------------------------------------ angles
class AngBase:
    __slots__ = ("d", "s", "c")

    def __init__(self, d, s, c):
        self.d, self.s, self.c = d, s, c      # s, c: RF of sin, cos of mono/d


def _mono_info(mono):
    """(pi exponent, is pure pi, has only integer atoms besides pi)"""
    if mono.den or len(mono.num) != 1:
        return False, False
    (m, c), = mono.num.items()
    pid = T.get(("const", "pi"))
    if pid is None:
        return False, False
    d = dict(m)
    if d.pop(pid.id, 0) != 1:
        return False, False
    if not d:
        return True, False
    return False, all(T.atoms[i].integer for i in d)


def split_angle(x):
    """x -> (k with x = k*pi + ..., [(coef, mono)]) dropping whole turns"""
    k = Fraction(0)
    terms = []
    for c, mono in rf_terms(x.rf):
        pure, intpi = _mono_info(mono)
        if pure:
            k += c
        elif intpi and c.denominator == 1 and c % 2 == 0:
            continue
        else:
            terms.append((c, mono))
    k = k - 2 * (k // 2)
    return k, terms


def new_pair(name, half=None):
    s = T.new("sin_" + name, "sin")
    c = T.new("cos_" + name, "cos")
    s.info["pair"] = c.id
    c.info["pair"] = s.id
    c.deg, c.rule = 2, {(): 1, ((s.id, 2),): -1}
    rel = {(): -1, ((s.id, 2),): 1, ((c.id, 2),): 1}
    c.cons.append(("=", rel))
    s.cons.append(("=", rel))
    for a in (s, c):
        p = alg.p_atom(a)
        a.cons.append(("<=", p_add(p, p_const(-1))))
        a.cons.append((">=", p_add(p, p_const(1))))
    return s, c


def ang_base(mono, q):
    """base pair for angle `mono`, able to represent multiples of mono/q"""
    key = ("ang", mono.key())
    b = T.get(key)
    if b is None:
        name = rf_str(mono)
        if len(name) > 40:
            name = "a%d" % len(T.atoms)
        if q > 1:
            name = "(%s)/%d" % (name, q)
        s, c = new_pair(name)
        info = {"mono": mono, "d": q}
        s.info["angle"] = info
        c.info["angle"] = info
        b = AngBase(q, rf_atom(s), rf_atom(c))
        T.by_key[key] = b
        return b
    if b.d % q == 0:
        return b
    # refine: new unit mono/(b.d * f)
    lcm = b.d * q // math.gcd(b.d, q)
    f = lcm // b.d
    s, c = new_pair("(%s)/%d" % (rf_str(mono)[:30], lcm))
    info = {"mono": mono, "d": lcm}
    s.info["angle"] = info
    c.info["angle"] = info
    nb = AngBase(lcm, rf_atom(s), rf_atom(c))
    cs, sn = _cis_mult(nb.c, nb.s, f)
    old = (b.s, b.c)
    T.by_key[key] = nb
    for o, new in ((old[0], sn), (old[1], cs)):
        if len(o.num) == 1 and not o.den:
            (m, co), = o.num.items()
            if len(m) == 1 and m[0][1] == 1 and co == 1 and T.atoms[m[0][0]].kind in ("sin", "cos") \
                    and not new.den:
                a = T.atoms[m[0][0]]
                # the old atom is now a polynomial of the new ones
                if not (p_atoms(new.num) & {a.id}):
                    a.deg, a.rule = 1, new.num
                    a.cons.append(("=", p_add({m: 1}, p_neg(new.num))))
                    continue
        rel = rf_sub(o, new)
        s.cons.append(("=", rel.num))
    # theta/2 of an angle with known range
    at = _atom_of(mono)
    if at is not None and at.info.get("range") is not None and f % 2 == 0 and b.d == 1:
        lo, hi = at.info["range"]
        if lo >= -1 and hi <= 1:
            c.cons.append((">=", alg.p_atom(c)))
        if lo >= 0 and hi <= 2:
            s.cons.append((">=", alg.p_atom(s)))
    return nb


def _atom_of(mono):
    if mono.den or len(mono.num) != 1:
        return None
    (m, c), = mono.num.items()
    if len(m) == 1 and m[0][1] == 1:
        return T.atoms[m[0][0]]
    return None


def _cis_mult(c, s, n):
    """cos, sin of n times the angle"""
    if n < 0:
        cs, sn = _cis_mult(c, s, -n)
        return cs, rf_neg(sn)
    rc, rs = rf_const(1), rf_const(0)
    if n > 24:
        raise Unsupported("angle multiple %d" % n)
    for _ in range(n):
        rc, rs = rf_sub(rf_mul(rc, c), rf_mul(rs, s)), rf_add(rf_mul(rc, s), rf_mul(rs, c))
    return rc, rs


def cis(x):
    """(cos, sin) of a Sym, as Syms"""
    x = lift(x)
    if isinstance(x, float):
        return NAN, NAN
    k, terms = split_angle(x)
    rc, rs = _cis_pi(k)
    for c, mono in terms:
        b = ang_base(mono, c.denominator)
        n = int(c * b.d)
        if abs(n) > 24:
            # a rapidly rotating multiple (e.g. sin(1000 t)): give it its own base
            mono2 = Sym(mono) * c
            key = ("ang", ("x", mono2.rf.key()))
            bb = T.get(key)
            if bb is None:
                s_, c_ = new_pair("big%d" % len(T.atoms))
                bb = AngBase(1, rf_atom(s_), rf_atom(c_))
                T.by_key[key] = bb
            tc, ts = bb.c, bb.s
        else:
            tc, ts = _cis_mult(b.c, b.s, n)
        rc, rs = rf_sub(rf_mul(rc, tc), rf_mul(rs, ts)), rf_add(rf_mul(rc, ts), rf_mul(rs, tc))
    return Sym(rc), Sym(rs)


def _cis_pi(k):
    """cos, sin of k*pi, 0 <= k < 2"""
    one = rf_const(1)
    zero = rf_const(0)
    q = k * 2
    if q.denominator == 1:
        return [(one, zero), (zero, one), (rf_const(-1), zero), (zero, rf_const(-1))][int(q) % 4]
    if (k * 12).denominator == 1:
        n = int(k * 12)
        half = Fraction(1, 2)
        s2 = rf_mul(rf_const(half), s_root(lift(2), 2).rf)
        s3 = rf_mul(rf_const(half), s_root(lift(3), 2).rf)
        h = rf_const(half)
        quad, rem = divmod(n, 6)
        tab = {0: (one, zero), 2: (s3, h), 3: (s2, s2), 4: (h, s3)}
        if rem in tab:
            c, s = tab[rem]
            for _ in range(quad):
                c, s = rf_neg(s), c
            return c, s
    mono = rf_atom(named_atom("pi"))
    b = ang_base(mono, k.denominator)
    return _cis_mult(b.c, b.s, int(k * b.d))


def s_sin(x):
    return cis(x)[1]


def s_cos(x):
    return cis(x)[0]


def angle_atom(name, key, c, s, rng):
    """an angle with known cosine and sine (RF) lying in [lo, hi] * pi"""
    a = T.new(name, "angle", key=key, info={"range": rng, "cs": (c, s)})
    mono = rf_atom(a)
    T.by_key[("ang", mono.key())] = AngBase(1, s, c)
    _range_cons(a, rng)
    return a


def _range_cons(a, rng):
    p = alg.p_atom(a)
    pp = alg.p_atom(named_atom("pi"))
    lo, hi = rng
    a.cons.append((">=", p_add(p, p_scale(pp, -Fraction(lo)))))
    a.cons.append(("<=", p_add(p, p_scale(pp, -Fraction(hi)))))


def _find_angle(c, s, lo, hi):
    """an existing angle whose value is certainly the one with this cosine/sine in (lo, hi]*pi"""
    for a in T.atoms:
        if a.kind != "angle" or a.info.get("range") is None:
            continue
        l, h = a.info["range"]
        if l < lo or h > hi:
            continue
        b = T.get(("ang", rf_atom(a).key()))
        if b is None:
            continue
        bc, bs = _cis_mult(b.c, b.s, b.d) if b.d != 1 else (b.c, b.s)
        if bc.key() == c.key() and bs.key() == s.key():
            return Sym(rf_atom(a))
        if a.info.get("sym") and bc.key() == c.key() and rf_neg(bs).key() == s.key():
            return -Sym(rf_atom(a))
    return None


def s_arctan2(y, x):
    y, x = lift(y), lift(x)
    if isinstance(y, float) or isinstance(x, float):
        return NAN
    if y.is_const() and x.is_const():
        cv, sv = x.const(), y.const()
        if cv == 0 and sv == 0:
            return lift(0)
        if sv == 0:
            return lift(0) if cv > 0 else pi()
        if cv == 0:
            return pi() / 2 if sv > 0 else -pi() / 2
    h2 = x * x + y * y
    if not h2.is_const():
        # a perfect square is zero where its root is
        fs = p_factor(h2.rf.num)[1]
        part = [f for f, e in fs if e % 2]
        if part or not fs:
            zero = ctx().decide(h2 == 0)
        else:
            zero = any(ctx().decide(Sym(RF(dict(f))) == 0) for f, e in fs)
        if zero:
            return lift(0)
        ctx()._learn((-h2 < 0), True)
    h = s_root(h2, 2)
    if isinstance(h, float) or (h.is_const() and h.const() == 0):
        raise PathDead()
    c, s = div(x, h), div(y, h)
    if s.is_const() and s.const() == 0:
        return lift(0) if ctx().decide(c > 0) else pi()
    if c.is_const() and c.const() == 0:
        return pi() / 2 if ctx().decide(s > 0) else -pi() / 2
    f = _find_angle(c.rf, s.rf, -1, 1)
    if f is not None:
        return f
    key = ("atan2", c.rf.key(), s.rf.key())
    a = T.get(key)
    if a is None:
        a = angle_atom("atan2_%d" % len(T.atoms), key, c.rf, s.rf, (-1, 1))
    return Sym(rf_atom(a))


def s_arccos(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN
    if x.is_const():
        t = {Fraction(0): Fraction(1, 2), Fraction(1): Fraction(0), Fraction(-1): Fraction(1),
             Fraction(1, 2): Fraction(1, 3), Fraction(-1, 2): Fraction(2, 3)}.get(x.const())
        if t is not None:
            return pi() * t
    if not ctx().decide(s_and(x <= 1, x >= -1)):
        return NAN
    s = s_root(Sym((1 - x * x).rf, True), 2)
    f = _find_angle(x.rf, s.rf, 0, 1)
    if f is not None:
        return f
    key = ("acos", x.rf.key())
    a = T.get(key)
    if a is None:
        a = angle_atom("acos_%d" % len(T.atoms), key, x.rf, s.rf, (0, 1))
    return Sym(rf_atom(a))


def s_arcsin(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN
    if x.is_const():
        t = {Fraction(0): Fraction(0), Fraction(1): Fraction(1, 2), Fraction(-1): Fraction(-1, 2),
             Fraction(1, 2): Fraction(1, 6), Fraction(-1, 2): Fraction(-1, 6)}.get(x.const())
        if t is not None:
            return pi() * t
    if not ctx().decide(s_and(x <= 1, x >= -1)):
        return NAN
    c = s_root(Sym((1 - x * x).rf, True), 2)
    f = _find_angle(c.rf, x.rf, Fraction(-1, 2), Fraction(1, 2))
    if f is not None:
        return f
    key = ("asin", x.rf.key())
    a = T.get(key)
    if a is None:
        a = angle_atom("asin_%d" % len(T.atoms), key, c.rf, x.rf, (Fraction(-1, 2), Fraction(1, 2)))
    return Sym(rf_atom(a))


def s_arctan(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN if math.isnan(x) else pi() / 2 * (1 if x > 0 else -1)
    if x.is_const() and x.const() == 0:
        return lift(0)
    h = s_root(1 + x * x, 2)
    c, s = div(lift(1), h), div(x, h)
    f = _find_angle(c.rf, s.rf, Fraction(-1, 2), Fraction(1, 2))
    if f is not None:
        return f
    key = ("atan", x.rf.key())
    a = T.get(key)
    if a is None:
        a = angle_atom("atan_%d" % len(T.atoms), key, c.rf, s.rf, (Fraction(-1, 2), Fraction(1, 2)))
    return Sym(rf_atom(a))


# ------------------------------------------------------------------ exp / log
def _primes(n):
    out = []
    d = 2
    while d * d <= n and d < 100000:
        k = 0
        while n % d == 0:
            n //= d
            k += 1
        if k:
            out.append((d, k))
        d += 1
    if n > 1:
        out.append((n, 1))
    return out


def log_atom(key, name, approx=None, of=None):
    a = T.get(("log", key))
    if a is None:
        a = T.new("log(%s)" % name, "log", key=("log", key), info={"of": of, "approx": approx})
        if approx is not None:
            v = Fraction(approx)
            w = abs(v) / 10 ** 14 + Fraction(1, 10 ** 15)
            p = alg.p_atom(a)
            a.cons.append((">=", p_add(p, p_const(-(v - w)))))
            a.cons.append(("<=", p_add(p, p_const(-(v + w)))))
            if approx > 0:
                a.sign = "+"
    return Sym(rf_atom(a))


def s_log(x):
    x = lift(x)
    if isinstance(x, float):
        return math.log(x) if x > 0 else NAN
    if not ctx().decide(x > 0):
        return float("-inf") if ctx().decide(x == 0) else NAN
    res = lift(0)
    c, fs = p_factor(x.rf.num)
    items = [(f, e) for f, e in fs] + [(f, -e) for f, e in x.rf.den.values()]
    comb = Sym(rf_const(1))
    for f, e in items:
        if e % 2 == 0:
            g = abs(Sym(norm(RF(dict(f)))))
            res = res + _log_poly(g.rf.num) * e
            continue
        s = ctx().sign_of(f)
        if s == 1:
            res = res + _log_poly(f) * e
        elif s == -1:
            c = -c
            res = res + _log_poly(p_neg(f)) * e
        else:
            comb = comb * (Sym(RF(dict(f))) ** e)
    if c < 0:
        c = -c
        comb = -comb
    for n, k in _primes(c.numerator):
        res = res + log_atom(("int", n), str(n), math.log(n), of=p_const(n)) * k
    for n, k in _primes(c.denominator):
        res = res - log_atom(("int", n), str(n), math.log(n), of=p_const(n)) * k
    if not (comb.is_const() and comb.const() == 1):
        r = comb.rf
        if r.den:
            raise Unsupported("log of a quotient of unknown signs")
        res = res + _log_poly(r.num)
    return res


def _log_poly(f):
    if p_is_const(f):
        return s_log(lift(Fraction(p_constval(f))))
    if len(f) == 1:
        (m, c), = f.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            a = T.atoms[m[0][0]]
            if a.kind == "exp":
                return Sym(a.info["of"])
            if a.kind == "root":
                return _log_any(a.info["of"]) / a.info["q"]
            if a.kind == "const" and "value" in a.info:
                return log_atom(("const", a.name), a.name, math.log(a.info["value"]), of=f)
    return log_atom(("poly", p_key(f)), alg.p_str(f), of=f)


def _log_any(p):
    return s_log(Sym(norm(RF(dict(p)))))


def _exp_terms(rf):
    """terms of an exponent; over a denominator that is a monomial every term stands for itself"""
    for c, t in rf_terms(rf):
        if len(t.num) > 1 and t.den and all(len(f) == 1 for f, _ in t.den.values()):
            for m, k in t.num.items():
                r = norm(RF({m: 1}, dict(t.den)))
                if len(r.num) == 1:
                    (mm, cc), = r.num.items()
                    yield c * k * cc, RF({mm: 1}, r.den)
                else:
                    yield c * k, r
        else:
            yield c, t


def s_exp(x):
    x = lift(x)
    if isinstance(x, float):
        return x if x > 0 else (lift(0) if x < 0 else NAN)
    out = Sym(rf_const(1))
    for c, mono in _exp_terms(x.rf):
        a = _atom_of(mono)
        if a is None and not mono.den and mono.num and p_is_const(mono.num):
            # exp of a rational constant
            out = out * _exp_unit(("one",), "1", rf_const(1), c, approx=1.0)
            continue
        if a is not None and a.kind == "log" and a.info.get("of") is not None:
            base = Sym(norm(RF(dict(a.info["of"]))))
            if c.denominator == 1:
                out = out * base ** int(c)
            else:
                out = out * base.pow_frac(c)
            continue
        out = out * _exp_unit(mono.key(), rf_str(mono)[:40], mono, c)
    return out


def _exp_unit(key, name, mono, c, approx=None):
    """exp(c * mono) through a base unit mono/d"""
    k = ("exp", key)
    b = T.get(k)
    q = c.denominator
    if b is None:
        a = _new_exp(name, q, mono, approx)
        T.by_key[k] = b = [q, a]
    elif b[0] % q:
        lcm = b[0] * q // math.gcd(b[0], q)
        a = _new_exp(name, lcm, mono, approx)
        f = lcm // b[0]
        old = b[1]
        old.deg, old.rule = 1, {((a.id, f),): 1}
        old.cons.append(("=", p_add(alg.p_atom(old), p_neg(old.rule))))
        b[0], b[1] = lcm, a
    n = int(c * b[0])
    at = Sym(rf_atom(b[1]))
    return at ** n


def _new_exp(name, q, mono, approx):
    a = T.new("exp(%s/%d)" % (name, q), "exp", sign="+",
              info={"of": rf_mul(mono, rf_const(Fraction(1, q)))})
    p = alg.p_atom(a)
    a.cons.append((">", p))
    if approx is not None:
        v = Fraction(math.exp(approx / q))
        w = v / 10 ** 14
        a.cons.append((">=", p_add(p, p_const(-(v - w)))))
        a.cons.append(("<=", p_add(p, p_const(-(v + w)))))
    else:
        # convexity: exp(u) >= 1 + u
        r = a.info["of"]
        if not r.den:
            a.cons.append((">=", p_add(p_add(p, p_const(-1)), p_neg(r.num))))
    return a


def const_value(x):
    """numeric value of an expression without free variables (None if there are any)"""
    from mpmath import mp, mpf

    def atom(i):
        a = T.atoms[i]
        if a.kind == "const":
            return mp.pi() if a.name == "pi" else (mpf(a.info["value"]) if "value" in a.info else None)
        if a.kind == "root":
            v = poly(a.info["of"])
            return None if v is None or v < 0 else mp.root(v, a.info["q"])
        if a.kind == "log":
            v = None if a.info.get("of") is None else poly(a.info["of"])
            return None if v is None or v <= 0 else mp.log(v)
        if a.kind == "exp":
            v = frac(a.info["of"])
            return None if v is None else mp.exp(v)
        return None

    def poly(p):
        out = mpf(0)
        for m, c in p.items():
            t = mpf(Fraction(c).numerator) / Fraction(c).denominator
            for i, e in m:
                v = atom(i)
                if v is None:
                    return None
                t *= v ** e
            out += t
        return out

    def frac(r):
        v = poly(r.num)
        if v is None:
            return None
        for f, e in r.den.values():
            d = poly(f)
            if d is None or d == 0:
                return None
            v /= d ** e
        return v
    with mp.workdps(40):
        v = frac(lift(x).rf)
        return None if v is None else float(v)


# ------------------------------------------------------------------ integers
def _int_part(x):
    """(integer-valued part, rest) by syntactic splitting"""
    ip, rest = lift(0), lift(0)
    if x.rf.den:
        terms = rf_terms(x.rf)
    else:
        terms = [(Fraction(c), RF({m: 1})) for m, c in x.rf.num.items()]
    for c, mono in terms:
        t = Sym(mono) * c
        ok = False
        if not mono.den and len(mono.num) == 1:
            (m, co), = mono.num.items()
            if all(T.atoms[i].integer for i, _ in m):
                if c.denominator == 1:
                    ok = True
                elif not m:
                    fl = Fraction(math.floor(c))
                    ip = ip + fl
                    rest = rest + (c - fl)
                    continue
        if ok:
            ip = ip + t
        else:
            rest = rest + t
    return ip, rest


FLOOR_RANGE = (0, -1, 1, 2, -2)


def s_floor(x):
    x = lift(x)
    if isinstance(x, float):
        return x
    if x.is_const():
        return lift(math.floor(x.const()))
    ip, rest = _int_part(x)
    if rest.is_const():
        return ip + math.floor(rest.const())
    key = ("floor", rest.rf.key())
    a = T.get(key)
    if a is not None:
        return ip + a
    for j in FLOOR_RANGE:
        if ctx().decide(s_and(rest >= j, rest < j + 1)):
            T.by_key[key] = lift(j)
            return ip + j
    at = T.new("floor_%d" % len(T.atoms), "int", integer=True, info={"floor": rest.rf})
    r = Sym(rf_atom(at))
    T.by_key[key] = r
    ctx().assert_(s_and(r <= rest, rest < r + 1))
    return ip + r


def s_ceil(x):
    x = lift(x)
    if isinstance(x, float):
        return x
    return -s_floor(-x)


def s_trunc(x):
    x = lift(x)
    if isinstance(x, float):
        return x
    return s_floor(x) if ctx().decide(x >= 0) else -s_floor(-x)


def s_mod(x, y):
    x, y = lift(x), lift(y)
    if isinstance(x, float) or isinstance(y, float):
        return NAN
    q = div(x, y)
    if isinstance(q, float):
        return NAN
    return x - y * s_floor(q)


def concretize_int(x, span=64):
    """fork over the integer values a symbolic integer can take"""
    x = lift(x)
    if x.is_const():
        v = x.const()
        if v.denominator != 1:
            raise Unsupported("%s used as an integer" % v)
        return int(v)
    for j in [0] + [s * k for k in range(1, span) for s in (1, -1)]:
        if ctx().decide(x == j):
            return j
    raise Unsupported("integer value not bounded")


def truncate_int(x, span=64):
    """int(x): fork over the values of the truncation"""
    if x.is_const():
        return int(x.const())
    if ctx().decide(s_and(x > -1, x < 1)):
        return 0
    for k in range(1, span):
        if ctx().decide(s_and(x >= k, x < k + 1)):
            return k
        if ctx().decide(s_and(x <= -k, x > -k - 1)):
            return -k
    raise Unsupported("integer value not bounded")


# ------------------------------------------------------------------ uninterpreted functions (contracts)
def uf(name, args, n_out=1, axioms=None, sign=None):
    """outputs of an uninterpreted function, keyed on the normal form of its arguments"""
    args = tuple(lift(a) for a in args)
    key = ("uf", name) + tuple(a.rf.key() if isinstance(a, Sym) else ("f", repr(a)) for a in args)
    r = T.get(key)
    if r is None:
        outs = []
        for i in range(n_out):
            a = T.new("%s_%d_%d" % (name, i, len(T.atoms)), "uf", info={"uf": name, "args": args, "i": i})
            outs.append(Sym(rf_atom(a)))
        r = tuple(outs)
        T.by_key[key] = r
        ctx().uf_apps.setdefault(name, []).append((args, r))
        if axioms:
            for cond in axioms(args, r):
                ctx().axiom(cond)
    return r


# ------------------------------------------------------------------ translation to z3
class Z:
    """per-path z3 variables"""

    def __init__(self):
        self.vars = {}
        self.high = []

    def power(self, i, e):
        """a high power as a variable of its own (of the right sign)"""
        v = self.vars.get((i, e))
        if v is None:
            a = T.atoms[i]
            v = self.vars[(i, e)] = z3.Real("%s!%d^%d" % (a.name[:30], i, e))
            if a.sign == "+":
                self.high.append(v > 0)
            elif a.sign == "0+" or e % 2 == 0:
                self.high.append(v >= 0)
        return v

    def var(self, i):
        v = self.vars.get(i)
        if v is None:
            a = T.atoms[i]
            nm = "%s!%d" % (a.name[:30], i)
            v = z3.ToReal(z3.Int(nm)) if a.integer else z3.Real(nm)
            self.vars[i] = v
        return v

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            f = []
            for i, e in m:
                if e > 40:
                    f.append(self.power(i, e))
                    continue
                v = self.var(i)
                for _ in range(e):
                    f.append(v)
            c = Fraction(c)
            cz = z3.RealVal(str(c.numerator) if c.denominator == 1 else "%d/%d" % (c.numerator, c.denominator))
            if not f:
                ts.append(cz)
            elif c == 1:
                ts.append(f[0] if len(f) == 1 else z3.Product(*f))
            else:
                ts.append(z3.Product(cz, *f))
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def cond_atoms(c):
    if is_bool(c):
        return set()
    if c.op in ("<", "<=", "=="):
        r = c.args[0]
        s = p_atoms(r.num)
        for f, e in r.den.values():
            s |= p_atoms(f)
        return s
    s = set()
    for a in c.args:
        s |= cond_atoms(a)
    return s


import os
SLOW = float(os.environ.get("VERIF_SLOW", 0))


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.results = {}
        self.maxq = 0.0

    def add(self, r, dt):
        self.queries += 1
        self.time += dt
        self.maxq = max(self.maxq, dt)
        self.results[r] = self.results.get(r, 0) + 1


STATS = Stats()
_ctx = None


def ctx():
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


class Context:
    """one symbolic path"""

    def __init__(self, prefix=(), fork_timeout=1500, on_fork=None):
        self.prefix = list(prefix)
        self.trace = []
        self.pc = []            # asserted conditions (path condition + assumptions)
        self.pc_atoms = []
        self.opts = {}
        self.axioms = []        # facts that hold by contract (assertable at any time)
        self.uf_apps = {}
        self.z = Z()
        self.zc = {}            # cache id(cond)->z3
        self.known = {}         # cond key -> bool
        self.signs = {}
        self.nosign = {}
        self.fork_timeout = fork_timeout
        self.on_fork = on_fork or (lambda p: None)
        self.depth_limit = 400

    # -- assertions
    def assert_(self, cond):
        if is_bool(cond):
            if not cond:
                raise PathDead()
            return
        if cond.op == "and":
            for a in cond.args:
                self.assert_(a)
            return
        self.pc.append(cond)
        self.known[cond.key()] = True
        n = s_not(cond)
        if not is_bool(n):
            self.known[n.key()] = False
        self._learn(cond, True)

    # -- signs of polynomials, stored for the primitive part up to constant and monomial factors
    def known_sign(self, p):
        q = self.quick_sign(p)
        if q or not p:
            return q
        sg, prim = self._canon(p)
        if not sg:
            return 0
        if p_is_const(prim):
            return sg * (1 if p_constval(prim) > 0 else -1)
        r = self.signs.get(p_key(prim))
        if r is None:
            r = 0
        return sg * r

    def _canon(self, p):
        """(sign of the constant and monomial factor or 0 when unknown, primitive part)"""
        c, cm, prim = alg.p_content(p)
        keep = tuple((i, e) for i, e in cm if T.atoms[i].sign != "+")
        if keep:
            prim = {alg.m_mul(m, keep): v for m, v in prim.items()}
        return (1 if c > 0 else -1), prim

    def learn_sign(self, p, s):
        sg, prim = self._canon(p)
        if sg and not p_is_const(prim):
            self.signs[p_key(prim)] = s * sg

    def axiom(self, cond):
        if is_bool(cond):
            return
        self.axioms.append(cond)
        if cond.op in ("<", "<="):
            self.known[cond.key()] = True
            self._learn(cond, True)

    # -- z3
    def zcond(self, c):
        if is_bool(c):
            return z3.BoolVal(bool(c))
        k = id(c)
        r = self.zc.get(k)
        if r is not None:
            return r[1]
        if c.op in ("<", "<=", "=="):
            rf = c.args[0]
            num = self.z.poly(rf.num)
            if c.op == "==":
                z = num == 0
            else:
                flip = False
                extra = []
                for f, e in rf.den.values():
                    if e % 2 == 0:
                        continue
                    s = self.known_sign(f)
                    if s == 1:
                        continue
                    if s == -1:
                        flip = not flip
                        continue
                    extra.append(self.z.poly(f))
                t = num
                if extra:
                    t = z3.Product(num, *extra)
                if flip:
                    z = (t > 0) if c.op == "<" else (t >= 0)
                else:
                    z = (t < 0) if c.op == "<" else (t <= 0)
        elif c.op == "not":
            z = z3.Not(self.zcond(c.args[0]))
        elif c.op == "and":
            z = z3.And(*[self.zcond(a) for a in c.args])
        else:
            raise AssertionError(c.op)
        self.zc[k] = (c, z)
        return z

    def zatom_cons(self, i):
        out = []
        for op, p in T.atoms[i].cons:
            out += self.zcon(op, p)
        return out

    def zcon(self, op, p):
        t = self.z.poly(p)
        return [{"=": t == 0, ">=": t >= 0, "<=": t <= 0, ">": t > 0, "<": t < 0, "!=": t != 0}[op]]

    def defs_closure(self, atoms):
        """atoms reachable through definitional constraints"""
        todo = list(atoms)
        seen = set(atoms)
        while todo:
            i = todo.pop()
            a = T.atoms[i]
            nxt = set()
            for op, p in a.cons:
                nxt |= p_atoms(p)
            if a.kind == "angle":
                b = T.get(("ang", rf_atom(a).key()))
                if b is not None:
                    nxt |= b.s.atoms() | b.c.atoms()
            if a.kind in ("sin", "cos"):
                inf = a.info.get("angle")
                if inf is not None:
                    m = _atom_of(inf["mono"])
                    if m is not None and m.kind == "angle":
                        nxt.add(m.id)
            for j in nxt:
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        return seen

    def constraints(self, atoms, full):
        """z3 constraints relevant to the given atoms"""
        base = self.defs_closure(atoms)
        conds = []
        if full:
            allc = self.pc + self.axioms
            changed = True
            used = [False] * len(allc)
            cats = [cond_atoms(c) for c in allc]
            if full == "all":                               # also the conditions linked through definitions only
                cats = [set(self.defs_closure(a)) for a in cats]
            while changed:
                changed = False
                for k, c in enumerate(allc):
                    if not used[k] and (cats[k] & base):
                        used[k] = True
                        new = cats[k] - base
                        if new:
                            base = self.defs_closure(base | new)
                            changed = True
            conds = [c for k, c in enumerate(allc) if used[k]]
        else:
            conds = [c for c in self.pc + self.axioms if cond_atoms(c) <= base]
        out = [self.zcond(c) for c in conds]
        for i in sorted(base):
            out += self.zatom_cons(i)
        out += self.angle_axioms(base)
        if full:
            out += self.ackermann(base)
        return out, base

    def ackermann(self, base):
        out = []
        for name, apps in self.uf_apps.items():
            live = [(a, r) for a, r in apps if any(x.rf.atoms() & base for x in r)]
            if len(live) > 6:
                continue
            for i in range(len(live)):
                for j in range(i):
                    eq = s_and(*[x == y for x, y in zip(live[i][0], live[j][0])])
                    if eq is False:
                        continue
                    res = s_and(*[x == y for x, y in zip(live[i][1], live[j][1])])
                    out.append(z3.Implies(self.zcond(eq), self.zcond(res)))
        return out

    def angle_axioms(self, base):
        """sound facts linking the value of an angle in a known range to its sine and cosine"""
        out = []
        angs = []
        for i in sorted(base):
            a = T.atoms[i]
            if a.kind == "angle" and a.info.get("range") is not None:
                b = T.get(("ang", rf_atom(a).key()))
                if b is None or b.d != 1:
                    continue
                if b.s.den or b.c.den:
                    sat = b.s.atoms() | b.c.atoms()
                    if not sat <= base:
                        continue
                lo, hi = a.info["range"]
                angs.append((a, b, lo, hi))
        if not angs:
            return out
        piz = self.z.var(named_atom("pi").id)
        out += self.zatom_cons(named_atom("pi").id)
        for a, b, lo, hi in angs:
            v = self.z.var(a.id)
            if lo >= -1 and hi <= 1:
                out.append(self.zcond(mk_cmp_raw("<", rf_neg(b.s))) == z3.And(v > 0, v < piz))
                out.append(self.zcond(mk_cmp_raw("<", b.s)) == z3.And(v < 0, v > -piz))
                out.append(self.zcond(mk_cmp_raw("<", rf_neg(b.c))) == z3.And(v > -piz / 2, v < piz / 2))
                out.append(self.zcond(mk_cmp_raw("<", b.c)) == z3.Or(v < -piz / 2, v > piz / 2))
                out.append(self.zcond(mk_cmp_raw("==", rf_sub(b.c, rf_const(1)))) == (v == 0))
        if len(angs) <= 5:
            for x in range(len(angs)):
                for y in range(x):
                    a, b, l1, h1 = angs[x]
                    a2, b2, l2, h2 = angs[y]
                    if not (l1 >= -1 and h1 <= 1 and l2 >= -1 and h2 <= 1):
                        continue
                    v, v2 = self.z.var(a.id), self.z.var(a2.id)
                    hp = piz / 2
                    both = z3.And(v >= -hp, v <= hp, v2 >= -hp, v2 <= hp)
                    out.append(z3.Implies(both, self.zcond(mk_cmp_raw("<", rf_sub(b.s, b2.s))) == (v < v2)))
                    out.append(z3.Implies(both, self.zcond(mk_cmp_raw("<", rf_sub(b2.s, b.s))) == (v2 < v)))
                    out.append(z3.Implies(both, self.zcond(mk_cmp_raw("<", rf_neg(rf_add(b.s, b2.s)))) == (v + v2 > 0)))
                    out.append(z3.Implies(both, self.zcond(mk_cmp_raw("<", rf_add(b.s, b2.s))) == (v + v2 < 0)))
                    up = z3.And(v >= 0, v2 >= 0)
                    out.append(z3.Implies(up, self.zcond(mk_cmp_raw("<", rf_sub(b2.c, b.c))) == (v < v2)))
        return out

    def check(self, extra, timeout, full=True, want_model=False):
        """satisfiability of path condition and `extra` (list of conditions)"""
        atoms = set()
        for c in extra:
            atoms |= cond_atoms(c)
        if full == "direct":
            # only the conditions themselves and what their own atoms say about each other
            atoms.add(named_atom("pi").id)
            zs = [self.zcond(c) for c in extra]
            for i in sorted(atoms):
                for op, p in T.atoms[i].cons:
                    if p_atoms(p) <= atoms:
                        zs += self.zcon(op, p)
            return self.solve(zs, timeout, want_model)
        cons, base = self.constraints(atoms, full)
        zs = cons + [self.zcond(c) for c in extra]
        return self.solve(zs, timeout, want_model)

    def solve(self, zs, timeout, want_model=False):
        t0 = time.time()
        r, m = z_solve(list(zs) + self.z.high, timeout)
        STATS.add(r, time.time() - t0)
        if SLOW and time.time() - t0 > SLOW:
            import traceback
            print("SLOW %.1f %s" % (time.time() - t0, r), [f.name + ":%d" % f.lineno for f in traceback.extract_stack()[-9:-1]],
                  str(zs[-1])[:300].replace("\n", " "), flush=True)
        return (r, m) if want_model else r

    # -- sign analysis
    def quick_sign(self, p):
        """1 / -1 if the polynomial is certainly positive / negative by the atoms' signs, else 0"""
        sg = 0
        strict = False
        for m, c in p.items():
            s = 1 if c > 0 else -1
            pos = True
            for i, e in m:
                a = T.atoms[i]
                if a.sign == "+":
                    continue
                if a.sign == "0+" or e % 2 == 0:
                    pos = False
                    continue
                return 0
            if sg and s != sg:
                return 0
            sg = s
            strict = strict or pos
        return sg if strict else 0

    def sign_of(self, p):
        """1, -1 or 0 (unknown): strict sign of a polynomial under the path condition"""
        if p_is_const(p):
            v = p_constval(p)
            return (v > 0) - (v < 0)
        q = self.known_sign(p)
        if q:
            return q
        k = p_key(p)
        if self.nosign.get(k) == len(self.pc):
            return 0
        rf = RF(dict(p))
        v = const_value(Sym(rf))
        if v is not None and abs(v) > 1e-10:
            return 1 if v > 0 else -1
        s = 0
        if self.infeasible(SBool("<=", (rf,))):
            s = 1
        elif self.infeasible(SBool("<=", (rf_neg(rf),))):
            s = -1
        if s:
            self.learn_sign(p, s)
        else:
            self.nosign[k] = len(self.pc)
        return s

    def infeasible(self, cond):
        if is_bool(cond):
            return not cond
        if self.check([cond], self.fork_timeout, full=False) == "unsat":
            return True
        return self.check([cond], self.fork_timeout, full=True) == "unsat"

    def path_infeasible(self, timeout):
        atoms = set()
        for c in self.pc:
            atoms |= cond_atoms(c)
        return self.check(list(self.pc), timeout, full=True) == "unsat"

    def decide_quiet(self, cond):
        """True only if cond certainly holds (no fork)"""
        if is_bool(cond):
            return bool(cond)
        k = cond.key()
        if k in self.known:
            return self.known[k]
        q = self.quick_truth(cond)
        if q is not None:
            return q
        n = s_not(cond)
        return False if is_bool(n) and n else False

    def quick_truth(self, c):
        if c.op in ("<", "<=", "=="):
            rf = c.args[0]
            s = self.known_sign(rf.num)
            if not s:
                if len(rf.num) > 1 or rf.den:
                    v = const_value(Sym(rf))
                    if v is not None and abs(v) > 1e-10:
                        return False if c.op == "==" else v < 0
                # non-strict
                if c.op == "<=":
                    ns = self.weak_sign(rf.num)
                    if ns == -1 and all(self.quick_sign(f) == 1 or e % 2 == 0 for f, e in rf.den.values()):
                        return True
                if c.op == "<":
                    ns = self.weak_sign(rf.num)
                    if ns == 1 and all(self.quick_sign(f) == 1 or e % 2 == 0 for f, e in rf.den.values()):
                        return False
                return None
            if c.op == "==":
                return False
            for f, e in rf.den.values():
                if e % 2 == 0:
                    continue
                d = self.known_sign(f)
                if not d:
                    return None
                s *= d
            return s < 0
        if c.op == "not":
            q = self.quick_truth(c.args[0])
            return None if q is None else not q
        if c.op == "and":
            qs = [self.quick_truth(a) for a in c.args]
            if any(q is False for q in qs):
                return False
            if all(q is True for q in qs):
                return True
        return None

    def weak_sign(self, p):
        sg = 0
        for m, c in p.items():
            s = 1 if c > 0 else -1
            for i, e in m:
                a = T.atoms[i]
                if a.sign in ("+", "0+") or e % 2 == 0:
                    continue
                return 0
            if sg and s != sg:
                return 0
            sg = s
        return sg

    def decide(self, cond):
        if is_bool(cond):
            return bool(cond)
        k = cond.key()
        if k in self.known:
            return self.known[k]
        q = self.quick_truth(cond)
        if q is not None:
            self.known[k] = q
            return q
        idx = len(self.trace)
        neg = s_not(cond)
        if idx < len(self.prefix):
            val, forced = self.prefix[idx]
        else:
            if idx > self.depth_limit:
                raise Unsupported("more than %d decisions on a path" % self.depth_limit)
            no_t = self.infeasible(cond)
            no_f = False if no_t else self.infeasible(neg)
            if no_t and idx >= 0:
                val, forced = False, True
            elif no_f:
                val, forced = True, True
            else:
                val, forced = True, False
                self.on_fork(self.trace + [(False, False)])
        self.trace.append((val, forced))
        if forced:
            self.known[k] = val
            if not is_bool(neg):
                self.known[neg.key()] = not val
            # keep the fact: it is implied, and helps later queries
            if cond.op in ("<", "<=", "=="):
                self._learn(cond, val)
        else:
            self.assert_(cond if val else neg)
            if cond.op in ("<", "<=", "=="):
                self._learn(cond, val)
        return val

    def _learn(self, cond, val):
        """remember the sign a strict inequality gives"""
        if not val or cond.op != "<":
            if val or cond.op != "<=":
                return
            cond = s_not(cond)
        rf = cond.args[0]
        sg = -1
        for f, e in rf.den.values():
            if e % 2 == 0:
                continue
            d = self.known_sign(f)
            if not d:
                return
            sg *= d
        self.learn_sign(rf.num, sg)


def mk_cmp_raw(op, rf):
    if rf.is_const():
        return mk_cmp(op, rf)
    return SBool(op, (rf,))


def _has_int(zs):
    seen = set()
    todo = list(zs)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_int(e):
            return True
        todo.extend(e.children())
    return False


def z_solve(zs, timeout):
    """(result, model or None)"""
    zs = [z for z in zs if not z3.is_true(z)]
    if any(z3.is_false(z) for z in zs):
        return "unsat", None
    if not zs:
        return "sat", None
    try:
        if _has_int(zs):
            s = z3.Solver()
            s.set("timeout", int(timeout))
            s.add(zs)
            r = s.check()
        else:
            s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "qfnra-nlsat").solver()
            s.set("timeout", int(timeout))
            s.add(zs)
            r = s.check()
            if r == z3.unknown:
                s = z3.Solver()
                s.set("timeout", int(timeout))
                s.add(zs)
                r = s.check()
    except z3.Z3Exception as ex:
        if "canceled" in str(ex) or "timeout" in str(ex):
            return "unknown", None
        raise
    if r == z3.sat:
        return "sat", s.model()
    return ("unsat" if r == z3.unsat else "unknown"), None
