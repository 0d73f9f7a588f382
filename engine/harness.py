"""Harness runner: one harness function, executed symbolically (all paths) and numerically (replay).

A harness is a python function ``h(c)`` that declares inputs, calls the code of /repo, and states obligations.
In symbolic mode every obligation is decided for all values of the inputs on the current path; a counterexample
is turned into numbers and the same harness is run in numeric mode against the real code before anything is
reported.
"""
import json
import math
import os
import random
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

warnings.simplefilter("ignore")

import pytensor                                    # noqa: E402
import pytensor.tensor as pt                       # noqa: E402
from pytensor.graph.basic import Variable          # noqa: E402

from . import alg, graph, sym                      # noqa: E402
from .alg import RF, T, p_atoms, p_mul, p_pow, rf_atom, rf_sub  # noqa: E402
from .graph import Interp, conv_arr, dkind, lift, obj  # noqa: E402
from .sym import SBool, Sym, PathDead, Unsupported, is_bool, s_and, s_not, s_or, s_implies, s_iff  # noqa: E402


class AssumptionFailed(BaseException):
    pass


class Refuted(BaseException):
    """an obligation failed in numeric mode"""

    def __init__(self, name, detail):
        self.name, self.detail = name, detail


class Budget(BaseException):
    pass


class Inconclusive(Exception):
    pass


class Skip(BaseException):
    """numeric run sits on a boundary where floating point cannot decide"""


# ------------------------------------------------------------------ helpers working in both modes
def _gen(symf, numf):
    def one(*xs):
        if any(isinstance(x, (Sym, SBool)) for x in xs):
            xs = [x if isinstance(x, float) and not math.isfinite(x) else lift(x) for x in xs]
            return symf(*xs)
        return numf(*[float(x) for x in xs])

    def f(*xs):
        if any(isinstance(x, np.ndarray) for x in xs):
            return graph.elementwise(one, *xs) if any(
                isinstance(x, np.ndarray) and x.dtype == object for x in xs) else numf(*xs)
        return one(*xs)
    return f


sin = _gen(sym.s_sin, np.sin)
cos = _gen(sym.s_cos, np.cos)
sqrt = _gen(lambda x: sym.s_root(x, 2), np.sqrt)
cbrt = _gen(lambda x: sym.s_root(x, 3), np.cbrt)
exp = _gen(sym.s_exp, np.exp)
log = _gen(sym.s_log, np.log)
arctan2 = _gen(lambda y, x: sym.s_arctan2(y, x), np.arctan2)
arccos = _gen(sym.s_arccos, np.arccos)
arcsin = _gen(sym.s_arcsin, np.arcsin)
floor = _gen(sym.s_floor, np.floor)
mod = _gen(sym.s_mod, np.mod)


def quad(b, r):
    """the limb-darkening solution vector (uninterpreted contract / compiled kernel)"""
    if isinstance(b, Sym) or isinstance(r, Sym):
        return graph.quad_contract(lift(b), lift(r))
    from exoplanet_core import driver
    s = np.empty((1, 3))
    driver.quad_solution_vector(np.array([abs(float(b))]), np.array([float(r)]), s)
    return tuple(float(x) for x in s[0])


def kepler(M, e):
    if isinstance(M, Sym) or isinstance(e, Sym):
        return graph.kepler_contract(M, e)
    from exoplanet_core import kepler as kep
    s, c = kep(np.array([float(M)]), np.array([float(e)]))
    return float(s[0]), float(c[0])


def contact(a, e, cw, sw, ci, si, L):
    if any(isinstance(x, Sym) for x in (a, e, cw, sw, ci, si, L)):
        return graph.contact_contract(*[lift(x) for x in (a, e, cw, sw, ci, si, L)])
    from exoplanet_core import driver
    args = [np.array([float(x)]) for x in (a, e, cw, sw, ci, si, L)]
    l, r, f = np.empty(1), np.empty(1), np.empty(1, dtype=np.int32)
    driver.contact_points(*args, l, r, f)
    return float(l[0]), float(r[0]), int(f[0])


def all_(*cs):
    if any(isinstance(c, SBool) for c in cs):
        return s_and(*cs)
    return all(bool(c) for c in cs)


def any_(*cs):
    if any(isinstance(c, SBool) for c in cs):
        return s_or(*cs)
    return any(bool(c) for c in cs)


def not_(c):
    return s_not(c) if isinstance(c, SBool) else not bool(c)


def implies(a, b):
    return any_(not_(a), b)


def iff(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return s_iff(a, b)
    return bool(a) == bool(b)


def ite(c, a, b):
    """conditional value (forks in symbolic mode)"""
    return a if bool(c) else b


# ------------------------------------------------------------------ the two modes
class Base:
    sin, cos, sqrt, cbrt, exp, log = map(staticmethod, (sin, cos, sqrt, cbrt, exp, log))
    arctan2, arccos, arcsin, floor, mod = map(staticmethod, (arctan2, arccos, arcsin, floor, mod))
    quad, kepler, contact = map(staticmethod, (quad, kepler, contact))
    all, any, neg, implies, iff, ite = map(staticmethod, (all_, any_, not_, implies, iff, ite))

    def __init__(self):
        self.env = {}
        self.graph_ops = set()

    @property
    def pi(self):
        return sym.pi() if self.mode == "sym" else math.pi

    def const(self, name, value):
        """a physical constant the specification computed itself"""
        sym.register_named(name, value)
        return lift(float(value)) if self.mode == "sym" else float(value)

    def num(self, x):
        return lift(x) if self.mode == "sym" else float(x)

    # -- passing values to the code
    def arr(self, values, dtype=None):
        if self.mode == "sym":
            v = np.asarray(values, dtype=object)
            return conv_arr(v, dtype or "f")
        return np.asarray(values, dtype={"f": "float64", "i": "int64", None: "float64", "b": bool}[dtype])

    def tensor(self, values, dtype="float64", name=None, static=True):
        k = "f" if dtype.startswith("float") else ("i" if dtype.startswith("int") else "b")
        a = self.arr(values, k)
        shape = a.shape if static else (None,) * a.ndim
        v = pt.tensor(name=name, dtype=dtype, shape=shape)
        self.env[v] = a
        return v

    def bind(self, var, values):
        """give a value to an existing graph variable (e.g. a random variable)"""
        self.env[var] = self.arr(values, "i" if str(var.dtype).startswith("int") else "f")

    def option(self, name, value):
        """how contracts are encoded (no effect on concrete runs)"""
        if self.mode == "sym":
            sym.ctx().opts[name] = value

    def contact_halves(self, M0, *args):
        """the contact points as (flag, d1, d2): M_left = M0 - d1, M_right = M0 + d2 up to full turns, 0 <= d < 2 pi"""
        if self.mode == "num":
            l, r, f = contact(*args)
            return f, (M0 - l) % (2 * math.pi), (r - M0) % (2 * math.pi)
        n = len(T.atoms)
        d1, d2 = (Sym(rf_atom(T.new("half%d_%d" % (i, n), "uf", sign="0+"))) for i in (1, 2))
        j1, j2 = (Sym(rf_atom(T.new("turn%d_%d" % (i, n), "int", integer=True))) for i in (1, 2))
        for d in (d1, d2):
            self.assume(d < 2 * self.pi)
        l, r, f = graph.contact_contract(*args, define=(M0 - d1 + 2 * self.pi * j1, M0 + d2 + 2 * self.pi * j2))
        return f, d1, d2

    def raises(self, name, exc, fn):
        try:
            fn()
        except exc:
            self.true(name, True)
            return
        except Exception as ex:
            self.true(name, False, detail="raised %s instead of %s" % (type(ex).__name__, exc))
            return
        self.true(name, False, detail="did not raise %s" % (exc,))

    def shape(self, name, got, want):
        self.true(name, tuple(np.shape(got)) == tuple(want),
                  detail="shape %s, expected %s" % (np.shape(got), want))

    def kepler_time(self, name, P, e, tperi, rng=(-1, 1), nice=(-3.0, 3.0)):
        """an arbitrary time, named by its eccentric anomaly E: t = tperi + P (E - e sin E) / (2 pi)"""
        E = self.angle(name, *(rng or (None, None)), nice=nice)
        self.axiom(1 - e * cos(E) > 0)          # 0 <= e < 1
        t = tperi + P * (E - e * sin(E)) / (2 * self.pi)
        return t, E


class SymC(Base):
    mode = "sym"

    def __init__(self, run):
        super().__init__()
        self.run = run
        self.inputs = {}
        self.interp = None

    # -- inputs
    def real(self, name, lo=None, hi=None, strict=True, nice=None):
        a = T.new(name, "input", sign=("+" if strict else "0+") if lo is not None and lo >= 0 else None)
        p = alg.p_atom(a)
        if lo is not None:
            f = Fraction(lo).limit_denominator(10 ** 6)
            a.cons.append((">" if strict else ">=", alg.p_add(p, alg.p_const(-f))))
        if hi is not None:
            f = Fraction(hi).limit_denominator(10 ** 6)
            a.cons.append(("<" if strict else "<=", alg.p_add(p, alg.p_const(-f))))
        if nice is None:
            l, h = lo, hi
            if l is None and h is None:
                l, h = -2.0, 2.0
            elif l is None:
                l = h - 3.0
            elif h is None:
                h = l + 3.0
            d = 0.05 * (h - l)
            nice = (l + d, h - d)
        self.inputs[name] = ("real", a, nice, (lo, hi))
        return Sym(rf_atom(a))

    def angle(self, name, lo=None, hi=None, nice=None):
        """lo, hi in units of pi (None: any real)"""
        a = T.new(name, "angle", info={"range": None if lo is None else (Fraction(lo), Fraction(hi))})
        a.info["sym"] = True
        if lo is not None:
            sym._range_cons(a, a.info["range"])
            if lo >= 0:
                a.sign = "0+"
        # name its sine and cosine at once
        sym.ang_base(rf_atom(a), 1)
        if nice is None:
            nice = (-3.0, 3.0) if lo is None else (max(-9.0, math.pi * lo + .05), min(9.0, math.pi * hi - .05))
        self.inputs[name] = ("angle", a, nice, (lo, hi))
        return Sym(rf_atom(a))

    def int(self, name, lo=None, hi=None, nice=None):
        a = T.new(name, "input", integer=True, sign="0+" if lo is not None and lo >= 0 else None)
        p = alg.p_atom(a)
        if lo is not None:
            a.cons.append((">=", alg.p_add(p, alg.p_const(-lo))))
        if hi is not None:
            a.cons.append(("<=", alg.p_add(p, alg.p_const(-hi))))
        if nice is None:
            nice = (-3 if lo is None else lo, 3 if hi is None else hi)
        self.inputs[name] = ("int", a, nice, (lo, hi))
        return Sym(rf_atom(a))

    def choice(self, name, options):
        """a finite choice, made by forking"""
        for o in options[:-1]:
            v = self.int("%s=%s" % (name, o), 0, 1)
            if bool(v == 1):
                return o
        return options[-1]

    def assume(self, cond):
        self.run.ctx.assert_(cond)

    def axiom(self, cond):
        """a mathematical fact used by the proof (checked numerically in every replay)"""
        self.run.ctx.axiom(cond)

    # -- evaluating the code
    def ev(self, x):
        single = not isinstance(x, (list, tuple))
        xs = [x] if single else list(x)
        out = []
        if self.interp is None:
            self.interp = Interp(self.env)
        for v, a in self.env.items():
            if v not in self.interp.env:
                self.interp.env[v] = a
        for v in xs:
            if isinstance(v, Variable):
                r = self.interp.run([v])[0]
            elif isinstance(v, (Sym, SBool)):
                r = graph._arr(v)
            elif v is None:
                r = None
            else:
                a = np.asarray(v)
                r = a if a.dtype == object else conv_arr(
                    a, "b" if a.dtype == bool else ("i" if a.dtype.kind in "iu" else "f"))
            out.append(r)
        self.graph_ops |= self.interp.ops_seen
        return out[0] if single else out

    # -- obligations
    def eq(self, name, got, want, rtol=None, atol=None):
        got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
        if got.shape != want.shape and want.shape != ():
            self.true(name + ".shape", False, detail="shape %s, expected %s" % (got.shape, want.shape))
            return
        want = np.broadcast_to(want, got.shape)
        for idx in np.ndindex(got.shape):
            n = name + ("" if not idx else str(list(idx)))
            self._eq1(n, got[idx], want[idx])

    def _eq1(self, name, g, w):
        g = g if isinstance(g, float) and not math.isfinite(g) else lift(g)
        w = w if isinstance(w, float) and not math.isfinite(w) else lift(w)
        if isinstance(g, float) or isinstance(w, float):
            ok = isinstance(g, float) and isinstance(w, float) and (g == w or (g != g and w != w))
            self.true(name, ok, detail="%r vs %r" % (g, w))
            return
        self.run.oblige_eq(name, g, w)

    def true(self, name, cond, detail="", margin=None):
        self.run.oblige(name, cond, detail)

    def le(self, name, a, b, atol=None):
        self.true(name, lift(a) <= b)

    def lt(self, name, a, b):
        self.true(name, lift(a) < b)

    def lemma(self, name, cond):
        self.true(name, cond)

    def diff(self, x, wrt):
        return Sym(sym_diff(lift(x).rf, wrt.rf))


class Draw(dict):
    """input values drawn from their ordinary ranges when a harness asks for them"""

    def __init__(self, rng):
        super().__init__()
        self.rng = rng

    def draw(self, name, kind, lo, hi, nice):
        if name in self:
            return
        if kind == "angle":
            s = math.pi
            nice = nice or ((-3.0, 3.0) if lo is None else (max(-9.0, s * lo + .05), min(9.0, s * hi - .05)))
            lo, hi = None if lo is None else s * lo, None if hi is None else s * hi
        if nice is None:
            nice = (float(lo) if lo is not None else (hi - 3.0 if hi is not None else -2.0),
                    float(hi) if hi is not None else (lo + 3.0 if lo is not None else 2.0))
        a, b = nice
        if kind == "int":
            self[name] = self.rng.randint(int(a), int(b))
            return
        w = 0.0 if self.rng.random() < .7 else (b - a)
        x = self.rng.uniform(a - w, b + w)
        if (lo is not None and x <= lo) or (hi is not None and x >= hi):
            x = self.rng.uniform(a, b)
        self[name] = x


class NumC(Base):
    mode = "num"

    def __init__(self, values):
        super().__init__()
        self.values = values
        self.checked = 0
        self.skipped = 0

    def real(self, name, lo=None, hi=None, strict=True, nice=None):
        if isinstance(self.values, Draw):
            self.values.draw(name, "real", lo, hi, nice)
        return float(self.values[name])

    def angle(self, name, lo=None, hi=None, nice=None):
        if isinstance(self.values, Draw):
            self.values.draw(name, "angle", lo, hi, nice)
        return float(self.values[name])

    def int(self, name, lo=None, hi=None, nice=None):
        if isinstance(self.values, Draw):
            self.values.draw(name, "int", lo, hi, nice)
        return int(round(self.values[name]))

    def choice(self, name, options):
        if isinstance(self.values, Draw) and not any("%s=%s" % (name, o) in self.values for o in options):
            k = self.values.rng.randrange(len(options))
            for i, o in enumerate(options[:-1]):
                self.values["%s=%s" % (name, o)] = int(i == k)
        for o in options[:-1]:
            if int(round(self.values.get("%s=%s" % (name, o), 0))) == 1:
                return o
        return options[-1]

    def assume(self, cond):
        if not bool(cond):
            raise AssumptionFailed()

    def axiom(self, cond):
        if not bool(cond):
            raise Refuted("axiom", "an axiom of the encoding does not hold numerically")

    def ev(self, x):
        single = not isinstance(x, (list, tuple))
        xs = [x] if single else list(x)
        gi = [i for i, v in enumerate(xs) if isinstance(v, Variable)]
        out = [None if v is None else np.asarray(v) for v in
               [None if i in gi else v for i, v in enumerate(xs)]]
        if gi:
            ins = [v for v in self.env if v.owner is None]
            sub = {v: a for v, a in self.env.items() if v.owner is not None}
            outs = [xs[i] for i in gi]
            if sub:
                from pytensor.graph.replace import clone_replace
                new = {v: pt.tensor(dtype=v.dtype, shape=v.type.shape) for v in sub}
                outs = clone_replace(outs, replace=new)
                ins = ins + list(new.values())
                vals = [self.env[v] for v in ins[:len(ins) - len(new)]] + [sub[v] for v in sub]
            else:
                vals = [self.env[v] for v in ins]
            f = pytensor.function(ins, outs, on_unused_input="ignore")
            with np.errstate(all="ignore"):
                res = f(*vals)
            for i, r in zip(gi, res):
                out[i] = np.asarray(r)
        return out[0] if single else out

    def eq(self, name, got, want, rtol=1e-6, atol=1e-8):
        rtol = 1e-6 if rtol is None else rtol
        atol = 1e-8 if atol is None else atol
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape and want.shape != ():
            raise Refuted(name, "shape %s, expected %s" % (got.shape, want.shape))
        want = np.broadcast_to(want, got.shape)
        self.checked += 1
        with np.errstate(all="ignore"):
            ok = (np.abs(got - want) <= atol + rtol * np.maximum(np.abs(got), np.abs(want))) | (got == want) | (
                np.isnan(got) & np.isnan(want))
        if not np.all(ok):
            raise Refuted(name, "got %s, expected %s" % (got.tolist(), want.tolist()))

    def true(self, name, cond, detail="", margin=None):
        if margin is not None:
            if any(abs(float(m)) < 1e-7 for m in margin):
                self.skipped += 1
                return
        self.checked += 1
        if not bool(cond):
            raise Refuted(name, detail or "condition is false")

    def le(self, name, a, b, atol=1e-9):
        self.true(name, float(a) <= float(b) + atol, "%r <= %r" % (float(a), float(b)))

    def lt(self, name, a, b):
        self.true(name, float(a) < float(b) + 1e-12, "%r < %r" % (float(a), float(b)))

    def lemma(self, name, cond):
        pass

    def diff(self, x, wrt):
        return None


# ------------------------------------------------------------------ exact derivatives of symbolic values
def sym_diff(r, wrt):
    (m, c), = wrt.num.items()
    wid = m[0][0]
    memo = {}

    def d_poly(p):
        out = Sym(alg.rf_const(0))
        by = {}
        for m, c in p.items():
            for i, e in m:
                by.setdefault(i, {})
                mm = tuple((j, k - (1 if j == i else 0)) for j, k in m if not (j == i and k == 1))
                q = by[i]
                q[mm] = q.get(mm, 0) + c * e
        for i, q in by.items():
            da = d_atom(i)
            if da is None:
                continue
            out = out + Sym(alg.norm(RF(q))) * da
        return out

    def d_atom(i):
        if i == wid:
            return lift(1)
        if i in memo:
            return memo[i]
        a = T.atoms[i]
        r = None
        if a.kind in ("sin", "cos"):
            info = a.info["angle"]
            ang = Sym(info["mono"]) / info["d"]
            da = d_rf(ang.rf)
            other = Sym(rf_atom(T.atoms[a.info["pair"]]))
            r = other * da if a.kind == "sin" else -other * da
        elif a.kind == "root":
            f = a.info["of"]
            df = d_poly(f)
            r = Sym(rf_atom(a)) * df / (a.info["q"] * Sym(alg.norm(RF(dict(f)))))
        elif a.kind == "exp":
            r = Sym(rf_atom(a)) * d_rf(a.info["of"])
        elif a.kind == "log" and a.info.get("of") is not None:
            f = a.info["of"]
            r = d_poly(f) / Sym(alg.norm(RF(dict(f))))
        elif a.kind == "angle" and a.info.get("cs") is not None:
            cc, ss = a.info["cs"]
            r = Sym(cc) * d_rf(ss) - Sym(ss) * d_rf(cc)
        elif a.kind == "uf":
            raise Unsupported("derivative of an uninterpreted function")
        if r is not None and r.is_const() and r.const() == 0:
            r = None
        memo[i] = r
        return r

    def d_rf(r):
        num = d_poly(r.num)
        if not r.den:
            return num
        full = Sym(r)
        out = num / Sym(alg.norm(RF({(): 1}, {}))) * Sym(alg.norm(RF({(): 1}, dict(r.den))))
        for f, e in r.den.values():
            out = out - full * e * d_poly(f) / Sym(alg.norm(RF(dict(f))))
        return out

    return d_rf(r).rf


# ------------------------------------------------------------------ path exploration
class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.dead = 0
        self.obligations = 0
        self.by_normal_form = 0
        self.by_solver = 0
        self.rounded = 0
        self.violations = []
        self.inconclusive = []
        self.errors = []
        self.witnesses = 0
        self.witness_inputs = []
        self.no_witness = 0
        self.replays = 0
        self.replay_checks = 0
        self.ops = set()
        self.functions = []
        self.bounds = ""
        self.wall = 0.0
        self.stats = {}
        self.samples = []


class Runner:
    def __init__(self, hname, fn, tier="quick", seed=1, budget=240, max_paths=400, ob_timeout=20000,
                 witness_cap=6, fork_timeout=1500):
        self.hname, self.fn = hname, fn
        self.tier = tier
        self.rng = random.Random("%s/%s" % (seed, hname))
        self.budget = budget
        self.max_paths = max_paths
        self.ob_timeout = ob_timeout
        self.witness_cap = witness_cap
        self.fork_timeout = fork_timeout
        self.res = Result(hname)
        self.stack = []
        self.ctx = None
        self.c = None
        self.t0 = None

    def time_left(self):
        return self.budget - (time.time() - self.t0)

    def explore(self):
        self.t0 = time.time()
        sym.STATS.__init__()
        self.stack = [[]]
        try:
            while self.stack:
                if self.res.paths + self.res.dead >= self.max_paths:
                    self.res.inconclusive.append("more than %d paths" % self.max_paths)
                    break
                if self.time_left() < 0:
                    self.res.inconclusive.append("time budget of %d s exhausted after %d paths" % (
                        self.budget, self.res.paths))
                    break
                self.one_path(self.stack.pop())
                if self.res.violations or len(self.res.inconclusive) >= 3:
                    break
        except Budget as ex:
            self.res.inconclusive.append(str(ex))
        if self.res.inconclusive and not self.res.violations:
            self.probe()
        self.res.wall = time.time() - self.t0
        s = sym.STATS
        self.res.stats = dict(queries=s.queries, solver_s=round(s.time, 3), results=s.results,
                              slowest_s=round(s.maxq, 3))
        if not self.res.violations and not self.res.inconclusive and self.res.witnesses == 0:
            self.res.inconclusive.append("no path witness replayed: the harness may be vacuous")
        return self.res

    def one_path(self, prefix):
        alg.reset()
        self.ctx = sym.Context(prefix, fork_timeout=self.fork_timeout, on_fork=self.stack.append)
        sym.set_ctx(self.ctx)
        self.c = SymC(self)
        try:
            self.fn(self.c)
        except PathDead:
            self.res.dead += 1
            return
        except _Stop:
            self.res.paths += 1
            return
        except Inconclusive as ex:
            self.res.paths += 1
            self.res.inconclusive.append(str(ex))
            return
        except (Unsupported, alg.TooBig) as ex:
            self.res.paths += 1
            # the path may also be one on which the code fails: see whether the real code agrees
            self.on_exception(ex, unsupported=True)
            return
        except AssumptionFailed:
            self.res.dead += 1
            return
        except Exception as ex:
            self.res.paths += 1
            self.on_exception(ex)
            return
        finally:
            self.res.ops |= self.c.graph_ops
        self.res.paths += 1
        if self.res.witnesses + self.res.no_witness < self.witness_cap:
            self.witness()

    # -- witnesses (vacuity guard and validation of the encoding)
    def witness(self):
        m = self.find_inputs([], quick=True)
        if m is None:
            self.res.no_witness += 1
            return
        r = self.replay(m)
        if r[0] == "ok":
            self.res.witnesses += 1
            if len(self.res.witness_inputs) < 3:
                self.res.witness_inputs.append(m)
        elif r[0] == "refuted":
            # the encoding said it holds, the real code disagrees: report what the real code does
            self.violation(r[1], r[2] + " (found when validating the encoding)", m)
        elif r[0] == "skip":
            self.res.no_witness += 1
        else:
            self.res.no_witness += 1

    def on_exception(self, ex, unsupported=False):
        tb = traceback.extract_tb(ex.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
        msg = "%s: %s [%s]" % (type(ex).__name__, str(ex)[:300], where)
        # is the path feasible, and does the real code fail there too?
        for k in range(3):
            m = self.find_inputs([], quick=False)
            if m is None:
                break
            r = self.replay(m)
            if r[0] == "refuted":
                self.violation(r[1], r[2], m)
                return
        if not unsupported:
            st = self.ctx.check([], 5000) if False else None
        self.res.errors.append(msg)
        self.res.inconclusive.append("the encoding does not cover this path: " + msg)

    def probe(self):
        """the solver left something open: does the real code break the property on some ordinary inputs?"""
        t0 = time.time()
        for k in range(200):
            if time.time() - t0 > 25:
                break
            m = Draw(self.rng)
            r = self.replay(m)
            if r[0] == "refuted" and r[1] != "axiom":
                self.violation(r[1], r[2] + " (found on ordinary inputs, where the solver gave no answer)", dict(m))
                return

    # -- obligations
    def oblige_eq(self, name, g, w):
        self.res.obligations += 1
        if self.time_left() < 0:
            raise Budget("time budget of %d s exhausted in %s" % (self.budget, name))
        d = rf_sub(g.rf, w.rf)
        if not d.num:
            self.res.by_normal_form += 1
            return
        if _tiny(g.rf, w.rf):
            self.res.rounded += 1
            self.res.by_normal_form += 1
            return
        cond = s_not(sym.mk_cmp("==", d))
        self._refute(name, cond)

    def oblige(self, name, cond, detail=""):
        self.res.obligations += 1
        if self.time_left() < 0:
            raise Budget("time budget of %d s exhausted in %s" % (self.budget, name))
        if is_bool(cond) or not isinstance(cond, SBool):
            if bool(cond):
                self.res.by_normal_form += 1
                return
            self._refute(name, True, detail)
            return
        neg = s_not(cond)
        if is_bool(neg):
            if not neg:
                self.res.by_normal_form += 1
                return
        self._refute(name, neg, detail)

    def _refute(self, name, cond, detail=""):
        """search for values of the inputs on this path that satisfy cond (the negated obligation)"""
        if not is_bool(cond):
            r = self.ctx.check([cond], 500, full="direct")
            if r != "unsat":
                r = self.ctx.check([cond], min(self.ob_timeout, 4000), full=False)
            if r == "unsat":
                self.res.by_solver += 1
                return
            q = self.ctx.check([cond], min(self.ob_timeout, 4000), full=True)
            if q == "unsat":
                self.res.by_solver += 1
                return
        tried = 0
        last = None
        for m in self.models(cond):
            tried += 1
            r = self.replay(m)
            last = r
            if r[0] == "refuted":
                self.violation(r[1] if r[1] else name, r[2] or detail, m)
                raise _Stop()
            if tried >= 8:
                break
        if is_bool(cond):
            if self.ctx.path_infeasible(self.ob_timeout):
                raise PathDead()
            raise Inconclusive("%s fails on a path whose counterexample does not replay (%s) %s" % (
                name, last, detail))
        r = self.ctx.check([cond], self.ob_timeout, full=True)
        if r == "unsat":
            self.res.by_solver += 1
            return
        if self.ctx.check([cond], self.ob_timeout, full="all") == "unsat":
            self.res.by_solver += 1
            return
        raise Inconclusive("%s: solver says %s, %d candidate(s) did not replay (%s); %r" % (
            name, r, tried, last, cond if len(repr(cond)) < 1500 else repr(cond)[:1500]))

    def violation(self, name, detail, m):
        self.res.violations.append(dict(harness=self.hname, obligation=name, detail=detail, inputs=m))

    # -- models
    def find_inputs(self, extra, quick=True):
        for m in self.models(s_and(*extra) if extra else True, quick=quick):
            return m
        return None

    def models(self, cond, quick=False):
        """input assignments satisfying path condition and cond, nice ones first"""
        ctx = self.ctx
        conds = list(ctx.pc) + list(ctx.axioms) + ([] if is_bool(cond) else [cond])
        atoms = set()
        for c in conds:
            atoms |= sym.cond_atoms(c)
        for kind, a, nice, b in self.c.inputs.values():
            atoms.add(a.id)
        base = ctx.defs_closure(atoms)
        zs = [ctx.zcond(c) for c in conds]
        for i in sorted(base):
            zs += ctx.zatom_cons(i)
        zs += ctx.angle_axioms(base)
        zs += ctx.ackermann(base)
        names = list(self.c.inputs)
        plan = [(1.0, 3, 3000), (0.7, 3, 3000), (0.4, 2, 4000), (0.0, 1, 6000 if quick else 15000)]
        if not quick:
            plan = [(1.0, 8, 3000), (0.8, 4, 3000), (0.6, 4, 3000), (0.4, 4, 4000), (0.2, 3, 6000), (0.0, 1, 20000)]
        for frac, n, to in plan:
            for _ in range(n):
                if self.time_left() < -30:
                    return
                fixed = {}
                fz = []
                for nm in names:
                    if self.rng.random() < frac or frac == 1.0:
                        z, val = self._fix(nm)
                        fz += z
                        fixed[nm] = val
                r, model = ctx.solve(zs + fz, to, want_model=True)
                if r != "sat":
                    continue
                yield self._extract(model, fixed)
                if len(fixed) == 0:
                    break

    def _fix(self, nm):
        import z3
        kind, a, (lo, hi), bounds = self.c.inputs[nm]
        v = self.ctx.z.var(a.id)
        if kind == "int":
            k = self.rng.randint(int(lo), int(hi))
            return [v == k], k
        x = self.rng.uniform(lo, hi)
        if kind == "real":
            f = Fraction(round(x * 64), 64)
            if not (lo <= f <= hi):
                f = Fraction(round(x * 2 ** 20), 2 ** 20)
            return [v == z3.RealVal(str(f))], float(f)
        # angle: rational point on the circle
        b = T.get(("ang", rf_atom(a).key()))
        d = b.d
        t = Fraction(math.tan(x / d / 2)).limit_denominator(24)
        s = 2 * t / (1 + t * t)
        c = (1 - t * t) / (1 + t * t)
        th = 2 * math.atan(float(t)) * d
        th += 2 * math.pi * d * round((x - th) / (2 * math.pi * d))
        out = []
        sid = next(iter(p_atoms(b.s.num)))
        cid = next(iter(p_atoms(b.c.num)))
        out.append(self.ctx.z.var(sid) == z3.RealVal(str(s)))
        out.append(self.ctx.z.var(cid) == z3.RealVal(str(c)))
        thf = Fraction(th)
        w = Fraction(1, 10 ** 12)
        out.append(v >= z3.RealVal(str(thf - w)))
        out.append(v <= z3.RealVal(str(thf + w)))
        return out, th

    def _extract(self, model, fixed):
        vals = {}
        for nm, (kind, a, nice, bounds) in self.c.inputs.items():
            if nm in fixed:
                vals[nm] = fixed[nm]
                continue
            x = _zval(model, self.ctx.z.var(a.id)) if model is not None else 0.0
            if kind == "int":
                vals[nm] = int(round(x))
            elif kind == "real":
                vals[nm] = x
            else:
                b = T.get(("ang", rf_atom(a).key()))
                if b is not None and not b.s.den and len(b.s.num) == 1 and model is not None:
                    s = _zval(model, self.ctx.z.var(next(iter(p_atoms(b.s.num)))))
                    c = _zval(model, self.ctx.z.var(next(iter(p_atoms(b.c.num)))))
                    if s == 0 and c == 0:
                        vals[nm] = x
                    else:
                        th = math.atan2(s, c) * b.d
                        per = 2 * math.pi * b.d
                        k = round((x - th) / per)
                        if bounds[0] is not None:
                            lo, hi = bounds[0] * math.pi, bounds[1] * math.pi
                            while k and not (lo - 1e-9 <= th + k * per <= hi + 1e-9):
                                k -= 1 if k > 0 else -1
                        vals[nm] = th + k * per
                else:
                    vals[nm] = x
        return vals

    # -- replay
    def replay(self, values):
        self.res.replays += 1
        saved = (self.ctx, list(T.atoms), dict(T.by_key))
        try:
            return replay(self.fn, values, self.res)
        finally:
            sym.set_ctx(self.ctx)


class _Stop(BaseException):
    pass


def replay(fn, values, res=None):
    """run the harness with numbers: ('ok',) / ('refuted', name, detail) / ('invalid',) / ('skip',)"""
    c = NumC(values)
    try:
        with np.errstate(all="ignore"):
            fn(c)
    except AssumptionFailed:
        return ("invalid", "", "assumptions")
    except Refuted as ex:
        return ("refuted", ex.name, str(ex.detail)[:800])
    except Skip:
        return ("skip", "", "")
    except Unsupported as ex:
        return ("invalid", "", "unsupported %s" % ex)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
        return ("refuted", "exception", "%s: %s [%s]" % (type(ex).__name__, str(ex)[:300], where))
    finally:
        if res is not None:
            res.replay_checks += c.checked
    if c.checked == 0:
        return ("skip", "", "")
    return ("ok", "", "")


def _zval(model, v):
    import z3
    r = model.eval(v, model_completion=True)
    try:
        if z3.is_algebraic_value(r):
            r = r.approx(20)
        f = r.as_fraction()
        return float(f)
    except AttributeError:
        try:
            return float(r.as_long())
        except AttributeError:
            s = str(z3.simplify(r))
            try:
                return float(Fraction(s))
            except ValueError:
                return 0.0


def _tiny(l, r):
    """l and r differ only by the rounding of decimal literals (relative 1e-11 in every coefficient)"""
    ml, mr = l.num, r.num
    try:
        for k in set(l.den) | set(r.den):
            f = (l.den.get(k) or r.den.get(k))[0]
            el = l.den[k][1] if k in l.den else 0
            er = r.den[k][1] if k in r.den else 0
            e = max(el, er)
            if e > el:
                ml = p_mul(ml, p_pow(f, e - el))
            if e > er:
                mr = p_mul(mr, p_pow(f, e - er))
    except alg.TooBig:
        return False
    scale = max([abs(c) for c in ml.values()] + [abs(c) for c in mr.values()])
    for m in set(ml) | set(mr):
        a, b = ml.get(m, 0), mr.get(m, 0)
        if abs(a - b) > Fraction(1, 10 ** 11) * max(abs(a), abs(b)) and abs(a - b) > Fraction(1, 10 ** 13) * scale:
            return False
    return True
