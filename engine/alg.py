"""Exact algebra used by the symbolic executor.

Values are rational functions over *atoms*.  An atom is a real-valued symbol: a harness input, a named
constant (pi, G, ...), the sine or cosine of an angle, a root f^(1/q), the output of an uninterpreted
contract (Kepler solver, ...).  Atoms may carry a rewrite rule ``atom^d -> polynomial`` (cos^2 -> 1-sin^2,
root^q -> f), which every product is reduced by.  The same relation is given to the SMT solver as a
constraint, so that nothing here has to be complete: whatever does not normalise to 0 is decided by z3.
"""
from fractions import Fraction
from math import gcd, isqrt
import sympy

ONE_M = ()


class Atom:
    __slots__ = ("id", "name", "kind", "sign", "integer", "deg", "rule", "info", "cons")

    def __init__(self, id, name, kind, sign=None, integer=False, info=None):
        self.id, self.name, self.kind = id, name, kind
        self.sign = sign            # '+' (>0), '0+' (>=0) or None
        self.integer = integer
        self.deg = None             # rewrite rule degree
        self.rule = None            # Poly (dict)
        self.info = info or {}
        self.cons = []              # side constraints: list of (op, Poly) with op in '=','>=','>','<=','<','!='

    def __repr__(self):
        return self.name


class AtomTable:
    def __init__(self):
        self.atoms = []
        self.by_key = {}

    def new(self, name, kind, key=None, **kw):
        a = Atom(len(self.atoms), name, kind, **kw)
        self.atoms.append(a)
        if key is not None:
            self.by_key[key] = a
        return a

    def get(self, key):
        return self.by_key.get(key)


T = AtomTable()


def reset():
    """start with an empty atom table (in place: other modules hold a reference to T)"""
    T.atoms.clear()
    T.by_key.clear()
    _powers.clear()
    return T


# ------------------------------------------------------------------ polynomials: dict mono -> Fraction/int
def p_const(c):
    return {ONE_M: c} if c else {}


def p_atom(a, e=1):
    return {((a.id, e),): 1}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_sub(a, b):
    return p_add(a, p_neg(b))


def p_scale(a, k):
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def m_div(a, b):
    """a / b if b divides a else None"""
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        v = d.get(k, 0) - e
        if v < 0:
            return None
        if v:
            d[k] = v
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


MAX_TERMS = 60000


class TooBig(Exception):
    pass


def p_mul_raw(a, b):
    if len(a) * len(b) > 4000000:
        raise TooBig("product of %d by %d terms" % (len(a), len(b)))
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_key(a):
    return frozenset(a.items())


def p_reduce(p):
    """normal form with respect to the atoms' rewrite rules"""
    atoms = T.atoms
    for _ in range(200):
        hit = False
        for m in p:
            for i, e in m:
                d = atoms[i].deg
                if d is not None and e >= d:
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return p
        out = {}
        for m, c in p.items():
            tgt = None
            for i, e in m:
                d = atoms[i].deg
                if d is not None and e >= d:
                    tgt = (i, e, d)
            if tgt is None:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            i, e, d = tgt
            q, rem = divmod(e, d)
            base = [x for x in m if x[0] != i]
            if rem:
                base.append((i, rem))
                base.sort()
            t = {tuple(base): c}
            for _k in range(q):
                t = p_mul_raw(t, atoms[i].rule)
            for mm, cc in t.items():
                v = out.get(mm, 0) + cc
                if v:
                    out[mm] = v
                else:
                    out.pop(mm, None)
        p = out
        if len(p) > MAX_TERMS:
            raise TooBig("reduction gave %d terms" % len(p))
    raise TooBig("reduction does not terminate")


def p_mul(a, b):
    r = p_mul_raw(a, b)
    if len(r) > MAX_TERMS:
        raise TooBig("polynomial with %d terms" % len(r))
    return p_reduce(r)


def p_pow(a, n):
    r = {ONE_M: 1}
    b = a
    while n:
        if n & 1:
            r = p_mul(r, b)
        n >>= 1
        if n:
            b = p_mul(b, b)
    return r


def p_atoms(p):
    s = set()
    for m in p:
        for i, _ in m:
            s.add(i)
    return s


def p_is_const(p):
    return not p or (len(p) == 1 and ONE_M in p)


def p_constval(p):
    return p.get(ONE_M, 0)


def p_content(p):
    """(rational content with the sign of the leading term, monomial content, primitive part)"""
    if not p:
        return Fraction(0), ONE_M, {}
    num, den = 0, 1
    common = None
    for m, c in p.items():
        c = Fraction(c)
        num = gcd(num, c.numerator)
        den = den * c.denominator // gcd(den, c.denominator)
        if common is None:
            common = dict(m)
        elif common:
            d = dict(m)
            common = {k: min(e, d[k]) for k, e in common.items() if k in d}
    cont = Fraction(num, den)
    lead = max(p)  # arbitrary but canonical monomial
    if p[lead] < 0:
        cont = -cont
    cm = tuple(sorted(common.items()))
    prim = {}
    for m, c in p.items():
        v = Fraction(c) / cont
        prim[m_div(m, cm)] = v.numerator if v.denominator == 1 else v
    return cont, cm, prim


def p_divexact(a, b):
    """a / b if exact (no ideal reduction), else None"""
    if not a:
        return {}
    if len(b) == 1:
        (mb, cb), = b.items()
        r = {}
        for m, c in a.items():
            q = m_div(m, mb)
            if q is None:
                return None
            r[q] = Fraction(c) / cb
        return r
    # lexicographic order on dense exponent vectors of the involved atoms
    ids = sorted(p_atoms(a) | p_atoms(b))
    pos = {k: i for i, k in enumerate(ids)}
    n = len(ids)

    def dense(m):
        v = [0] * n
        for k, e in m:
            v[pos[k]] = e
        return tuple(v)
    A = {dense(m): c for m, c in a.items()}
    B = {dense(m): c for m, c in b.items()}
    for i in range(n):
        if max(m[i] for m in A) < max(m[i] for m in B):
            return None
    lb = max(B)
    cb = B[lb]
    Q = {}
    steps = 0
    limit = 20 * len(A) + 200
    while A:
        la = max(A)
        q = tuple(x - y for x, y in zip(la, lb))
        if any(x < 0 for x in q):
            return None
        cq = Fraction(A[la]) / cb
        Q[q] = cq
        for m, c in B.items():
            mm = tuple(x + y for x, y in zip(q, m))
            v = A.get(mm, 0) - cq * c
            if v:
                A[mm] = v
            else:
                A.pop(mm, None)
        steps += 1
        if steps > limit:
            return None
    return {tuple((ids[i], e) for i, e in enumerate(m) if e): (c.numerator if c.denominator == 1 else c)
            for m, c in Q.items()}


_factor_cache = {}


def p_factor(p):
    """p = content * prod(factor^k): returns (Fraction content, [(Poly, k)]) with canonical primitive factors"""
    cont, cm, prim = p_content(p)
    out = [({((i, 1),): 1}, e) for i, e in cm]
    if p_is_const(prim):
        return cont * p_constval(prim), out
    # cache up to renaming of the atoms, so that entries survive a reset
    ids = sorted(p_atoms(prim))
    ren = {k: i for i, k in enumerate(ids)}
    key = frozenset((tuple((ren[i], e) for i, e in m), c) for m, c in prim.items())
    if key not in _factor_cache:
        c2, fs = _factor(prim)
        _factor_cache[key] = (c2, [({tuple((ren[i], e) for i, e in m): c for m, c in f.items()}, k) for f, k in fs])
    c2, fs = _factor_cache[key]
    fs = [({tuple((ids[i], e) for i, e in m): c for m, c in f.items()}, k) for f, k in fs]
    return cont * c2, out + fs


def _factor(prim):
    ids = sorted(p_atoms(prim))
    maxdeg = max(sum(e for _, e in m) for m in prim)
    if len(prim) == 1 or len(prim) > 80 or len(ids) > 12 or maxdeg > 16:
        return Fraction(1), [(prim, 1)]
    # linear in some atom with coprime coefficients -> irreducible: cheap test for two-term polynomials
    syms = [sympy.Symbol("x%d" % i) for i in ids]
    pos = {k: i for i, k in enumerate(ids)}
    d = {}
    for m, c in prim.items():
        v = [0] * len(ids)
        for k, e in m:
            v[pos[k]] = e
        c = Fraction(c)
        d[tuple(v)] = sympy.Rational(c.numerator, c.denominator)
    P = sympy.Poly.from_dict(d, *syms, domain="QQ")
    coef, fl = P.factor_list()
    cc = Fraction(int(coef.p), int(coef.q))
    out = []
    for f, k in fl:
        pd = {}
        for v, c in f.as_dict().items():
            c = Fraction(int(c.p), int(c.q))
            pd[tuple((ids[i], int(e)) for i, e in enumerate(v) if e)] = c.numerator if c.denominator == 1 else c
        c0, m0, prim0 = p_content(pd)
        assert m0 == ONE_M or len(pd) == 1
        if m0 != ONE_M:
            prim0 = pd
            c0 = Fraction(1)
        cc *= c0 ** k
        out.append((prim0, k))
    return cc, out


# ------------------------------------------------------------------ rational functions
class RF:
    """num / prod(den factor ^ k)"""
    __slots__ = ("num", "den", "_key")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}       # key -> (Poly, exp)
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (p_key(self.num), frozenset((k, e) for k, (_, e) in self.den.items()))
        return self._key

    def is_zero(self):
        return not self.num

    def is_const(self):
        return not self.den and p_is_const(self.num)

    def const(self):
        return Fraction(p_constval(self.num))

    def atoms(self):
        s = p_atoms(self.num)
        for f, _ in self.den.values():
            s |= p_atoms(f)
        return s


def rf_const(c):
    return RF(p_const(c))


def rf_atom(a):
    return norm(RF(p_atom(a)))


def _mono_poly(i, e=1):
    return {((i, e),): 1}


def norm(r):
    """reduce, rationalise algebraic atoms in the denominator, cancel common factors"""
    num = p_reduce(r.num)
    if not num:
        return RF({})
    den = dict(r.den)
    changed = True
    guard = 0
    while changed:
        changed = False
        guard += 1
        if guard > 50:
            break
        for k in list(den):
            if k not in den:
                continue
            f, e = den[k]
            f2 = p_reduce(f)
            if f2 is not f and p_key(f2) != k:
                # a rule became available after the factor was made
                del den[k]
                c, fs = p_factor(f2)
                num = p_scale(num, Fraction(1) / (c ** e))
                for g, ge in fs:
                    gk = p_key(g)
                    den[gk] = (g, den.get(gk, (g, 0))[1] + ge * e)
                changed = True
                continue
            if len(f) == 1:
                (m, c), = f.items()
                (i, one), = m
                a = T.atoms[i]
                # cancel against the numerator's monomial content
                mn = min((dict(mm).get(i, 0) for mm in num), default=0)
                t = min(mn, e)
                if t:
                    num = {m_div(mm, ((i, t),)): cc for mm, cc in num.items()}
                    e -= t
                    changed = True
                if e == 0:
                    del den[k]
                    continue
                if t:
                    den[k] = (f, e)
                if a.deg is not None and a.deg >= 2:
                    # 1/x^e = x^(q d - e) / rule^q
                    d = a.deg
                    q = -(-e // d)
                    rem = q * d - e
                    del den[k]
                    if rem:
                        num = p_mul(num, _mono_poly(i, rem))
                    c, fs = p_factor(a.rule)
                    num = p_scale(num, Fraction(1) / (c ** q))
                    for g, ge in fs:
                        gk = p_key(g)
                        den[gk] = (g, den.get(gk, (g, 0))[1] + ge * q)
                    changed = True
                continue
            # polynomial factor: try exact division
            while e > 0:
                q = p_divexact(num, f)
                if q is None:
                    break
                num = q
                e -= 1
                changed = True
            if e == 0:
                del den[k]
            else:
                den[k] = (f, e)
    return RF(num, den)


def rf_neg(a):
    return RF(p_neg(a.num), a.den)


def rf_add(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if not a.den and not b.den:
        return norm(RF(p_add(a.num, b.num)))
    den = {}
    ma, mb = {ONE_M: 1}, {ONE_M: 1}
    for k in set(a.den) | set(b.den):
        f = (a.den.get(k) or b.den.get(k))[0]
        ea = a.den[k][1] if k in a.den else 0
        eb = b.den[k][1] if k in b.den else 0
        e = max(ea, eb)
        den[k] = (f, e)
        if e > ea:
            ma = p_mul(ma, p_pow(f, e - ea))
        if e > eb:
            mb = p_mul(mb, p_pow(f, e - eb))
    return norm(RF(p_add(p_mul(a.num, ma), p_mul(b.num, mb)), den))


def rf_sub(a, b):
    return rf_add(a, rf_neg(b))


def rf_mul(a, b):
    if not a.num or not b.num:
        return RF({})
    an, bn = a.num, b.num
    # cross-cancel before multiplying to keep terms small
    aden, bden = dict(a.den), dict(b.den)
    if bden and len(an) > 1:
        an, bden = _crosscancel(an, bden)
    if aden and len(bn) > 1:
        bn, aden = _crosscancel(bn, aden)
    den = dict(aden)
    for k, (f, e) in bden.items():
        den[k] = (f, den[k][1] + e) if k in den else (f, e)
    return norm(RF(p_mul(an, bn), den))


def _crosscancel(num, den):
    den = dict(den)
    for k in list(den):
        f, e = den[k]
        while e > 0:
            q = p_divexact(num, f)
            if q is None:
                break
            num = q
            e -= 1
        if e == 0:
            del den[k]
        else:
            den[k] = (f, e)
    return num, den


_powers = {}


def _factor_known(p):
    """factorisation, using the powers this path has built (a reduced power hides its base)"""
    r = _powers.get(p_key(p))
    if r is None:
        return p_factor(p)
    f, n = r
    c, fs = _factor_known(f)
    return c ** n, [(g, e * n) for g, e in fs]


def rf_inv(a):
    """1/a; the caller has established a != 0"""
    c, fs = _factor_known(a.num)
    num = p_const(Fraction(1) / c)
    for f, e in a.den.values():
        num = p_mul(num, p_pow(f, e))
    den = {}
    for f, e in fs:
        k = p_key(f)
        den[k] = (f, den[k][1] + e) if k in den else (f, e)
    return norm(RF(num, den))


def rf_div(a, b):
    return rf_mul(a, rf_inv(b))


def rf_powi(a, n):
    if n < 0:
        return rf_powi(rf_inv(a), -n)
    r = rf_const(1)
    b = a
    k = n
    while n:
        if n & 1:
            r = rf_mul(r, b)
        n >>= 1
        if n:
            b = rf_mul(b, b)
    if k > 1 and 1 < len(a.num) <= 8 and len(r.num) > 1:
        q = p_pow(a.num, k)
        if p_key(q) == p_key(r.num):
            _powers[p_key(q)] = (a.num, k)
    return r


def rf_terms(a):
    """split into [(coef, RF monomial with coefficient 1)]

    Over a denominator, the terms belonging to one angle / logarithm / integer are collected first, so that
    (x*(1+e) + y)/(1+e) is recognised as x + y/(1+e).
    """
    if not a.den:
        return [(Fraction(c), RF({m: 1})) for m, c in a.num.items()]
    groups = {}
    for m, c in a.num.items():
        sp = tuple(x for x in m if _special(T.atoms[x[0]]))
        rest = tuple(x for x in m if not _special(T.atoms[x[0]]))
        groups.setdefault(sp, {})[rest] = c
    out = []
    for sp, p in groups.items():
        r = norm(RF(dict(p), dict(a.den)))
        if not r.num:
            continue
        if not r.den:
            for m, c in r.num.items():
                out.append((Fraction(c), RF({m_mul(sp, m): 1})))
            continue
        # one opaque term with a canonical leading coefficient
        if sp:
            r = rf_mul(r, RF({sp: 1}))
            for m, c in r.num.items():
                t = norm(RF({m: 1}, dict(r.den)))
                if len(t.num) == 1:
                    (mm, cc), = t.num.items()
                    out.append((Fraction(c) * cc, RF({mm: 1}, t.den)))
                else:
                    out.append((Fraction(c), t))
            continue
        cont, cm, prim = p_content(r.num)
        out.append((cont, RF({m_mul(cm, m): c for m, c in prim.items()}, r.den)))
    return out


def _special(a):
    return a.kind in ("angle", "log", "int") or a.integer or a.name == "pi"


def p_str(p, limit=12):
    if not p:
        return "0"
    out = []
    for m, c in list(p.items())[:limit]:
        s = "*".join(T.atoms[i].name + ("^%d" % e if e > 1 else "") for i, e in m)
        out.append(("%s*%s" % (c, s)) if s else str(c))
    return " + ".join(out) + (" + ... (%d terms)" % len(p) if len(p) > limit else "")


def rf_str(r):
    s = p_str(r.num)
    if r.den:
        s = "(%s) / (%s)" % (s, " * ".join("(%s)^%d" % (p_str(f), e) for f, e in r.den.values()))
    return s


def root_int(n, q):
    """integer q-th root of n >= 0 if exact else None"""
    if n < 2:
        return n
    if q == 2:
        r = isqrt(n)
        return r if r * r == n else None
    r = round(n ** (1.0 / q))
    for k in (r - 1, r, r + 1):
        if k ** q == n:
            return k
    return None
