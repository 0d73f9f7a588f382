"""Running exoplanet.estimators on symbolic series."""
import astropy.units as u
import exoplanet.estimators as est

from fractions import Fraction

from engine import symnp
from checks.common import *

TRUSTED = ["numpy functions called by the code (solve, argsort, vander, masks, ...) are modelled by engine/symnp.py",
           "AstroPy quantities are modelled by numbers with a unit; conversion factors come from AstroPy"]


class MUnit:
    """an AstroPy unit that may be attached to symbolic numbers"""
    _symq = True
    __array_ufunc__ = None

    def __init__(self, unit):
        self.unit = u.Unit(unit.unit if isinstance(unit, MUnit) else unit)

    def __mul__(self, o):
        if isinstance(o, (MUnit, u.UnitBase)):
            return MUnit(self.unit * MUnit(o).unit)
        return MQ(o, self.unit)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (MUnit, u.UnitBase)):
            return MUnit(self.unit / MUnit(o).unit)
        return MQ(1 / o, self.unit)

    def __rtruediv__(self, o):
        return MQ(o, 1 / self.unit)

    def __rlshift__(self, o):
        return Quantity(o, self)

    def __pow__(self, k):
        return MUnit(self.unit ** k)

    def to(self, other, value=1.0):
        return self.unit.to(MUnit(other).unit) * value

    def __eq__(self, o):
        return self.unit == MUnit(o).unit

    def __hash__(self):
        return hash(self.unit)


class MQ:
    """numbers with a unit"""
    _symq = True
    __array_ufunc__ = None

    def __init__(self, value, unit):
        self.value = value
        self.u = u.Unit(unit.unit if isinstance(unit, MUnit) else unit)

    @property
    def unit(self):
        return MUnit(self.u)

    @property
    def shape(self):
        return np.shape(self.value)

    @property
    def ndim(self):
        return len(self.shape)

    def __len__(self):
        return len(self.value)

    def to(self, other):
        o = MUnit(other).unit
        k = self.u.to(o)
        return MQ(self.value if k == 1 else self.value * k, o)

    def to_value(self, other=None):
        return self.value if other is None else self.to(other).value

    def atleast_1d(self):
        return MQ(symnp.atleast_1d(self.value), self.u)

    def __getitem__(self, i):
        return MQ(self.value[i], self.u)

    def _other(self, o):
        return o if isinstance(o, MQ) else MQ(o, u.dimensionless_unscaled)

    def __mul__(self, o):
        if isinstance(o, (MUnit, u.UnitBase)):
            return MQ(self.value, self.u * MUnit(o).unit)
        o = self._other(o)
        return MQ(self.value * o.value, self.u * o.u)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (MUnit, u.UnitBase)):
            return MQ(self.value, self.u / MUnit(o).unit)
        o = self._other(o)
        return MQ(self.value / o.value, self.u / o.u)

    def __rtruediv__(self, o):
        return self._other(o) / self

    def __pow__(self, k):
        return MQ(self.value ** k, self.u ** k)

    def __add__(self, o):
        return MQ(self.value + Quantity(o, unit=self.u).value, self.u)

    def __sub__(self, o):
        return MQ(self.value - Quantity(o, unit=self.u).value, self.u)

    def __neg__(self):
        return MQ(-self.value, self.u)


def Quantity(value, unit=None, **kw):
    if isinstance(value, MUnit):
        value = MQ(1.0, value)
    if not isinstance(value, MQ):
        if isinstance(value, u.Quantity):
            value = MQ(value.value, value.unit)
        else:
            if isinstance(value, (list, tuple)):
                value = symnp.as_array(value)
            return MQ(value, u.dimensionless_unscaled if unit is None else unit)
    return value if unit is None else value.to(unit)


class Units:
    Quantity = staticmethod(Quantity)

    def __getattr__(self, name):
        x = getattr(u, name)
        return MUnit(x) if isinstance(x, u.UnitBase) else x


def _atleast_1d(*xs):
    out = [x.atleast_1d() if isinstance(x, MQ) else symnp.atleast_1d(x) for x in xs]
    return out[0] if len(out) == 1 else out


def _shape(x):
    return x.shape if isinstance(x, MQ) else symnp.shape(x)


class NP(symnp.SymNP):
    atleast_1d = staticmethod(_atleast_1d)
    shape = staticmethod(_shape)


def run(c, fn, *args, **kw):
    """the function of the code; symbolically with models of numpy and of the units"""
    repl = kw.pop("_repl", {})
    if c.mode == "num":
        with symnp.patched(est, **repl):
            return fn(*args, **kw)
    with symnp.patched(est, np=NP(), u=Units(), **repl):
        return fn(*args, **kw)


def arr(c, values):
    return np.asarray(values, dtype=float) if c.mode == "num" else symnp.sarr(values)


def quantity(c, values, unit=None):
    """an input as a user gives it"""
    v = arr(c, values) if np.ndim(values) else (float(values) if c.mode == "num" else values)
    if unit is None:
        return v
    return u.Quantity(v, unit) if c.mode == "num" else MQ(v, unit)


def plain(x):
    """numbers of a result"""
    v = x.value if hasattr(x, "value") and hasattr(x, "unit") else x
    return list(np.asarray(v, dtype=object).reshape(-1))


def tr(b):
    """truth of a comparison (forks the path while symbolic)"""
    return bool(b)
