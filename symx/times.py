"""Time stamps: numpy's datetime64/timedelta64 and the datetime module, with
symbolic integer counts and rounded double-precision quotients."""
import datetime as _dt
import types
from fractions import Fraction

import numpy as _np
import z3

from . import core
from .core import SymInt, Unsupported

# length of a unit in attoseconds-free exact terms: seconds as fractions
UNIT = {
    "W": Fraction(604800), "D": Fraction(86400), "h": Fraction(3600), "m": Fraction(60), "s": Fraction(1),
    "ms": Fraction(1, 10**3), "us": Fraction(1, 10**6), "ns": Fraction(1, 10**9),
}


def _mag(n):
    """A bound on |n|."""
    if not isinstance(n, SymInt):
        return abs(int(n))
    lo, hi = n.bounds()
    if lo is None or hi is None:
        raise Unsupported("time stamp without bounds")
    return max(abs(lo), abs(hi))


def _half_ulp(b):
    """Rounding error of a double of magnitude at most b (a Fraction)."""
    e = 0
    b = Fraction(b)
    while Fraction(2) ** e < b:
        e += 1
    while e > -60 and Fraction(2) ** (e - 1) >= b:
        e -= 1
    return Fraction(2) ** (e - 54)


def _fresh():
    ctx = core.CTX
    v = z3.Int(f"time!{len(ctx.atoms)}")
    return v, ctx


def _near(num, den, slack_lo, slack_hi):
    """A fresh integer m with slack_lo <= m - num/den <= slack_hi."""
    lo, hi = Fraction(slack_lo), Fraction(slack_hi)
    v, ctx = _fresh()
    b = _mag(num) // den + 4
    m = ctx.atom(v, -b, b)
    for s, sign in ((lo, 1), (hi, -1)):
        # sign * (m - num/den - s) >= 0
        q = s.denominator
        ctx.add(sign * (m * (den * q) - num * q - s.numerator * den) >= 0)
    return m


class Flt:
    """A double: num/den (exact) with an absolute error of at most eps."""

    def __init__(self, num, den, eps):
        self.num, self.den, self.eps = num, den, Fraction(eps)

    @staticmethod
    def of(x):
        if isinstance(x, Flt):
            return x
        if isinstance(x, SymInt):
            m = _mag(x)
            return Flt(x, 1, 0 if m <= 2**53 else _half_ulp(m))
        if isinstance(x, (int, float, _np.floating, _np.integer)):
            f = Fraction(float(x))
            return Flt(f.numerator, f.denominator, 0)
        return None

    def _bound(self):
        return Fraction(_mag(self.num), self.den) + self.eps

    def _rounded(self):
        # exact results (integers below 2**53) are not rounded
        if self.eps == 0 and self.den == 1 and self._bound() <= 2**53:
            return self
        return Flt(self.num, self.den, self.eps + _half_ulp(self._bound()))

    def _const(self):
        return not isinstance(self.num, SymInt) and self.eps == 0

    def __add__(self, o):
        o = Flt.of(o)
        if o is None:
            return NotImplemented
        return Flt(self.num * o.den + o.num * self.den, self.den * o.den, self.eps + o.eps)._rounded()

    __radd__ = __add__

    def __neg__(self):
        return Flt(-self.num, self.den, self.eps)

    def __sub__(self, o):
        o = Flt.of(o)
        if o is None:
            return NotImplemented
        return self + -o

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        o = Flt.of(o)
        if o is None:
            return NotImplemented
        if self._const():
            self, o = o, self
        if not o._const():
            raise Unsupported("product of rounded numbers")
        c = Fraction(o.num, o.den)
        return Flt(self.num * c.numerator, self.den * c.denominator, self.eps * abs(c))._rounded()

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Flt.of(o)
        if o is None:
            return NotImplemented
        if not o._const():
            raise Unsupported("quotient of rounded numbers")
        if o.num == 0:
            raise ZeroDivisionError("division by zero")
        c = Fraction(o.den, o.num)
        return Flt(self.num * c.numerator, self.den * c.denominator, self.eps * abs(c))._rounded()

    def _floor(self):
        return _near(self.num, self.den, -1 - self.eps, self.eps)

    def __floordiv__(self, o):
        return Flt.of((self / o)._floor())

    def __mod__(self, o):
        return self - Flt.of((self / o)._floor()) * o

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round to digits")
        return _near(self.num, self.den, -Fraction(1, 2) - self.eps, Fraction(1, 2) + self.eps)

    def __symint__(self):
        return self.__trunc__()

    def __trunc__(self):
        if core.SymInt.of(self.num) >= 0:
            return self._floor()
        return -(-self)._floor()

    def __symfloat__(self):
        return self

    def __float__(self):
        raise Unsupported("float of a rounded quotient")

    def item(self):
        return self

    def __eq__(self, o):
        raise Unsupported("comparison of rounded numbers")

    __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __eq__
    __hash__ = None

    def micro(self):
        """To whole microseconds, as the datetime module rounds."""
        t = Flt(self.num * 10**6, self.den, self.eps * 10**6 + Fraction(1, 2**30))
        return t.__round__()


def _finer(a, b):
    return a if UNIT[a] <= UNIT[b] else b


def _parse_unit(spec):
    s = str(spec)
    if "[" in s:
        s = s[s.index("[") + 1:s.index("]")]
    if s not in UNIT:
        raise Unsupported("time unit " + s)
    return s


def _wrapped(n):
    """As 64 bits hold it: numpy's counts wrap around silently."""
    lo, hi = n.bounds() if isinstance(n, SymInt) else (n, n)
    if lo is None or hi is None or (lo >= -(2**63) and hi < 2**63):
        return n
    return (n + 2**63) % 2**64 - 2**63


class _Count:
    """An integer count of a unit."""

    def __init__(self, n=0, unit=None):
        if isinstance(n, _Count):
            unit = unit or n.unit
            n = n.to(unit).n
        elif isinstance(n, SymTimedelta):
            n, unit = n.us, unit or "us"
        elif not isinstance(n, (int, SymInt, _np.integer)):
            real = self.NP(n, unit) if unit else self.NP(n)
            unit = _np.datetime_data(real.dtype)[0]
            n = int(real.astype("int64"))
        self.n, self.unit = _wrapped(n), _parse_unit(unit or "s")

    def to(self, unit):
        unit = _parse_unit(unit)
        r = UNIT[self.unit] / UNIT[unit]
        n = self.n * r.numerator
        if r.denominator != 1:
            n = n // r.denominator
        return type(self)(n, unit)

    def astype(self, t):
        if isinstance(t, str) and "[" in t or isinstance(t, _np.dtype) and t.kind in "mM":
            if isinstance(t, str) and not t.lstrip("<>=").startswith(self.NP.__name__[:8].rstrip("6")) and not t.lstrip("<>=").startswith(self.CODE):
                raise Unsupported("time astype " + t)
            return self.to(t)
        if t is Datetime or t is Timedelta or t in ("O", object, _dt.datetime, _dt.timedelta):
            return self.item()
        name = getattr(t, "__name__", str(t))
        if name in ("int", "int64", "i8", "IntShim", "<i8"):
            return self.n
        if name in ("float", "float64", "f8", "FloatShim", "<f8"):
            return Flt.of(self.n)
        raise Unsupported(f"time astype {t}")

    def view(self, t):
        return self.astype(t)

    @property
    def dtype(self):
        return _np.dtype(f"{self.CODE}[{self.unit}]")

    def tolist(self):
        return self.item()

    def __symint__(self):
        return self.n

    def _us(self):
        return self.to("us").n

    def _cmp(self, o, f):
        if not isinstance(o, _Count):
            o = type(self)(o)
        u = _finer(self.unit, o.unit)
        return f(self.to(u).n, o.to(u).n)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = None


class DT64(_Count):
    NP, CODE = _np.datetime64, "M8"

    def item(self):
        if self.unit == "ns":
            return self.n
        if UNIT[self.unit] >= 86400:
            raise Unsupported("date")
        return SymDatetime(self._us())

    def __sub__(self, o):
        if isinstance(o, DT64):
            u = _finer(self.unit, o.unit)
            return TD64(self.to(u).n - o.to(u).n, u)
        if isinstance(o, TD64):
            u = _finer(self.unit, o.unit)
            return DT64(self.to(u).n - o.to(u).n, u)
        return NotImplemented

    def __add__(self, o):
        if not isinstance(o, TD64):
            return NotImplemented
        u = _finer(self.unit, o.unit)
        return DT64(self.to(u).n + o.to(u).n, u)


class TD64(_Count):
    NP, CODE = _np.timedelta64, "m8"

    def item(self):
        if self.unit == "ns":
            return self.n
        return SymTimedelta(self._us())

    def _pair(self, o):
        if not isinstance(o, TD64):
            return None
        u = _finer(self.unit, o.unit)
        return self.to(u).n, o.to(u).n, u

    def __add__(self, o):
        p = self._pair(o)
        return TD64(p[0] + p[1], p[2]) if p else NotImplemented

    def __sub__(self, o):
        p = self._pair(o)
        return TD64(p[0] - p[1], p[2]) if p else NotImplemented

    def __neg__(self):
        return TD64(-self.n, self.unit)

    def __truediv__(self, o):
        p = self._pair(o)
        if p:
            return Flt.of(p[0]) / Flt.of(p[1])
        raise Unsupported("time divided by a number")

    def __floordiv__(self, o):
        p = self._pair(o)
        if p:
            return p[0] // p[1]
        raise Unsupported("time divided by a number")

    def __mod__(self, o):
        p = self._pair(o)
        return TD64(p[0] % p[1], p[2]) if p else NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def __mul__(self, o):
        if isinstance(o, (int, SymInt)):
            return TD64(self.n * o, self.unit)
        raise Unsupported("time multiplied")

    __rmul__ = __mul__


class SymTimedelta:
    """datetime.timedelta: whole microseconds."""

    def __init__(self, us):
        self.us = us

    @staticmethod
    def make(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        us, rest = 0, None
        for v, f in ((days, 86400), (seconds, 1), (milliseconds, Fraction(1, 1000)), (microseconds, Fraction(1, 10**6)),
                     (minutes, 60), (hours, 3600), (weeks, 604800)):
            f = Fraction(f) * 10**6
            if isinstance(v, TD64):
                raise TypeError("unsupported type for timedelta component: numpy.timedelta64")
            if isinstance(v, (int, SymInt, _np.integer)):
                us = us + v * int(f)
            else:
                if rest is not None:
                    raise Unsupported("timedelta of several rounded numbers")
                v = Flt.of(v)
                if v is None:
                    raise TypeError("unsupported type for timedelta component")
                # the whole and the fractional part are scaled separately
                rest = Flt(v.num * int(f), v.den, v.eps * f + Fraction(1, 2**30)).__round__()
        return SymTimedelta(us if rest is None else us + rest)

    @staticmethod
    def of(x):
        if isinstance(x, SymTimedelta):
            return x
        if isinstance(x, _dt.timedelta):
            return SymTimedelta(x // _dt.timedelta(microseconds=1))
        return None

    def __add__(self, o):
        if isinstance(o, SymDatetime):
            return o + self
        o = SymTimedelta.of(o)
        return NotImplemented if o is None else SymTimedelta(self.us + o.us)

    __radd__ = __add__

    def __sub__(self, o):
        o = SymTimedelta.of(o)
        return NotImplemented if o is None else SymTimedelta(self.us - o.us)

    def __neg__(self):
        return SymTimedelta(-self.us)

    def __mul__(self, k):
        if isinstance(k, (int, SymInt)):
            return SymTimedelta(self.us * k)
        raise Unsupported("timedelta multiplied")

    __rmul__ = __mul__

    def total_seconds(self):
        return Flt.of(self.us) / 10**6

    @property
    def days(self):
        return self.us // (86400 * 10**6)

    @property
    def seconds(self):
        return self.us // 10**6 % 86400

    @property
    def microseconds(self):
        return self.us % 10**6


class SymDatetime:
    """datetime.datetime: microseconds since 1970 on the shown clock, and the zone."""

    def __init__(self, us, tz=None):
        self.us, self.tzinfo = us, tz

    def __add__(self, o):
        o = SymTimedelta.of(o)
        return NotImplemented if o is None else SymDatetime(self.us + o.us, self.tzinfo)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymDatetime):
            return SymTimedelta(self.us - o.us)
        if isinstance(o, _dt.datetime):
            return SymTimedelta(self.us - since(o))
        o = SymTimedelta.of(o)
        return NotImplemented if o is None else SymDatetime(self.us - o.us, self.tzinfo)

    def replace(self, tzinfo="keep", microsecond=None, **k):
        if k:
            raise Unsupported("datetime.replace")
        us = self.us
        if microsecond is not None:
            us = us - us % 10**6 + microsecond
        return SymDatetime(us, self.tzinfo if tzinfo == "keep" else tzinfo)

    @property
    def microsecond(self):
        return self.us % 10**6

    @property
    def second(self):
        return self.us // 10**6 % 60

    def astimezone(self, tz=None):
        if self.tzinfo is _dt.timezone.utc and tz is _dt.timezone.utc:
            return self
        raise Unsupported("time zones")


def since(d):
    return (d.replace(tzinfo=None) - _dt.datetime(1970, 1, 1)) // _dt.timedelta(microseconds=1)


LOCAL = 19800 * 10**6  # the clock of the zone set natively


class _DatetimeMeta(type):
    def __call__(cls, *a, **k):
        if any(core.is_sym(x) or isinstance(x, Flt) for x in list(a) + list(k.values())):
            raise Unsupported("datetime of symbolic fields")
        d = _dt.datetime(*a, **k)
        return SymDatetime(since(d), d.tzinfo)

    def __instancecheck__(cls, x):
        return isinstance(x, (SymDatetime, _dt.datetime))

    def __getattr__(cls, name):
        raise Unsupported("datetime.datetime." + name)


class Datetime(metaclass=_DatetimeMeta):
    min, max = _dt.datetime.min, _dt.datetime.max

    @staticmethod
    def _stamp(x):
        if isinstance(x, SymInt) or isinstance(x, int):
            return x * 10**6
        if isinstance(x, TD64):
            raise TypeError("an integer is required (got type timedelta64)")
        f = Flt.of(x)
        if f is None:
            raise TypeError("a number is required")
        return f.micro()

    @staticmethod
    def utcfromtimestamp(x):
        return SymDatetime(Datetime._stamp(x))

    @staticmethod
    def fromtimestamp(x, tz=None):
        us = Datetime._stamp(x)
        if tz is None:
            return SymDatetime(us + LOCAL)
        off = tz.utcoffset(None)
        if off is None:
            raise Unsupported("time zone")
        return SymDatetime(us + off // _dt.timedelta(microseconds=1), tz)


class _TimedeltaMeta(type):
    def __call__(cls, *a, **k):
        return SymTimedelta.make(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, (SymTimedelta, _dt.timedelta))


class Timedelta(metaclass=_TimedeltaMeta):
    pass


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(_dt, name)


def module():
    m = _Module("datetime")
    m.datetime = Datetime
    m.timedelta = Timedelta
    return m
