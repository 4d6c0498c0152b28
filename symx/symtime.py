"""Symbolic durations and instants (microsecond resolution, like the datetime module)."""
from __future__ import annotations

from datetime import datetime, timedelta, timezone, tzinfo
import time as _time

import z3

from . import engine as E
from .engine import SymBool, SymInt, SymReal, Unsupported, ctx, lift, to_bool_expr
from .pyd import SYM_LEAVES, TOKENS
from .shims import _Meta

US = 1_000_000
NOW = datetime.now(timezone.utc).replace(microsecond=0)


def us_of(td):
    if type(td) is SymTD:
        return td.e
    if type(td) is timedelta:
        return z3.IntVal((td.days * 86400 + td.seconds) * US + td.microseconds)
    return None


def us_of_dt(dt):
    """(wall clock or utc instant, aware)"""
    if type(dt) is SymDT:
        return dt.e, dt.tzinfo is not None
    if isinstance(dt, datetime):
        aware = dt.tzinfo is not None
        base = datetime(1970, 1, 1, tzinfo=timezone.utc) if aware else datetime(1970, 1, 1)
        return us_of(dt - base), aware
    return None


def round_half_even(x):
    return E.s_round(x)


def num_us(x):
    """microseconds of a number of seconds"""
    e, k = lift(x)
    if k == "int":
        return e * US
    return lift(round_half_even(SymReal(e) * US))[0]


def local_offset():
    if _time.daylight:
        raise Unsupported("daylight saving of the local timezone")
    return timedelta(seconds=-_time.timezone)


class SymTD:
    __slots__ = ("e",)
    __class__ = property(lambda self: timedelta)

    def __init__(self, e):
        self.e = e

    @classmethod
    def from_seconds(cls, x):
        return cls(num_us(x))

    def total_seconds(self):
        return SymReal(z3.ToReal(self.e) / US)

    @property
    def days(self):
        return SymInt(self.e / (86400 * US))

    @property
    def seconds(self):
        return SymInt(self.e % (86400 * US) / US)

    @property
    def microseconds(self):
        return SymInt(self.e % US)

    def __add__(self, o):
        u = us_of(o)
        if u is not None:
            return SymTD(self.e + u)
        if isinstance(o, datetime):
            return SymDT.of(o) + self
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        u = us_of(o)
        return NotImplemented if u is None else SymTD(self.e - u)

    def __rsub__(self, o):
        u = us_of(o)
        if u is not None:
            return SymTD(u - self.e)
        if isinstance(o, datetime):
            return SymDT.of(o) - self
        return NotImplemented

    def __neg__(self):
        return SymTD(-self.e)

    def __abs__(self):
        return SymTD(z3.If(self.e >= 0, self.e, -self.e))

    def __mul__(self, o):
        v = lift(o)
        if v is None or v[1] != "int":
            raise Unsupported("timedelta * real")
        return SymTD(self.e * v[0])

    __rmul__ = __mul__

    def __truediv__(self, o):
        u = us_of(o)
        if u is not None:
            return SymReal(z3.ToReal(self.e) / z3.ToReal(u))
        raise Unsupported("timedelta / number")

    def __floordiv__(self, o):
        u = us_of(o)
        if u is not None:
            return SymInt(self.e / u)
        raise Unsupported("timedelta // number")

    def _cmp(self, o, f):
        u = us_of(o)
        return NotImplemented if u is None else SymBool(f(self.e, u))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        u = us_of(o)
        return False if u is None else SymBool(self.e == u)

    def __ne__(self, o):
        u = us_of(o)
        return True if u is None else SymBool(self.e != u)

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __hash__(self):
        return hash(ctx().concretise(self.e, cap=24, what="hash", strict=True))

    def __copy__(self):
        return self

    def __deepcopy__(self, _m):
        return self

    def __repr__(self):
        return f"<SymTD {self.e}>"

    def __str__(self):
        return "td-" + E.placeholder(SymInt(self.e))


class SymDT:
    __slots__ = ("e", "tz")
    __class__ = property(lambda self: datetime)

    def __init__(self, e, tz):
        self.e, self.tz = e, tz

    @classmethod
    def of(cls, dt):
        if type(dt) is SymDT:
            return dt
        return cls(us_of_dt(dt)[0], dt.tzinfo)

    @classmethod
    def from_unix(cls, x, tz=timezone.utc):
        u = num_us(x)
        if tz is None:
            u = u + us_of(local_offset())
        return cls(u, tz)

    @property
    def tzinfo(self):
        return self.tz

    def utcoffset(self):
        return None if self.tz is None else self.tz.utcoffset(None)

    def timestamp(self):
        e = self.e if self.tz is not None else self.e - us_of(local_offset())
        return SymReal(z3.ToReal(e) / US)

    def astimezone(self, tz=None):
        e = self.e if self.tz is not None else self.e - us_of(local_offset())
        if tz is None:
            tz = timezone(local_offset())
        return SymDT(e, tz)

    def replace(self, **kw):
        if set(kw) == {"tzinfo"}:
            tz = kw["tzinfo"]
            wall = self.e if self.tz is None else self.e + us_of(self.tz.utcoffset(None))
            if tz is None:
                return SymDT(wall, None)
            return SymDT(wall - us_of(tz.utcoffset(None)), tz)
        if kw == {"microsecond": 0}:
            return SymDT(self.e - self.e % US, self.tz)
        raise Unsupported(f"replace({list(kw)})")

    def _o(self, o, order):
        r = us_of_dt(o)
        if r is None:
            return None
        if r[1] != (self.tz is not None):
            if order:
                raise TypeError("can't compare offset-naive and offset-aware datetimes")
            return None
        return r[0]

    def __add__(self, o):
        u = us_of(o)
        return NotImplemented if u is None else SymDT(self.e + u, self.tz)

    __radd__ = __add__

    def __sub__(self, o):
        u = us_of(o)
        if u is not None:
            return SymDT(self.e - u, self.tz)
        if isinstance(o, datetime):
            return SymTD(self.e - self._o(o, True))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, datetime):
            return SymTD(self._o(o, True) - self.e)
        return NotImplemented

    def __lt__(self, o):
        return SymBool(self.e < self._o(o, True))

    def __le__(self, o):
        return SymBool(self.e <= self._o(o, True))

    def __gt__(self, o):
        return SymBool(self.e > self._o(o, True))

    def __ge__(self, o):
        return SymBool(self.e >= self._o(o, True))

    def __eq__(self, o):
        u = self._o(o, False) if isinstance(o, datetime) else None
        return False if u is None else SymBool(self.e == u)

    def __ne__(self, o):
        u = self._o(o, False) if isinstance(o, datetime) else None
        return True if u is None else SymBool(self.e != u)

    def __hash__(self):
        return hash(ctx().concretise(self.e, cap=24, what="hash", strict=True))

    def __copy__(self):
        return self

    def __deepcopy__(self, _m):
        return self

    def strftime(self, fmt):
        return f"dt{E.placeholder(SymInt(self.e))}-{abs(hash(fmt)) % 9973}"

    def isoformat(self, *_a, **_k):
        t = f"dt{E.placeholder(SymInt(self.e))}{'' if self.tz is None else self.tz}"
        TOKENS[t] = self
        return t

    def __str__(self):
        return self.isoformat()

    def __format__(self, f):
        return self.strftime(f) if f else self.isoformat()

    def __repr__(self):
        return f"<SymDT {self.e} {self.tz}>"


class DTShim(metaclass=_Meta):
    """datetime class with a clock that stands still"""

    _real = datetime

    def __new__(cls, *a, **k):
        return datetime(*a, **k)

    @staticmethod
    def now(tz=None):
        if tz is None:
            return (NOW + local_offset()).replace(tzinfo=None)
        return NOW.astimezone(tz)

    @staticmethod
    def utcnow():
        return NOW.replace(tzinfo=None)

    @staticmethod
    def fromtimestamp(x, tz=None):
        if E.is_sym(x):
            return SymDT.from_unix(x, tz)
        return datetime.fromtimestamp(x, tz=tz)

    @staticmethod
    def fromisoformat(s):
        return TOKENS[s] if s in TOKENS else datetime.fromisoformat(s)


class TDShim(metaclass=_Meta):
    _real = timedelta

    def __new__(cls, *a, **k):
        vals = [*a, *k.values()]
        if not any(E.is_sym(v) for v in vals):
            return timedelta(*a, **k)
        names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
        f = {"days": 86400 * US, "seconds": US, "microseconds": 1, "milliseconds": 1000,
             "minutes": 60 * US, "hours": 3600 * US, "weeks": 7 * 86400 * US}
        kw = dict(zip(names, a), **k)
        e = z3.RealVal(0)
        allint = True
        for n, v in kw.items():
            x, kind = lift(v)
            allint &= kind == "int"
            e = e + (z3.ToReal(x) if kind == "int" else x) * f[n]
        if allint:
            return SymTD(z3.simplify(z3.ToInt(e)))
        return SymTD(lift(round_half_even(SymReal(e)))[0])


def install(modules):
    for m in modules:
        d = m.__dict__
        if d.get("datetime") is datetime:
            d["datetime"] = DTShim
        if d.get("timedelta") is timedelta:
            d["timedelta"] = TDShim


SYM_LEAVES |= {SymTD, SymDT}
_ = (tzinfo, to_bool_expr)
