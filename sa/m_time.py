"""Models of pandas time objects and of the datetime, zoneinfo and pytz modules.

A time value holds the count of its unit since 1970: of the instant (UTC) when
it has a time zone, of the wall clock when it is naive.  Time zones are
uninterpreted: a fixed offset is an unknown constant, a named zone an unknown
function of the instant.  Localising a wall clock in a named zone uses a
different unknown function, because a wall clock does not determine the instant.
"""

import calendar
import datetime as _dt
import re
from fractions import Fraction

from . import terms as T
from . import arrays as A
from . import symstr
from .arrays import Arr, PyExc
from .terms import AnalysisGap
from .values import MISSING, Builtin, ExtVal, Instance, Obj, Opaque, SymIter, SymList, SymStr
from . import interp as I
from .interp import CONSTS, EXT_TYPES, model
from . import m_numpy as N

PERSEC = A._UNITS


class TZ(Obj):
    tname = 'tzinfo'

    def __init__(self, kind, name, impl, offset=None):
        self.kind, self.name, self.impl = kind, name, impl
        self._offset = offset            # Term, seconds (fixed)

    def key(self):
        return (self.kind, self.name)

    def offset(self, sec):
        if self.kind == 'utc':
            return T.const(0)
        if self.kind == 'fixed':
            return self._offset
        for k, (c, a) in sec.lin.items():
            # the offset of wall - loc(wall), the instant of a wall clock, is loc(wall)
            if a is not None and a.op == 'fn' and a.data == 'tzloc:' + self.name and T.add(sec, a).fp == a.args[0].fp:
                return a
        T.FN_IV.setdefault('tzoff:' + self.name, (-86400, 86400))
        return T.func('tzoff:' + self.name, sec, isint=True)

    def local_offset(self, wall):
        if self.kind != 'region':
            return self.offset(wall)
        T.FN_IV.setdefault('tzloc:' + self.name, (-86400, 86400))
        return T.func('tzloc:' + self.name, wall, isint=True)

    def p_zone(self, it):
        if self.impl != 'pytz':
            return MISSING
        return self.name if self.kind != 'fixed' else None

    def p_key(self, it):
        return self.name if self.impl == 'zoneinfo' else MISSING

    def m_utcoffset(self, it, t=None):
        if t is None:
            if self.kind == 'region':
                return None
            return PdDelta(Arr((), [T.scale(self.offset(None), {0: Fraction(10**6)})], 'm8[us]', 'sc'), 'timedelta')
        w = t.wall()
        return delta_s(self.local_offset(secs(w)), w)

    def m_tzname(self, it, t=None):
        return SymStr([('tzname', self.name)]) if self.kind == 'region' else self.str(it)

    def p_localize(self, it):
        if self.impl != 'pytz':
            return MISSING
        return Builtin(lambda it_, t, is_dst=False: t.localize(it_, self), 'localize')

    def p_normalize(self, it):
        if self.impl != 'pytz':
            return MISSING
        return Builtin(lambda it_, t: t, 'normalize')

    def str(self, it):
        if self.kind != 'fixed' or self.impl == 'zoneinfo':
            return self.name
        if self.impl == 'pytz':
            return SymStr([('tzrepr', self.name)])
        return SymStr([('tzstr', self)])

    def compare(self, it, op, other):
        r = isinstance(other, TZ) and other.key() == self.key() and other.impl == self.impl
        return r if op == '==' else not r

    def __eq__(self, o):
        return isinstance(o, TZ) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())


def utc(impl='datetime'):
    return TZ('utc', 'UTC', impl)


def get_tz(it, z):
    if z is None or isinstance(z, TZ):
        return z
    if isinstance(z, str):
        if z.upper() in ('UTC', 'Z'):
            return utc()
        if z.lower() in ('dateutil/', 'tzlocal()') or not z:
            raise AnalysisGap('time zone name')
        if z.upper() in ('GMT',):
            return TZ('fixed', z, 'zoneinfo', T.const(0))
        if '(' in z or ' ' in z:
            raise PyExc(KeyError, f'No time zone found with key {z}')
        return TZ('region', z, 'zoneinfo')
    if isinstance(z, SymStr):
        if len(z.parts) == 1 and isinstance(z.parts[0], tuple):
            p = z.parts[0]
            if p[0] == 'tzstr':
                return p[1]
            if p[0] == 'tzname':
                return TZ('region', 'name of ' + p[1], 'zoneinfo')
        raise PyExc(KeyError, f'No time zone found with key {z.text()}')
    if isinstance(z, PdDelta):
        return TZ('fixed', 'offset', 'datetime', secs(z.arr).cells[0])
    raise PyExc(TypeError, f'tz argument {it.tname(z)}')


def secs(a):
    """Arr of time counts -> the same cells in seconds (exact)."""
    k = PERSEC[A.unit(a.dtype)]
    return Arr(a.axes, [T.scale(c, {0: Fraction(k)}) for c in a.cells], 'f8')


def shift(a, offs):
    """Add offsets (seconds, one per cell) to an M8 array."""
    k = PERSEC[A.unit(a.dtype)]
    return Arr(a.axes, [T.add(c, T.scale(o, {0: 1 / Fraction(k)})) for c, o in zip(a.cells, offs)], a.dtype, a.kind)


def delta_s(off, like):
    return PdDelta(Arr((), [T.scale(off, {0: Fraction(10**6)})], 'm8[us]', 'sc'), 'timedelta')


def fine(d):
    """pandas unit for a numpy dtype."""
    k, u = d[:2], A.unit(d)
    if u in ('s', 'ms', 'us', 'ns'):
        return d
    return k + '[s]'


class TimeLike(Obj):
    def p_shape(self, it):
        return A.shape_of(self.arr)

    def p_size(self, it):
        r = 1
        for s in A.shape_of(self.arr):
            r = it.binop('*', r, s)
        return r

    def p_ndim(self, it):
        return len(self.arr.axes)

    def length(self, it):
        if not self.arr.axes:
            raise PyExc(TypeError, f'object of type {self.tname} has no len()')
        return A.size_val(self.arr.axes[0])

    m___len__ = length

    def truth(self, it):
        if self.arr.axes:
            raise PyExc(ValueError, 'The truth value of an index is ambiguous')
        return True

    def p_unit(self, it):
        return A.unit(self.arr.dtype)

    def p_empty(self, it):
        return it.compare('==', self.p_size(it), 0)

    def m_item(self, it):
        if self.arr.axes and self.arr.axes != (1,):
            raise PyExc(ValueError, 'can only convert an array of size 1 to a Python scalar')
        return self._new(Arr((), [self.arr.cells[0]], self.arr.dtype, 'sc'))

    def p_T(self, it):
        return self

    def m_ravel(self, it, *a, **k):
        return self

    def p_is_monotonic_increasing(self, it):
        return Arr((), [T.boolatom('monotonic')], 'pyb', 'py')

    def m_isna(self, it):
        r = A.elementwise(lambda c: T.bnot(c.valid), [self.arr], 'b')
        return A.pybool(r.cells[0]) if not r.axes and self.scalar() else r

    m_isnull = m_isna

    def m_notna(self, it):
        r = A.elementwise(lambda c: c.valid, [self.arr], 'b')
        return A.pybool(r.cells[0]) if not r.axes and self.scalar() else r

    m_notnull = m_notna

    def p_hasnans(self, it):
        return N.reduce_(it, 'any', self.m_isna(it))

    def m_reshape(self, it, *s):
        raise PyExc(AttributeError, 'reshape')

    def scalar(self):
        return not self.arr.axes

    def getitem(self, it, k):
        if self.scalar():
            raise PyExc(TypeError, f'{self.tname} object is not subscriptable')
        return self._new(A.getitem(self.arr, N.norm_index(it, k)))

    def iterate(self, it):
        if self.scalar():
            raise PyExc(TypeError, f'{self.tname} object is not iterable')
        ax = self.arr.axes[0]
        if isinstance(ax, int):
            return [self._new(A.getitem(self.arr, j)) for j in range(ax)]
        return SymIter(ax.size, lambda i: self._new(A.getitem(self.arr, Arr((), [i], 'i8', 'sc'))))

    def m_tolist(self, it):
        r = self.iterate(it)
        if isinstance(r, SymIter):
            it.loopn += 1
            n = f'loop{it.loopn}'
            return SymList(r.size, n, r.elem(T.idxvar(n)))
        return r

    m_to_list = m_tolist

    def subst(self, m):
        a = self.arr
        return self._new(Arr(a.axes, [T.subst(c, m) for c in a.cells], a.dtype, a.kind))

    def copy_(self, it):
        return self._new(A.copy(self.arr, kind=self.arr.kind))

    def m_copy(self, it, *a, **k):
        return self.copy_(it)

    def m_view(self, it, d=None):
        d = N.get_dtype(it, d)
        if d in ('i8', 'M8', 'm8') or d is None:
            return Arr(self.arr.axes, self.arr.cells, d if d == 'i8' else self.arr.dtype)
        raise AnalysisGap('view of times')

    def p_asi8(self, it):
        return Arr(self.arr.axes, self.arr.cells, 'i8')

    def m_equals(self, it, o):
        return N.reduce_(it, 'all', self.compare(it, '==', o))

    def m_unique(self, it):
        raise AnalysisGap('unique times')

    def m_to_frame(self, it, *a, **k):
        raise AnalysisGap('to_frame of times')


class PdTimes(TimeLike):
    """DatetimeIndex, Timestamp or datetime."""

    def __init__(self, arr, tz=None, flavor=None):
        self.arr = arr
        self.tz = tz
        self.flavor = flavor or ('index' if arr.axes else 'stamp')
        if arr.axes and self.flavor in ('stamp', 'datetime'):
            self.flavor = 'index'
        if not arr.axes and self.flavor == 'index':
            self.flavor = 'stamp'

    @property
    def tname(self):
        return {'index': 'DatetimeIndex', 'stamp': 'Timestamp', 'datetime': 'datetime', 'date': 'date'}[self.flavor]

    def __repr__(self):
        return f'<{self.flavor} {self.tz and self.tz.name} {self.arr!r}>'

    def _new(self, arr):
        return PdTimes(arr, self.tz, self.flavor)

    def wall(self):
        if self.tz is None:
            return self.arr
        s = secs(self.arr)
        return shift(self.arr, [self.tz.offset(c) for c in s.cells])

    def localize(self, it, tz):
        if self.tz is not None:
            raise PyExc(TypeError, 'Already tz-aware, use tz_convert to convert.')
        s = secs(self.arr)
        if tz.kind == 'region' and 'localized' in it.env:
            it.env['localized'].append((s.cells[0], T.Loc.cur))
        return PdTimes(shift(self.arr, [T.neg(tz.local_offset(c)) for c in s.cells]), tz, self.flavor)

    # numpy
    def to_array(self, it):
        return A.copy(self.arr)

    def buffer(self, it):
        r = Arr(self.arr.axes, self.arr.cells, self.arr.dtype, owner=self.arr.owner)
        r.base = self.arr
        return r

    def to_dt64(self, it):
        return Arr(self.arr.axes, self.arr.cells, self.arr.dtype, 'sc' if not self.arr.axes else 'nd')

    def p_values(self, it):
        return self.buffer(it)

    def p__values(self, it):
        return self.buffer(it)

    def p_array(self, it):
        return self

    def m_to_numpy(self, it, dtype=None, **k):
        a = self.to_dt64(it)
        d = N.get_dtype(it, dtype)
        return A.astype(a, d) if d else a

    def m_to_datetime64(self, it):
        return self.to_dt64(it)

    def m_asm8(self, it):
        return self.to_dt64(it)

    def m___array__(self, it, dtype=None):
        return N.np_array(it, self, dtype)

    def m_astype(self, it, d, *a, **k):
        if isinstance(d, str) and ',' in d:
            tz = d.split(',')[1].strip(' ]')
            r = self.m_as_unit(it, d[d.index('[') + 1:d.index(',')])
            return r.m_tz_convert(it, tz) if r.tz is not None else r.localize(it, get_tz(it, tz))
        d = N.get_dtype(it, d)
        if A.is_time(d):
            if d[0] == 'm':
                raise PyExc(TypeError, 'Cannot cast DatetimeIndex to timedelta')
            if self.tz is not None:
                raise PyExc(TypeError, 'Cannot use .astype to convert from timezone-aware dtype to timezone-naive dtype')
            return PdTimes(A.astype(self.arr, d if A.unit(d) else self.arr.dtype), None, self.flavor)
        if d == 'i8':
            return Arr(self.arr.axes, list(self.arr.cells), 'i8')
        if A.is_float(d):
            raise PyExc(TypeError, 'Cannot cast DatetimeIndex to dtype float64')
        raise AnalysisGap('astype of times')

    def m_as_unit(self, it, u, round_ok=True):
        return PdTimes(A.astype(self.arr, f'M8[{u}]'), self.tz, self.flavor)

    def p_dtype(self, it):
        if self.tz is None:
            return N.DType(self.arr.dtype)
        return AwareDType(self)

    # time zone
    def p_tz(self, it):
        return self.tz

    p_tzinfo = p_tz

    def m_tz_localize(self, it, tz, ambiguous='raise', nonexistent='raise'):
        if self.flavor == 'datetime':
            return self._missing('tz_localize')
        if tz is None:
            return PdTimes(self.wall(), None, self.flavor)
        return self.localize(it, get_tz(it, tz))

    def m_tz_convert(self, it, tz):
        if self.flavor == 'datetime':
            return self._missing('tz_convert')
        if self.tz is None:
            raise PyExc(TypeError, 'Cannot convert tz-naive timestamps, use tz_localize to localize')
        tz = get_tz(it, tz)
        return PdTimes(self.arr, tz, self.flavor)

    def _missing(self, n):
        raise PyExc(AttributeError, f"'datetime.datetime' object has no attribute {n!r}")

    def m_astimezone(self, it, tz=None):
        if self.flavor == 'index':
            raise PyExc(AttributeError, 'astimezone')
        if self.tz is None:
            return self.localize(it, TZ('region', 'system', 'datetime')).m_astimezone(it, tz)
        return PdTimes(self.arr, get_tz(it, tz) or TZ('region', 'system', 'datetime'), self.flavor)

    def m_utcoffset(self, it):
        if self.tz is None:
            return None
        return delta_s(self.tz.offset(secs(self.arr).cells[0]), self.arr)

    def m_tzname(self, it):
        return None if self.tz is None else self.tz.m_tzname(it)

    def m_dst(self, it):
        raise AnalysisGap('dst()')

    def m_replace(self, it, *a, tzinfo=MISSING, **k):
        r = self
        if k or a:
            w = self.wall()
            w = _replace_fields(it, w, a, k)
            r = PdTimes(w, None, self.flavor)
            if self.tz is not None and tzinfo is MISSING:
                return r.localize(it, self.tz)
        if tzinfo is MISSING:
            return r
        w = PdTimes(r.wall(), None, self.flavor)
        return w if tzinfo is None else w.localize(it, get_tz(it, tzinfo))

    # components
    def _unitw(self, u):
        return A.astype(self.wall(), f'M8[{u}]')

    def _comp(self, it, f):
        w = self.wall()
        r = Arr(w.axes, [f(c) for c in w.cells], 'i4', 'nd')
        r.tag = 'index'
        if not w.axes:
            return A.pyint(r.cells[0])
        return r

    def _c(self, u):
        d = self.arr.dtype
        return lambda c: A.cast_time(c, d, f'M8[{u}]')

    def p_year(self, it):
        f = self._c('Y')
        return self._comp(it, lambda c: T.add(f(c), T.const(1970)))

    def p_month(self, it):
        f, g = self._c('M'), self._c('Y')
        return self._comp(it, lambda c: T.add(T.sub(f(c), T.scale(g(c), {0: Fraction(12)})), T.const(1)))

    def p_day(self, it):
        f, g = self._c('D'), self._c('M')
        return self._comp(it, lambda c: T.add(T.sub(f(c), A.month_start(g(c))), T.const(1)))

    def p_dayofyear(self, it):
        f, g = self._c('D'), self._c('Y')
        return self._comp(it, lambda c: T.add(T.sub(f(c), A.year_start(g(c))), T.const(1)))

    p_day_of_year = p_dayofyear

    def m_timetuple(self, it):
        raise AnalysisGap('timetuple')

    def p_dayofweek(self, it):
        f = self._c('D')
        return self._comp(it, lambda c: T.mod(T.add(f(c), T.const(3)), T.const(7)))

    p_weekday = p_dayofweek

    def _sub(self, it, u, n, up):
        if A._UORD.index(A.unit(self.arr.dtype)) < A._UORD.index(u):
            return self._comp(it, lambda c: T.const(0))
        f, g = self._c(u), self._c(up)
        return self._comp(it, lambda c: T.sub(f(c), T.scale(g(c), {0: Fraction(n)})))

    def p_hour(self, it):
        return self._sub(it, 'h', 24, 'D')

    def p_minute(self, it):
        return self._sub(it, 'm', 60, 'h')

    def p_second(self, it):
        return self._sub(it, 's', 60, 'm')

    def p_microsecond(self, it):
        return self._sub(it, 'us', 10**6, 's')

    def p_nanosecond(self, it):
        return self._sub(it, 'ns', 1000, 'us')

    def p_is_leap_year(self, it):
        y = N.to_arr(it, self.p_year(it))
        z = lambda c, n: T.eq(T.mod(c, T.const(n)), T.const(0))        # noqa: E731
        return A.elementwise(lambda c: T.bor(T.band(z(c, 4), T.bnot(z(c, 100))), z(c, 400)), [y], 'b')

    def p_value(self, it):
        return A.pyint(A.cast_time(self.arr.cells[0], self.arr.dtype, 'M8[ns]'))

    def m_timestamp(self, it):
        if self.tz is None and self.flavor == 'datetime':
            return self.localize(it, TZ('region', 'system', 'datetime')).m_timestamp(it)
        return A.pyfloat(secs(self.arr).cells[0])

    def m_to_julian_date(self, it):
        w = secs(self.wall())
        r = Arr(w.axes, [T.add(T.scale(c, {0: Fraction(1, 86400)}), T.const(Fraction('2440587.5'))) for c in w.cells], 'f8')
        r.tag = 'index'
        return r if w.axes else A.pyfloat(r.cells[0])

    def m_to_pydatetime(self, it, *a, **k):
        if self.arr.axes:
            return PdTimes(A.astype(self.arr, 'M8[us]'), self.tz, 'index')
        return PdTimes(A.astype(self.arr, 'M8[us]'), self.tz, 'datetime')

    def m_date(self, it):
        return PdTimes(A.astype(self.wall(), 'M8[D]'), None, 'date')

    def p_date(self, it):
        if self.flavor != 'index':
            return Builtin(lambda it_: self.m_date(it_), 'date')
        return PdTimes(A.astype(self.wall(), 'M8[D]'), None, 'index')

    def getattr(self, it, name):
        if name == 'date':
            return self.p_date(it)
        if name == 'weekday' and self.flavor != 'index':
            return Builtin(lambda it_: self.p_dayofweek(it_), 'weekday')
        if name in ('tz', 'tz_localize', 'tz_convert', 'unit', 'as_unit', 'dayofyear', 'day_of_year', 'normalize',
                    'floor', 'to_numpy', 'to_datetime64', 'asm8', 'value', 'size', 'shape', 'ndim', 'nanosecond',
                    'dtype', 'values', 'round', 'ceil') and self.flavor in ('datetime', 'date'):
            return MISSING
        if self.flavor != 'index' and name in ('size', 'shape', 'ndim', 'values', 'dtype', 'astype', 'tolist', 'item',
                                               'isna', 'notna', 'isnull', 'notnull', 'to_frame', 'to_series', 'map'):
            return MISSING
        if self.flavor == 'index' and name in ('timestamp', 'replace', 'astimezone', 'utcoffset', 'tzname', 'value',
                                               'to_datetime64', 'asm8'):
            return MISSING
        if name == 'asm8':
            return self.to_dt64(it)
        return super().getattr(it, name)

    def _round(self, it, freq, f):
        k = freq_secs(freq)
        w = self.wall()
        u = PERSEC[A.unit(w.dtype)]
        n = Fraction(k) / Fraction(u)
        r = PdTimes(Arr(w.axes, [T.scale(f(T.scale(c, {0: 1 / n})), {0: n}) for c in w.cells], w.dtype, w.kind),
                    None, self.flavor)
        return r if self.tz is None else r.localize(it, self.tz)

    def m_floor(self, it, freq, *a, **k):
        return self._round(it, freq, T.floor)

    def m_ceil(self, it, freq, *a, **k):
        return self._round(it, freq, T.ceil)

    def m_round(self, it, freq='D', *a, **k):
        if not isinstance(freq, str):
            raise AnalysisGap('rounding of times')
        return self._round(it, freq, lambda t: T.rnd(t, 0))

    def m_normalize(self, it):
        return self._round(it, 'D', T.floor)

    # text
    def m_strftime(self, it, fmt):
        if not isinstance(fmt, str):
            raise AnalysisGap('abstract time format')
        w = self.wall()
        if self.arr.axes:
            return SymStr([('strftime', fmt, w.cells[0].fp, A.unit(w.dtype), self.tz.key() if self.tz is not None and '%Z' in fmt else None)])
        v = w.cells[0].valid
        if v is not T.TRUE and not it.branch(v):
            raise PyExc(ValueError, 'NaTType does not support strftime')
        n = native(w)
        if n is not None and '%z' not in fmt and '%Z' not in fmt:
            return n.strftime(fmt)
        fp = secs(w).cells[0].fp
        full = {'%T': '%H:%M:%S', '%F': '%Y-%m-%d', '%R': '%H:%M', '%D': '%m/%d/%y'}
        fmt = re.sub('%.', lambda m: full.get(m.group(), m.group()), fmt)
        parts = []
        for x in re.split(r'(%-?.)', fmt):
            if len(x) >= 2 and x[0] == '%':
                if x == '%%':
                    parts.append('%')
                elif x in ('%Z', '%z'):
                    parts.append(('t', x[1:], None, self.tz.key()) if self.tz is not None else '')
                else:
                    parts.append(('t', x[1:], fp, None))
            else:
                parts.append(x)
        return symstr.join(parts)

    def format(self, it, spec):
        if spec:
            return self.m_strftime(it, spec)
        return self.str(it)

    def str(self, it):
        if not self.arr.axes and self.flavor == 'stamp':
            v = self.arr.cells[0].valid
            if v is not T.TRUE and not it.branch(v):
                return 'NaT'
        n = native(self.wall()) if not self.arr.axes and self.tz is None else None
        if n is not None:
            return str(n.date()) if self.flavor == 'date' else str(n)
        return SymStr([('timestr', secs(self.wall()).cells[0].fp, self.tz.key() if self.tz else None)])

    def m_isoformat(self, it, *a, **k):
        return self.str(it)

    def m_day_name(self, it, *a, **k):
        return self.m_strftime(it, '%A')

    def m_month_name(self, it, *a, **k):
        return self.m_strftime(it, '%B')

    # operators
    def _count(self, other):
        if isinstance(other, PdTimes):
            if (self.tz is None) != (other.tz is None):
                return None
            return other.arr
        return None

    def binop(self, it, op, other, rev):
        d = as_delta(it, other)
        if op in '+-' and d is not None and not (op == '-' and rev):
            k = N.to_arr(it, d)
            r = A.binop(op, self.arr, k)
            r.kind = 'sc' if not r.axes else 'nd'
            return PdTimes(r, self.tz, self.flavor)
        if op == '-':
            o = as_times(it, other)
            if o is not None:
                if (self.tz is None) != (o.tz is None):
                    raise PyExc(TypeError, 'Cannot subtract tz-naive and tz-aware datetime-like objects')
                a, b = (o.arr, self.arr) if rev else (self.arr, o.arr)
                r = A.binop('-', a, b)
                return PdDelta(r, 'timedelta' if self.flavor == 'datetime' and o.flavor == 'datetime' else None)
        if isinstance(other, Obj) and hasattr(other, 'binop') and not isinstance(other, TimeLike) and not rev:
            return other.binop(it, op, self, True)
        if isinstance(other, DateOffset):
            return other.apply(it, self, op)
        raise PyExc(TypeError, f'unsupported operand type(s) for {op}: {self.tname} and {it.tname(other)}')

    def compare(self, it, op, other):
        if isinstance(other, Obj) and not isinstance(other, TimeLike) and hasattr(other, 'compare'):
            inv = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]
            return other.compare(it, inv, self)
        o = as_times(it, other, strings=True)
        if o is None:
            if op == '==':
                return False
            if op == '!=':
                return True
            raise PyExc(TypeError, f'{op} not supported between times and {it.tname(other)}')
        if (self.tz is None) != (o.tz is None):
            if op in ('==', '!='):
                return op == '!='
            raise PyExc(TypeError, 'Cannot compare tz-naive and tz-aware datetime-like objects')
        r = A.compare(op, self.arr, o.arr)
        return r if r.axes else A.pybool(r.cells[0])

    def m_union(self, it, *a):
        raise AnalysisGap('union of times')

    def m_sort_values(self, it, *a, **k):
        raise AnalysisGap('sorting of times')

    def m_map(self, it, f):
        raise AnalysisGap('map over times')

    def m_min(self, it, *a):
        return self._new(N.reduce_(it, 'min', self.arr))

    def m_max(self, it, *a):
        return self._new(N.reduce_(it, 'max', self.arr))

    def p_name(self, it):
        return None

    def setattr(self, it, name, v):
        if name not in ('name', 'names', 'freq'):
            raise PyExc(AttributeError, f"'{self.tname}' object has no attribute '{name}'")

    def m_rename(self, it, *a, **k):
        return self

    def m_dropna(self, it, *a, **k):
        return self.getitem(it, self.m_notna(it))

    def where3(self, it, c, x, y):
        raise AnalysisGap('numpy.where over pandas times')

    def ufunc(self, it, name):
        if name in ('isnat', 'isnan'):
            return A.elementwise(lambda c: T.bnot(c.valid), [self.arr], 'b')
        raise PyExc(TypeError, f"ufunc '{name}' not supported for DatetimeIndex")


class AwareDType(Obj):
    tname = 'DatetimeTZDtype'

    def __init__(self, t):
        self.t = t

    def p_tz(self, it):
        return self.t.tz

    def p_unit(self, it):
        return A.unit(self.t.arr.dtype)

    def p_kind(self, it):
        return 'M'

    def str(self, it):
        return SymStr(['datetime64[', A.unit(self.t.arr.dtype), ', ', ('tzstr', self.t.tz), ']'])

    def compare(self, it, op, o):
        return op == '!='


class DateOffset(Obj):
    tname = 'DateOffset'

    def __init__(self, kw):
        self.kw = kw

    UNITS = {'days': 86400, 'weeks': 604800, 'hours': 3600, 'minutes': 60, 'seconds': 1,
             'microseconds': Fraction(1, 10**6), 'nanoseconds': Fraction(1, 10**9)}

    def binop(self, it, op, other, rev):
        if op == '+' and isinstance(other, PdTimes):
            return self.apply(it, other, op)
        raise PyExc(TypeError, f'unsupported operand type(s) for {op}: date offset and {it.tname(other)}')

    def apply(self, it, t, op):
        kw = {}
        for k, v in self.kw.items():
            f = T.const_fraction(v.cells[0]) if isinstance(v, Arr) and not v.axes else None
            v = v if f is None else int(f) if f.denominator == 1 else float(f)
            if not isinstance(v, (int, float)):
                raise AnalysisGap('abstract date offset')
            kw[k] = v
        sign = 1 if op == '+' else -1
        if set(kw) & {'months', 'years', 'month', 'year', 'day', 'hour', 'minute', 'second', 'microsecond'}:
            n = native(t.arr) if t.tz is None and not t.arr.axes else None
            if n is None or set(kw) - {'months', 'years', 'month', 'year', 'day', 'hour', 'minute', 'second',
                                       'microsecond'} - set(self.UNITS):
                raise AnalysisGap('calendar offset of abstract times')
            n = _shifted(n, kw, sign)
            us = (n - _dt.datetime(1970, 1, 1)) // _dt.timedelta(microseconds=1)
            t = PdTimes(Arr((), [T.const(us)], 'M8[us]', 'sc'), None, t.flavor)
        elif set(kw) - set(self.UNITS):
            raise AnalysisGap(f'date offset {sorted(kw)}')
        secs_ = sum((Fraction(v) * Fraction(self.UNITS[k]) for k, v in kw.items() if k in self.UNITS), Fraction(0))
        return PdTimes(shift(t.arr, [T.const(sign * secs_)] * len(t.arr.cells)), t.tz, t.flavor)


def _calendar(name):
    def f(it, *a):
        vals = []
        for v in a:
            if isinstance(v, Arr) and not v.axes:
                c = T.const_fraction(v.cells[0])
                v = None if c is None else int(c)
            if not isinstance(v, int):
                raise AnalysisGap(f'calendar.{name} of an abstract date')
            vals.append(v)
        try:
            r = getattr(calendar, name)(*vals)
        except (ValueError, TypeError) as e:
            raise PyExc(type(e) if type(e) in (ValueError, TypeError) else ValueError, str(e))
        return tuple(int(x) for x in r) if isinstance(r, tuple) else r
    I.MODELS[f'calendar.{name}'] = f


for _n in ('monthrange', 'isleap', 'leapdays', 'weekday'):
    _calendar(_n)


def _shifted(n, kw, sign):
    """A datetime with fields set and months added, clipped to the end of the month (dateutil's rule)."""
    m = (kw.get('year', n.year) + sign * kw.get('years', 0)) * 12 \
        + kw.get('month', n.month) - 1 + sign * kw.get('months', 0)
    y, mo = int(m) // 12, int(m) % 12 + 1
    try:
        d = min(int(kw.get('day', n.day)), calendar.monthrange(y, mo)[1])
        return n.replace(year=y, month=mo, day=d, **{k: int(kw[k]) for k in ('hour', 'minute', 'second', 'microsecond')
                                                     if k in kw})
    except ValueError as e:
        raise PyExc(ValueError, str(e))


@model('pandas.DateOffset', 'dateutil.relativedelta.relativedelta')
def pd_dateoffset(it, **kw):
    return DateOffset(kw)


def native(w):
    """A constant wall clock time as datetime.datetime, or None."""
    c = secs(w).cells[0]
    f = T.const_fraction(c) if c.valid is T.TRUE else None
    if f is None:
        return None
    us = f * 10**6
    if us.denominator != 1:
        return None
    try:
        return _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=int(us))
    except OverflowError:
        return None


def _replace_fields(it, w, a, k):
    names = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'nanosecond')
    k = dict(zip(names, a), **k)
    if not set(k) <= set(names):
        raise PyExc(TypeError, f'replace() got unexpected arguments {sorted(k)}')
    d = w.dtype
    pt = PdTimes(w, None)
    get = {n: (lambda n=n: N.to_arr(it, pt.getattr(it, n)).cells[0]) for n in names}
    cell = w.cells[0]
    per = {'hour': 3600, 'minute': 60, 'second': 1, 'microsecond': Fraction(1, 10**6), 'nanosecond': Fraction(1, 10**9)}
    if set(k) & {'year', 'month'}:
        f = {n: (N.to_arr(it, k[n]).cells[0] if n in k else get[n]()) for n in ('year', 'month', 'day')}
        tod = T.sub(cell, A.cast_time(A.cast_time(cell, d, 'M8[D]'), 'M8[D]', d))
        m = T.add(T.scale(T.sub(f['year'], T.const(1970)), {0: Fraction(12)}), T.sub(f['month'], T.const(1)))
        day = T.add(A.month_start(m), T.sub(f['day'], T.const(1)))
        cell = T.add(A.cast_time(day, 'M8[D]', d), tod)
        k = {n: v for n, v in k.items() if n not in ('year', 'month', 'day')}
    for n, v in k.items():
        diff = T.sub(N.to_arr(it, v).cells[0], get[n]())
        s = 86400 if n == 'day' else per[n]
        cell = T.add(cell, T.scale(diff, {0: Fraction(s) / Fraction(PERSEC[A.unit(d)])}))
    return Arr(w.axes, [cell], d, w.kind)


_FREQ = {'D': 86400, 'd': 86400, 'h': 3600, 'H': 3600, 'min': 60, 'T': 60, 'm': 60, 's': 1, 'S': 1,
         'ms': Fraction(1, 1000), 'L': Fraction(1, 1000), 'us': Fraction(1, 10**6), 'ns': Fraction(1, 10**9),
         'hour': 3600, 'hours': 3600, 'minutes': 60, 'minute': 60, 'sec': 1, 'second': 1, 'seconds': 1, 'day': 86400,
         'days': 86400, 'W': 604800, 'hr': 3600}


def freq_secs(freq):
    if not isinstance(freq, str):
        raise AnalysisGap('abstract frequency')
    n = ''
    s = freq.strip()
    while s and (s[0].isdigit() or s[0] in '.+-'):
        n += s[0]
        s = s[1:]
    s = s.strip()
    if s not in _FREQ:
        raise AnalysisGap(f'frequency {freq!r}')
    return Fraction(n or 1) * Fraction(_FREQ[s])


class PdDelta(TimeLike):
    """TimedeltaIndex, Timedelta or timedelta."""

    def __init__(self, arr, flavor=None):
        self.arr = arr
        self.flavor = flavor or ('index' if arr.axes else 'stamp')

    @property
    def tname(self):
        return {'index': 'TimedeltaIndex', 'stamp': 'Timedelta', 'timedelta': 'timedelta'}[self.flavor]

    def _new(self, arr):
        return PdDelta(arr, self.flavor if not arr.axes and self.flavor != 'index' else None)

    def to_array(self, it):
        return A.copy(self.arr)

    def buffer(self, it):
        return Arr(self.arr.axes, self.arr.cells, self.arr.dtype, base=self.arr)

    def to_td64(self, it):
        return Arr(self.arr.axes, self.arr.cells, self.arr.dtype, 'nd' if self.arr.axes else 'sc')

    def p_values(self, it):
        return self.to_td64(it)

    def m_to_numpy(self, it, dtype=None, **k):
        a = self.to_td64(it)
        return A.astype(a, N.get_dtype(it, dtype)) if dtype else a

    def m_to_timedelta64(self, it):
        return self.to_td64(it)

    def m_to_pytimedelta(self, it):
        return PdDelta(A.astype(self.arr, 'm8[us]'), 'timedelta' if not self.arr.axes else None)

    def m_astype(self, it, d):
        d = N.get_dtype(it, d)
        if A.is_time(d):
            return PdDelta(A.astype(self.arr, d), None)
        if d == 'i8':
            return Arr(self.arr.axes, list(self.arr.cells), 'i8')
        raise PyExc(TypeError, 'Cannot cast TimedeltaIndex')

    def m_as_unit(self, it, u, **k):
        return PdDelta(A.astype(self.arr, f'm8[{u}]'), self.flavor)

    def m_total_seconds(self, it):
        r = secs(self.arr)
        r.tag = 'index'
        return r if r.axes else A.pyfloat(r.cells[0])

    def p_dtype(self, it):
        return N.DType(self.arr.dtype)

    def p_value(self, it):
        return A.pyint(A.cast_delta(self.arr.cells[0], self.arr.dtype, 'm8[ns]'))

    def p_days(self, it):
        r = A.astype(self.arr, 'm8[D]')
        r = Arr(r.axes, r.cells, 'i8')
        return r if r.axes else A.pyint(r.cells[0])

    def p_seconds(self, it):
        s = A.astype(self.arr, 'm8[s]')
        r = Arr(s.axes, [T.mod(c, T.const(86400)) for c in s.cells], 'i8')
        return r if r.axes else A.pyint(r.cells[0])

    def p_microseconds(self, it):
        s = A.astype(self.arr, 'm8[us]')
        r = Arr(s.axes, [T.mod(c, T.const(10**6)) for c in s.cells], 'i8')
        return r if r.axes else A.pyint(r.cells[0])

    def unary(self, it, op):
        return self._new(A.unary(op, self.arr))

    def binop(self, it, op, other, rev):
        if isinstance(other, PdTimes):
            return other.binop(it, op, self, not rev)
        if isinstance(other, Obj) and not isinstance(other, TimeLike) and hasattr(other, 'binop'):
            return other.binop(it, op, self, not rev)
        if op in '+-' and as_delta(it, other) is None:
            o = as_times(it, other)
            if o is not None:
                return o.binop(it, op, self, not rev)
        d = as_delta(it, other)
        x = N.to_arr(it, d if d is not None else other)
        if op in '*/' and d is None and op == '/' and not A.is_time(x.dtype):
            op = '/'
        a, b = (x, self.arr) if rev else (self.arr, x)
        r = A.binop(op, a, b)
        if A.is_time(r.dtype):
            return PdDelta(Arr(r.axes, r.cells, r.dtype, 'nd' if r.axes else 'sc'),
                           self.flavor if self.flavor == 'timedelta' and not r.axes else None)
        return r if r.axes else A.pyfloat(r.cells[0]) if A.is_float(r.dtype) else A.pyint(r.cells[0])

    def compare(self, it, op, other):
        d = as_delta(it, other)
        if d is None:
            if op in ('==', '!='):
                return op == '!='
            raise PyExc(TypeError, 'invalid comparison of timedelta')
        r = A.compare(op, self.arr, N.to_arr(it, d))
        return r if r.axes else A.pybool(r.cells[0])

    def str(self, it):
        return SymStr([('delta', secs(self.arr).cells[0].fp)])

    def format(self, it, spec):
        return self.str(it)

    def ufunc(self, it, name):
        return N.apply1(it, name, self.arr)

    def m_abs(self, it):
        return self.ufunc(it, 'absolute')

    def _reduced(self, it, name):
        if not self.arr.axes:
            raise PyExc(AttributeError, f"'{self.tname}' object has no attribute '{name}'")
        r = N.reduce_(it, name, self.arr)
        return PdDelta(Arr((), r.cells, self.arr.dtype, 'sc'))

    def m_min(self, it, *a, **k):
        return self._reduced(it, 'min')

    def m_max(self, it, *a, **k):
        return self._reduced(it, 'max')

    def m_mean(self, it, *a, **k):
        return self._reduced(it, 'mean')

    def m_median(self, it, *a, **k):
        return self._reduced(it, 'median')

    def m_sum(self, it, *a, **k):
        return self._reduced(it, 'sum')

    def _rounded(self, it, freq, f):
        n = Fraction(freq_secs(freq)) / Fraction(PERSEC[A.unit(self.arr.dtype)])
        return self._new(Arr(self.arr.axes, [T.scale(f(T.scale(c, {0: 1 / n})), {0: n}) for c in self.arr.cells],
                             self.arr.dtype, self.arr.kind))

    def m_round(self, it, freq='D', *a):
        if not isinstance(freq, str):
            raise AnalysisGap('rounding of durations')
        return self._rounded(it, freq, lambda t: T.rnd(t, 0))

    def m_floor(self, it, freq, *a):
        return self._rounded(it, freq, T.floor)

    def m_ceil(self, it, freq, *a):
        return self._rounded(it, freq, T.ceil)


def as_delta(it, v):
    """v as PdDelta or m8 Arr, or None."""
    if isinstance(v, PdDelta):
        return v
    if isinstance(v, Arr) and v.dtype[0] == 'm':
        return v
    return None


def as_times(it, v, strings=False):
    if isinstance(v, PdTimes):
        return v
    if isinstance(v, Arr) and v.dtype[0] == 'M':
        return PdTimes(Arr(v.axes, v.cells, v.dtype, v.kind))
    if strings and isinstance(v, (str, SymStr)):
        return parse_time(it, v)
    return None


def item_of(it, a):
    c = a.cells[0]
    u = A.unit(a.dtype)
    if a.dtype[0] == 'M':
        if u in ('ns', 'ps'):
            return Arr((), [c], 'pyi', 'py')
        if u in ('D', 'M', 'Y', 'W'):
            return PdTimes(Arr((), [A.cast_time(c, a.dtype, 'M8[D]')], 'M8[D]', 'sc'), None, 'date')
        return PdTimes(Arr((), [A.cast_time(c, a.dtype, 'M8[us]')], 'M8[us]', 'sc'), None, 'datetime')
    if u in ('ns', 'ps', 'Y', 'M', None):
        return Arr((), [c], 'pyi', 'py')
    return PdDelta(Arr((), [A.cast_delta(c, a.dtype, 'm8[us]')], 'm8[us]', 'sc'), 'timedelta')


# ---------------------------------------------------------------------------
# constructors

def _now_instant():
    T.ATOMS.setdefault('now', T.AtomInfo(lo=0, hi=4102444800, integer=False))
    # in microseconds
    return T.scale(T.atom('now'), {0: Fraction(10**6)})


def now(it, tz=None, flavor='datetime'):
    it.env['read_clock'] = True
    a = Arr((), [_now_instant()], 'M8[us]', 'sc')
    tz = get_tz(it, tz)
    if tz is not None:
        return PdTimes(a, tz, flavor)
    return PdTimes(PdTimes(a, TZ('region', 'system', 'datetime')).wall(), None, flavor)


def epoch_of(y, mo=1, d=1, h=0, mi=0, s=0, us=0):
    try:
        t = _dt.datetime(y, mo, d, h, mi, s, us)
    except ValueError as e:
        raise PyExc(ValueError, str(e))
    return (t - _dt.datetime(1970, 1, 1)) // _dt.timedelta(microseconds=1)


def parse_time(it, s):
    """A string as a scalar time."""
    if isinstance(s, SymStr):
        if len(s.parts) == 1 and isinstance(s.parts[0], tuple) and s.parts[0][0] == 'timetext':
            return it.env['timetext'][s.parts[0][1]]
        h = it.env.get('parse_time')
        if h is not None:
            r = h(it, s)
            if r is not None:
                return r
        raise AnalysisGap(f'parsing an abstract time string {s.text()!r}')
    if s in ('NaT', 'nan', ''):
        return PdTimes(Arr((), [T.nan()], 'M8[s]', 'sc'))
    if s == 'now' or s == 'today':
        return now(it, flavor='stamp')
    try:
        t = _dt.datetime.fromisoformat(s)
    except ValueError:
        t = None
        for f in ('%Y-%m', '%Y', '%Y/%m/%d', '%Y/%m/%d %H:%M', '%Y/%m/%d %H:%M:%S'):
            try:
                t = _dt.datetime.strptime(s, f)
                break
            except ValueError:
                continue
        if t is None:
            raise PyExc(ValueError, f'Unknown datetime string format, unable to parse: {s}')
    tz = None
    if t.tzinfo is not None:
        off = t.utcoffset()
        tz = utc() if not off else TZ('fixed', str(off), 'datetime', T.const(int(off.total_seconds())))
        t = t.replace(tzinfo=None) - off
    n = (t - _dt.datetime(1970, 1, 1)) // _dt.timedelta(microseconds=1)
    return PdTimes(Arr((), [T.const(n)], 'M8[us]', 'sc'), tz, 'stamp')


def scalar_time(it, v, unit=None):
    """Any scalar as a PdTimes, or None."""
    if isinstance(v, PdTimes):
        return v
    if isinstance(v, (str, SymStr)):
        return parse_time(it, v)
    if isinstance(v, Arr) and not v.axes and v.dtype[0] == 'M':
        return PdTimes(A.astype(Arr((), v.cells, v.dtype, 'sc'), fine(v.dtype)), None, 'stamp')
    if isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, Arr) and not v.axes:
        a = A.lift(v)
        k = PERSEC[{None: 'ns', 'min': 'm', 'H': 'h', 'd': 'D'}.get(unit, unit)]
        c = T.scale(a.cells[0], {0: Fraction(k) * 10**9})
        return PdTimes(Arr((), [T.trunc(c) if not a.dtype.endswith('i') and A.is_float(a.dtype) else c], 'M8[ns]', 'sc'), None, 'stamp')
    return None


NAT = object()


@model('pandas.to_datetime')
def to_datetime(it, arg, errors='raise', dayfirst=False, yearfirst=False, utc=False, format=None, exact=True,
                unit=None, origin='unix', cache=True):
    if arg is None:
        return None
    r = _to_datetime(it, arg, unit)
    if utc:
        if r.tz is None:
            r = PdTimes(r.arr, globals()['utc'](), r.flavor)
        else:
            r = PdTimes(r.arr, globals()['utc'](), r.flavor)
    return r


def _to_datetime(it, arg, unit=None):
    if isinstance(arg, PdTimes):
        if arg.flavor in ('datetime', 'date'):
            return PdTimes(A.astype(arg.arr, 'M8[us]'), arg.tz, 'stamp')
        return arg
    if isinstance(arg, Arr) and arg.axes:
        if len(arg.axes) > 1 and arg.dtype[0] != 'M':
            raise PyExc(TypeError, 'arg must be a string, datetime, list, tuple, 1-d array, or Series')
        if arg.dtype[0] == 'M':
            d = fine(arg.dtype)
            a = A.astype(arg, d) if d != arg.dtype else Arr(arg.axes, arg.cells, arg.dtype, owner=arg.owner, base=arg)
            return PdTimes(a, None, 'index')
        k = PERSEC[{None: 'ns', 'min': 'm', 'H': 'h', 'd': 'D'}.get(unit, unit)]
        cells = [T.scale(c, {0: Fraction(k) * 10**9}) for c in arg.cells]
        if A.is_float(arg.dtype):
            cells = [T.trunc(c) for c in cells]
        return PdTimes(Arr(arg.axes, cells, 'M8[ns]'), None, 'index')
    if isinstance(arg, Instance) or isinstance(arg, Obj) and hasattr(arg, 'to_array') and not isinstance(arg, PdDelta):
        return _to_datetime(it, N.to_arr(it, arg), unit)
    if isinstance(arg, SymList):
        e = scalar_time(it, arg.elem, unit)
        if e is None:
            raise AnalysisGap('to_datetime of a symbolic list')
        a = N.to_arr(it, SymList(arg.size, arg.name, e.arr))
        return PdTimes(a, e.tz, 'index')
    if isinstance(arg, (list, tuple)):
        xs = [scalar_time(it, x, unit) for x in arg]
        if any(x is None for x in xs):
            raise AnalysisGap('to_datetime of a list')
        if not xs:
            return PdTimes(Arr((0,), [], 'M8[s]'), None, 'index')
        tz = xs[0].tz
        if any((x.tz is None) != (tz is None) for x in xs):
            raise PyExc(ValueError, 'Cannot mix tz-aware with tz-naive values')
        if any(x.tz != tz for x in xs):
            raise PyExc(ValueError, 'Mixed timezones detected. Pass utc=True')
        return PdTimes(A.stack([x.arr for x in xs]), tz, 'index')
    r = scalar_time(it, arg, unit)
    if r is None:
        raise PyExc(TypeError, f'{it.tname(arg)} is not convertible to datetime')
    if r.flavor in ('datetime', 'date'):
        r = PdTimes(r.arr, r.tz, 'stamp')
    return r


@model('pandas.DatetimeIndex')
def datetime_index(it, data=None, tz=None, ambiguous='raise', dtype=None, freq=None, copy=False, name=None):
    r = data if isinstance(data, PdTimes) and data.flavor == 'index' else _to_datetime(it, data)
    if not r.arr.axes:
        raise PyExc(TypeError, 'DatetimeIndex() must be called with a collection of some kind')
    if tz is not None:
        r = r.localize(it, get_tz(it, tz)) if r.tz is None else r.m_tz_convert(it, tz)
    if dtype is not None:
        r = r.m_astype(it, dtype)
    if copy:
        r = r.copy_(it)
    return r


class TimestampType(Builtin):
    pass


def _timestamp(it, v=None, *a, tz=None, unit=None, tzinfo=None, **k):
    tz = tz or tzinfo
    if isinstance(v, int) and a:
        n = epoch_of(v, *a)
        r = PdTimes(Arr((), [T.const(n)], 'M8[us]', 'sc'), None, 'stamp')
    elif v is None and k:
        n = epoch_of(k.get('year'), k.get('month'), k.get('day'), k.get('hour', 0), k.get('minute', 0), k.get('second', 0))
        r = PdTimes(Arr((), [T.const(n)], 'M8[us]', 'sc'), None, 'stamp')
    else:
        r = scalar_time(it, v, unit)
        if r is None:
            raise PyExc(TypeError, f'Cannot convert input [{it.tname(v)}] to Timestamp')
        if r.arr.axes:
            raise PyExc(TypeError, 'Cannot convert input to Timestamp')
        r = PdTimes(r.arr, r.tz, 'stamp')
    if tz is not None:
        r = r.localize(it, get_tz(it, tz)) if r.tz is None else r.m_tz_convert(it, tz)
    return r


I.MODELS['pandas.Timestamp'] = _timestamp
I.MODELS['pandas.Timestamp.now'] = lambda it, tz=None: now(it, tz, 'stamp')
I.MODELS['pandas.Timestamp.today'] = lambda it, tz=None: now(it, tz, 'stamp')
I.MODELS['pandas.Timestamp.utcnow'] = lambda it: now(it, 'UTC', 'stamp')
I.MODELS['pandas.Timestamp.fromtimestamp'] = lambda it, ts, tz=None: _fromts(it, ts, tz, 'stamp')
CONSTS['pandas.NaT'] = lambda: PdTimes(Arr((), [T.nan()], 'M8[ns]', 'sc'), None, 'stamp')
CONSTS['pandas.NA'] = lambda: Opaque('pandas.NA')


def _fromts(it, ts, tz, flavor):
    a = A.lift(ts)
    c = T.scale(a.cells[0], {0: Fraction(10**6)})
    r = PdTimes(Arr((), [c], 'M8[us]', 'sc'), utc(), flavor)
    if tz is None:
        return PdTimes(PdTimes(r.arr, TZ('region', 'system', 'datetime')).wall(), None, flavor)
    return PdTimes(r.arr, get_tz(it, tz), flavor)


def _datetime(it, year, month=1, day=1, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
    n = epoch_of(year, month, day, hour, minute, second, microsecond)
    r = PdTimes(Arr((), [T.const(n)], 'M8[us]', 'sc'), None, 'datetime')
    return r.localize(it, tzinfo) if tzinfo is not None else r


I.MODELS['datetime.datetime'] = _datetime
I.MODELS['datetime.datetime.now'] = lambda it, tz=None: now(it, tz)
I.MODELS['datetime.datetime.today'] = lambda it: now(it)
I.MODELS['datetime.datetime.utcnow'] = lambda it: PdTimes(now(it, 'UTC').arr, None, 'datetime')
I.MODELS['datetime.datetime.fromtimestamp'] = lambda it, ts, tz=None: _fromts(it, ts, tz, 'datetime')
I.MODELS['datetime.datetime.utcfromtimestamp'] = lambda it, ts: PdTimes(_fromts(it, ts, 'UTC', 'datetime').arr, None, 'datetime')


@model('datetime.datetime.fromisoformat')
def _fromiso(it, s):
    r = parse_time(it, s)
    return PdTimes(r.arr, r.tz, 'datetime')


@model('datetime.datetime.strptime')
def _strptime(it, s, fmt):
    if isinstance(s, str):
        try:
            t = _dt.datetime.strptime(s, fmt)
        except ValueError as e:
            raise PyExc(ValueError, str(e))
        return PdTimes(Arr((), [T.const(epoch_of(*t.timetuple()[:6]))], 'M8[us]', 'sc'), None, 'datetime')
    h = it.env.get('strptime')
    if h is not None:
        return h(it, s, fmt)
    r = parse_time(it, s)
    return PdTimes(r.arr, r.tz, 'datetime')


@model('dateutil.parser.parse')
def _duparse(it, s, *a, **k):
    r = parse_time(it, s)
    return PdTimes(A.astype(r.arr, 'M8[us]'), r.tz, 'datetime')


@model('datetime.date')
def _date(it, y, m, d):
    return PdTimes(Arr((), [T.const(epoch_of(y, m, d) // (86400 * 10**6))], 'M8[D]', 'sc'), None, 'date')


def _timedelta(it, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    tot = Arr((), [T.const(0)], 'pyf', 'py')
    for v, k in ((days, 86400), (seconds, 1), (microseconds, Fraction(1, 10**6)), (milliseconds, Fraction(1, 1000)),
                 (minutes, 60), (hours, 3600), (weeks, 604800)):
        a = N.to_arr(it, v)
        tot = A.binop('+', tot, A.binop('*', a, Arr((), [T.const(Fraction(k) * 10**6)], 'pyf', 'py')))
    c = tot.cells[0]
    if not c.isint:
        c = T.rnd(c, 0)
    return PdDelta(Arr((), [c], 'm8[us]', 'sc'), 'timedelta')


I.MODELS['datetime.timedelta'] = _timedelta


@model('pandas.Timedelta')
def _pdtimedelta(it, value=MISSING, unit=None, **k):
    if value is MISSING:
        r = _timedelta(it, **k)
        return PdDelta(r.arr, 'stamp')
    return to_timedelta(it, value, unit)


@model('pandas.to_timedelta')
def to_timedelta(it, v, unit=None, errors='raise'):
    if isinstance(v, PdDelta):
        return PdDelta(v.arr, None)
    if isinstance(v, str):
        s = v.strip()
        try:
            return PdDelta(Arr((), [T.const(freq_secs(s) * 10**9)], 'm8[ns]', 'sc'))
        except AnalysisGap:
            p = s.split(':')
            if len(p) == 3 and all(x.replace('.', '').isdigit() for x in p):
                q = Fraction(p[0]) * 3600 + Fraction(p[1]) * 60 + Fraction(p[2])
                return PdDelta(Arr((), [T.const(q * 10**9)], 'm8[ns]', 'sc'))
            raise
    if isinstance(v, SymStr):
        raise AnalysisGap('abstract timedelta string')
    if isinstance(v, Obj) and hasattr(v, 'map_data'):
        return v.map_data(it, lambda a: to_timedelta(it, a, unit).arr)
    a = N.to_arr(it, v)
    if a.dtype[0] == 'm':
        return PdDelta(Arr(a.axes, a.cells, fine(a.dtype), a.kind) if fine(a.dtype) == a.dtype else A.astype(a, fine(a.dtype)))
    if a.dtype[0] == 'M':
        raise PyExc(TypeError, 'dtype datetime64 cannot be converted to timedelta64')
    k = Fraction(_FREQ.get(unit or 'ns')) * 10**9
    cells = [T.scale(c, {0: k}) for c in a.cells]
    if A.is_float(a.dtype):
        cells = [c if c.isint else T.rnd(c, 0) if False else T.trunc(c) for c in cells]
    return PdDelta(Arr(a.axes, cells, 'm8[ns]', 'nd' if a.axes else 'sc'))


I.MODELS['pandas.TimedeltaIndex'] = to_timedelta


@model('pandas.date_range')
def date_range(it, start=None, end=None, periods=None, freq=None, tz=None, inclusive='both', **k):
    if start is not None and end is not None and periods is None and freq is not None:
        a, b = to_datetime(it, start), to_datetime(it, end)
        try:
            step = freq_secs(freq) if not isinstance(freq, PdDelta) else T.const_fraction(secs(freq.arr).cells[0])
        except AnalysisGap:
            step = None
        fa, fb = (T.const_fraction(secs(x.arr).cells[0]) if not x.arr.axes else None for x in (a, b))
        if step and fa is not None and fb is not None and a.tz is None and b.tz is None:
            n = (fb - fa) // step + 1 if fb >= fa else 0
            xs = [T.const((fa + i * step) * 10**6) for i in range(n)] if n <= 100000 else None
            if xs is not None:
                if inclusive in ('left', 'neither') and xs and fa + (n - 1) * step == fb:
                    xs.pop()
                if inclusive in ('right', 'neither') and xs:
                    xs.pop(0)
                r = PdTimes(Arr((len(xs),), xs, 'M8[us]'), None, 'index')
                return r if tz is None else r.localize(it, get_tz(it, tz))
    return PdTimes(Arr((A.new_axis('range'),), [T.atom('date_range', (T.idxvar('range'),))], 'M8[us]'),
                   get_tz(it, tz), 'index')


@model('pandas.isna', 'pandas.isnull')
def pd_isna(it, v):
    if v is None:
        return True
    if isinstance(v, TimeLike):
        return v.m_isna(it)
    if isinstance(v, (str, SymStr)):
        return False
    if isinstance(v, Obj) and hasattr(v, 'm_isnull'):
        return v.m_isnull(it)
    a = N.to_arr(it, v)
    r = A.elementwise(lambda c: T.bnot(c.valid), [a], 'b')
    return r if r.axes else A.pybool(r.cells[0])


@model('pandas.notna', 'pandas.notnull')
def pd_notna(it, v):
    r = pd_isna(it, v)
    return not r if isinstance(r, bool) else A.unary('~', r) if r.kind != 'py' else A.pybool(T.bnot(r.cells[0]))


CONSTS['datetime.timezone.utc'] = lambda: utc()
CONSTS['datetime.UTC'] = lambda: utc()
CONSTS['pytz.utc'] = lambda: utc('pytz')
CONSTS['pytz.UTC'] = lambda: utc('pytz')


@model('datetime.timezone')
def dt_timezone(it, off, name=None):
    if isinstance(off, PdDelta):
        c = secs(off.arr).cells[0]
        f = T.const_fraction(c)
        if f == 0:
            return utc()
        return TZ('fixed', f'UTC{f}' if f is not None else 'UTC+off', 'datetime', c)
    raise PyExc(TypeError, 'timezone() argument 1 must be datetime.timedelta')


@model('zoneinfo.ZoneInfo')
def zoneinfo(it, name):
    if not isinstance(name, str):
        t = get_tz(it, name)
        return TZ(t.kind, t.name, 'zoneinfo', t._offset)
    if name.upper() == 'UTC':
        return utc('zoneinfo')
    t = get_tz(it, name)
    return TZ(t.kind, t.name, 'zoneinfo', t._offset)


@model('pytz.timezone')
def pytz_timezone(it, name):
    t = get_tz(it, name)
    return TZ(t.kind, t.name, 'pytz', t._offset)


@model('pytz.FixedOffset')
def pytz_fixed(it, minutes):
    a = A.lift(minutes)
    return TZ('fixed', 'pytzfixed', 'pytz', T.scale(a.cells[0], {0: Fraction(60)}))


_isd = lambda fl: (lambda it, v: isinstance(v, PdTimes) and v.flavor in fl)       # noqa: E731
EXT_TYPES.update({
    'pandas.DatetimeIndex': _isd(('index',)),
    'pandas.Index': _isd(('index',)),
    'pandas.Timestamp': _isd(('stamp',)),
    'pandas.Timedelta': lambda it, v: isinstance(v, PdDelta) and v.flavor == 'stamp',
    'pandas.TimedeltaIndex': lambda it, v: isinstance(v, PdDelta) and v.flavor == 'index',
    'datetime.datetime': _isd(('stamp', 'datetime')),
    'datetime.date': _isd(('stamp', 'datetime', 'date')),
    'datetime.timedelta': lambda it, v: isinstance(v, PdDelta) and v.flavor != 'index',
    'datetime.tzinfo': lambda it, v: isinstance(v, TZ),
    'datetime.timezone': lambda it, v: isinstance(v, TZ) and v.impl == 'datetime',
    'zoneinfo.ZoneInfo': lambda it, v: isinstance(v, TZ) and v.impl == 'zoneinfo',
    'pytz.BaseTzInfo': lambda it, v: isinstance(v, TZ) and v.impl == 'pytz',
    'pandas.NaT': lambda it, v: False,
})
I.EXT_EXC['pytz.UnknownTimeZoneError'] = KeyError
I.EXT_EXC['pytz.exceptions.UnknownTimeZoneError'] = KeyError
I.EXT_EXC['zoneinfo.ZoneInfoNotFoundError'] = KeyError
