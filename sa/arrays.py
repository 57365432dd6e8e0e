"""Abstract arrays: symbolic axes, per-cell value numbers, dtypes, aliasing."""

import itertools
from fractions import Fraction

from . import terms as T
from .terms import AnalysisGap, Term


class PyExc(Exception):
    """An exception raised by the analysed program."""
    def __init__(self, etype, msg='', loc=None, value=None):
        super().__init__(etype, msg)
        self.etype = etype          # native exception class or ClassVal
        self.msg = msg
        self.loc = loc or T.Loc.cur
        self.value = value

    def name(self):
        return getattr(self.etype, '__name__', getattr(self.etype, 'name', str(self.etype)))


class Ax:
    """Symbolic axis: a size (Term) and the name of its index variable."""
    __slots__ = ('size', 'name')

    def __init__(self, size, name):
        self.size = size
        self.name = name

    def __repr__(self):
        return f'{self.name}:{T.show(self.size, 1)}'


def dim(name):
    return T.atom('dim:' + name)


def new_axis(name):
    T.ATOMS.setdefault('dim:' + name, T.AtomInfo(lo=1, integer=True))
    return Ax(dim(name), name)


ALLOCATED = []      # [{shape: location}] while the shapes of arrays are recorded


class Arr:
    """An ndarray (kind 'nd'), numpy scalar ('sc') or Python number ('py')."""
    __slots__ = ('axes', 'cells', 'dtype', 'kind', 'base', 'view', 'owner',
                 'frozen', 'tag')

    def __init__(self, axes, cells, dtype, kind='nd', base=None, view=None, owner=None):
        self.axes = tuple(axes)
        self.cells = cells
        self.dtype = dtype
        self.kind = kind
        self.base = base            # array this one is a view of
        self.view = view            # function (base, value) -> None writing through
        self.owner = owner          # label of a caller-owned buffer
        self.tag = None
        if ALLOCATED and base is None and owner is None and self.axes:
            ALLOCATED[-1].setdefault(tuple(a if isinstance(a, int) else a.size.fp for a in self.axes), (self.axes, T.Loc.cur))

    @property
    def term(self):
        if len(self.cells) != 1:
            raise AnalysisGap(f'expected one generic cell, got {len(self.cells)}')
        return self.cells[0]

    @property
    def ndim(self):
        return len(self.axes)

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    def __repr__(self):
        c = ', '.join(T.show(x, 3) for x in self.cells[:3])
        return f'<{self.kind} {self.dtype} {list(self.axes)} {c}{"…" if len(self.cells) > 3 else ""}>'


def const_dims(axes):
    return [a for a in axes if isinstance(a, int)]


def ncells(axes):
    n = 1
    for a in axes:
        if isinstance(a, int):
            n *= a
    return n


# ---------------------------------------------------------------------------
# scalars

def pyfloat(t):
    return Arr((), [t], 'pyf', 'py')


def pyint(t):
    """Python int: native if concrete."""
    f = T.const_fraction(t) if t.valid is T.TRUE else None
    if f is not None and f.denominator == 1:
        return int(f)
    return Arr((), [t], 'pyi', 'py')


def pybool(t):
    if t is T.TRUE:
        return True
    if t is T.FALSE:
        return False
    return Arr((), [t], 'pyb', 'py')


def is_num(v):
    return isinstance(v, (bool, int, float, Fraction, Arr))


def lift(v):
    """Any numeric value as an Arr."""
    if isinstance(v, Arr):
        return v
    if isinstance(v, bool):
        return Arr((), [T.TRUE if v else T.FALSE], 'pyb', 'py')
    if isinstance(v, int):
        return Arr((), [T.const(v)], 'pyi', 'py')
    if isinstance(v, float):
        return Arr((), [T.number(v)], 'pyf', 'py')
    if isinstance(v, Fraction):
        return Arr((), [T.const(v)], 'pyf', 'py')
    if isinstance(v, Term):
        return Arr((), [v], 'pyi' if v.isint else 'pyf', 'py')
    raise AnalysisGap(f'not numeric: {type(v).__name__} {v!r}'[:200])


def size_term(a):
    return T.const(a) if isinstance(a, int) else a.size


def size_val(a):
    return a if isinstance(a, int) else pyint(a.size)


def shape_of(arr):
    return tuple(size_val(a) for a in arr.axes)


# ---------------------------------------------------------------------------
# dtypes

_ALIASES = {
    'float': 'f8', 'float64': 'f8', 'double': 'f8', 'f8': 'f8', 'd': 'f8', '<f8': 'f8',
    'float32': 'f4', 'single': 'f4', 'f4': 'f4', 'f': 'f4', '<f4': 'f4',
    'float16': 'f2', 'half': 'f2', 'f2': 'f2', 'float128': 'f16', 'longdouble': 'f16',
    'f16': 'f16', 'g': 'f16',
    'int': 'i8', 'int64': 'i8', 'i8': 'i8', 'int_': 'i8', 'intp': 'i8', 'i': 'i4', 'l': 'i8',
    'int32': 'i4', 'i4': 'i4', 'int16': 'i2', 'i2': 'i2', 'int8': 'i1', 'i1': 'i1',
    'uint8': 'u1', 'u1': 'u1', 'uint16': 'u2', 'uint32': 'u4', 'uint64': 'u8', 'u8': 'u8', 'u4': 'u4',
    'bool': 'b', 'bool_': 'b', '?': 'b', 'b': 'b',
    'object': 'O', 'O': 'O', 'str': 'U', 'U': 'U', 'str_': 'U',
}
_UNITS = {'W': 604800, 'D': 86400, 'h': 3600, 'm': 60, 's': 1, 'ms': Fraction(1, 1000),
          'us': Fraction(1, 10**6), 'ns': Fraction(1, 10**9), 'ps': Fraction(1, 10**12)}
_UORD = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps']


def dtype_str(d):
    if d in _ALIASES:
        return _ALIASES[d]
    s = d.lstrip('<=>|')
    if s in _ALIASES:
        return _ALIASES[s]
    for long, short in (('datetime64', 'M8'), ('timedelta64', 'm8')):
        s = s.replace(long, short)
    if s in ('M8', 'm8'):
        return s
    if s[:3] in ('M8[', 'm8[') and s.endswith(']') and s[3:-1] in _UORD:
        return s
    raise PyExc(TypeError, f'data type {d!r} not understood')


def is_time(d):
    return d[0] == 'M' or d[0] == 'm'


def is_float(d):
    return d in ('f8', 'f4', 'f2', 'f16', 'pyf')


def is_int(d):
    return d[0] in 'iu' or d == 'pyi'


def is_bool(d):
    return d in ('b', 'pyb')


_RANK = {'f2': 1, 'f4': 2, 'f8': 3, 'f16': 4}
_IBITS = {'i1': 8, 'i2': 16, 'i4': 32, 'i8': 64, 'u1': 8, 'u2': 16, 'u4': 32, 'u8': 64}


def promote(a, b):
    if a == b:
        return a
    if 'O' in (a, b):
        return 'O'
    if is_time(a) or is_time(b):
        return _promote_time(a, b)
    py = {'pyf', 'pyi', 'pyb'}
    if a in py and b in py:
        o = ['pyb', 'pyi', 'pyf']
        return o[max(o.index(a), o.index(b))]
    if a in py:
        a, b = b, a
    if b in py:
        if b == 'pyf':
            return a if is_float(a) else 'f8'
        if b == 'pyi':
            return 'i8' if a == 'b' else a
        return a
    if is_float(a) and is_float(b):
        return a if _RANK[a] >= _RANK[b] else b
    if is_float(a) or is_float(b):
        f, i = (a, b) if is_float(a) else (b, a)
        if i == 'b':
            return f
        need = {8: 'f2', 16: 'f4', 32: 'f8', 64: 'f8'}[_IBITS[i]]
        return f if _RANK[f] >= _RANK[need] else need
    if a == 'b':
        return b
    if b == 'b':
        return a
    ba, bb = _IBITS[a], _IBITS[b]
    if a[0] == b[0]:
        return a if ba >= bb else b
    u, i = (a, b) if a[0] == 'u' else (b, a)
    if _IBITS[i] > _IBITS[u]:
        return i
    return {8: 'i2', 16: 'i4', 32: 'i8', 64: 'f8'}[_IBITS[u]]


def unit(d):
    return d[3:-1] if len(d) > 3 else None


def _promote_time(a, b):
    if is_time(a) and is_time(b):
        ua, ub = unit(a), unit(b)
        if ua is None:
            u = ub
        elif ub is None:
            u = ua
        else:
            u = ua if _UORD.index(ua) >= _UORD.index(ub) else ub
        k = 'M8' if 'M' in (a[0], b[0]) else 'm8'
        return f'{k}[{u}]' if u else k
    return a if is_time(a) else b


# ---------------------------------------------------------------------------
# calendar

def months_of_day(d):
    """Months since 1970-01 of day number d (days since 1970-01-01)."""
    return T.func('months_of_day', d, isint=True)


def month_start(m):
    return T.func('month_start', m, isint=True)


def year_start(y):
    return T.func('month_start', T.scale(y, {0: Fraction(12)}), isint=True)


def _cal_iv(t, ctx):
    """Calendar facts used by the interval evaluation."""
    if t.op == 'fn':
        return None
    # month - 1 = months - 12*floor(months/12)
    return None


def cast_time(term, src, dst):
    """Unit counts: src unit -> dst unit for datetimes (kind M)."""
    us, ud = unit(src), unit(dst)
    if us == ud or us is None or ud is None:
        return term
    if us in _UNITS and ud in _UNITS:
        v = T.scale(term, {0: Fraction(_UNITS[us]) / Fraction(_UNITS[ud])})
        return T.floor(v) if _UORD.index(ud) < _UORD.index(us) else v
    if ud in ('Y', 'M'):
        if us == 'Y':
            return T.scale(term, {0: Fraction(12)})
        if us == 'M':
            return T.floor(T.scale(term, {0: Fraction(1, 12)}))
        day = cast_time(term, src, src[0] + '8[D]')
        m = months_of_day(day)
        return m if ud == 'M' else T.floor(T.scale(m, {0: Fraction(1, 12)}))
    # from Y/M to D or finer
    m = term if us == 'M' else T.scale(term, {0: Fraction(12)})
    return cast_time(month_start(m), 'M8[D]', dst)


def cast_delta(term, src, dst):
    us, ud = unit(src), unit(dst)
    if us == ud or us is None or ud is None:
        return term
    if us in _UNITS and ud in _UNITS:
        v = T.scale(term, {0: Fraction(_UNITS[us]) / Fraction(_UNITS[ud])})
        if _UORD.index(ud) < _UORD.index(us):
            return T.floor(v)
        return v
    if us == 'Y' and ud == 'M':
        return T.scale(term, {0: Fraction(12)})
    if us == 'M' and ud == 'Y':
        return T.floor(T.scale(term, {0: Fraction(1, 12)}))
    raise PyExc(TypeError, f'cannot cast timedelta {us} to {ud}')


# casts that lose precision, recorded for the precision property
NARROWINGS = []


NATINT = -2 ** 63


def cast_cell(t, src, dst):
    """A value converted to another type. Missing values have no integer, nor has NaT a float: they become the least integer."""
    if src == dst:
        return t
    if t.valid is not T.TRUE and not (FACTS and FACTS[-1](t.valid)) and (is_time(src) and (is_int(dst) or is_float(dst)) or is_float(src) and is_int(dst)):
        r = T.ite(t.valid, cast_value(t, src, dst), T.const(NATINT))
        return r
    if is_int(src) and is_time(dst) and t.op == 'ite':
        c, a, b = t.args
        if T.const_fraction(b) == NATINT:
            return T.with_valid(cast_cell(a, src, dst), c)
        if T.const_fraction(a) == NATINT:
            return T.with_valid(cast_cell(b, src, dst), T.bnot(c))
    if is_int(src) and is_time(dst) and T.const_fraction(t) == NATINT:
        return T.nan()
    return cast_value(t, src, dst)


def cast_value(t, src, dst):
    if dst == 'O' or src == 'O':
        return t
    if is_time(src) and is_time(dst):
        if src[0] == dst[0]:
            return cast_time(t, src, dst) if src[0] == 'M' else cast_delta(t, src, dst)
        raise PyExc(TypeError, f'cannot cast {src} to {dst}')
    if is_time(dst):
        if is_int(src) or is_float(src) or is_bool(src):
            # rounding to a whole nano- or microsecond is ignored throughout
            return T.trunc(t) if is_float(src) and unit(dst) not in ('ns', 'us', 'ps', None) else t
        raise AnalysisGap(f'cast {src} to {dst}')
    if is_bool(dst):
        return T.astype_bool(t)
    if is_int(dst):
        if is_float(src):
            r = T.trunc(t)
        else:
            r = t
        bits = _IBITS.get(dst, 64)
        if bits < 64 and not is_bool(src):
            lo, hi = T.iv(r)
            lim = (0, 2 ** bits - 1) if dst[0] == 'u' else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
            if lo < lim[0] or hi > lim[1]:
                lo, hi = T.iv_whole(r)
            if lo < lim[0] or hi > lim[1]:
                # wraps around unless bounded; keep the value but record it
                NARROWINGS.append(('int', t, src, dst, T.Loc.cur))
        return r
    if is_float(dst):
        if dst in ('f4', 'f2') and src not in ('f4', 'f2', 'i1', 'i2', 'b'):
            NARROWINGS.append(('float', t, src, dst, T.Loc.cur))
        return t
    if dst == 'U':
        raise AnalysisGap('cast to string array')
    raise AnalysisGap(f'cast {src} to {dst}')


def astype(a, dst):
    dst = dtype_str(dst)
    if dst == 'M8' and a.dtype[0] == 'M':
        dst = a.dtype
    if dst == 'm8' and a.dtype[0] == 'm':
        dst = a.dtype
    cells = [cast_cell(c, a.dtype, dst) for c in a.cells]
    return Arr(a.axes, cells, dst, 'nd' if a.kind == 'nd' else 'sc')


# ---------------------------------------------------------------------------
# axis renaming and broadcasting

def rename_axis(arr_axes, cells, old, new):
    """Rename index variable old -> new in axes and cells."""
    m = {old: T.idxvar(new)}
    memo = {}
    return (tuple(Ax(a.size, new) if isinstance(a, Ax) and a.name == old else a
                  for a in arr_axes),
            [T.subst(c, m, memo) for c in cells])


EQUAL_SIZES = []          # callables (size1, size2) -> bool, set by the interpreter


def same_size(a, b):
    sa, sb = size_term(a), size_term(b)
    if sa.fp == sb.fp:
        return True
    return any(f(sa, sb) for f in EQUAL_SIZES)


def broadcast_axes(axlists):
    """Result axes and, per operand, the renamings needed."""
    nd = max(len(x) for x in axlists)
    res = [1] * nd
    for axs in axlists:
        off = nd - len(axs)
        for i, a in enumerate(axs):
            p = off + i
            r = res[p]
            if isinstance(r, int) and r == 1:
                res[p] = a
            elif isinstance(a, int) and a == 1:
                continue
            elif same_size(r, a):
                continue
            else:
                raise PyExc(ValueError, 'operands could not be broadcast together: '
                            f'axis {p}: {_axs(r)} vs {_axs(a)}')
    # index names must be unique in the result
    seen = set()
    for p, a in enumerate(res):
        if isinstance(a, Ax):
            n = a.name
            while n in seen:
                n = n + "'"
            if n != a.name:
                res[p] = Ax(a.size, n)
            seen.add(n)
    return tuple(res)


def _axs(a):
    return str(a) if isinstance(a, int) else f'{T.show(a.size, 2)}'


def align(arr, axes):
    """Cells of arr as seen from the broadcast axes (list over their const cells)."""
    off = len(axes) - arr.ndim
    cells = arr.cells
    # renaming (simultaneous)
    m = {}
    for i, a in enumerate(arr.axes):
        if isinstance(a, Ax):
            r = axes[off + i]
            if isinstance(r, Ax):
                if r.name != a.name:
                    m[a.name] = T.idxvar(r.name)
    if m:
        memo = {}
        cells = [T.subst(c, m, memo) for c in cells]
    src = const_dims(arr.axes)
    dst = const_dims(axes)
    if src == dst and len(axes) == arr.ndim:
        return cells
    # map const multi-indices
    pos = []          # for every const axis of arr: position among result const axes or None
    k = 0
    dpos = {}
    for p, a in enumerate(axes):
        if isinstance(a, int):
            dpos[p] = k
            k += 1
    for i, a in enumerate(arr.axes):
        if isinstance(a, int):
            pos.append((a, dpos.get(off + i)))
    out = []
    for mi in itertools.product(*(range(n) for n in dst)):
        f = 0
        for n, dp in pos:
            j = mi[dp] if (dp is not None and n != 1) else 0
            f = f * n + j
        out.append(cells[f])
    return out


def result_kind(arrs):
    if any(a.kind == 'nd' for a in arrs):
        return 'nd'
    if any(a.kind == 'sc' for a in arrs):
        return 'sc'
    return 'py'


def elementwise(fn, arrs, dtype, kind=None):
    if all(not a.axes for a in arrs):
        k = kind or result_kind(arrs)
        c = fn(*(a.cells[0] for a in arrs))
        if k == 'nd' :
            k = 'sc'      # 0-d results are scalars
        return Arr((), [c], dtype, k)
    axes = broadcast_axes([a.axes for a in arrs])
    cols = [align(a, axes) for a in arrs]
    cells = [fn(*cs) for cs in zip(*cols)]
    return Arr(axes, cells, dtype, 'nd')


def broadcast_to(arr, axes):
    """arr broadcast to exactly these axes (raises if it does not fit)."""
    if len(arr.axes) > len(axes):
        extra = arr.axes[:len(arr.axes) - len(axes)]
        if any(not (isinstance(e, int) and e == 1) for e in extra):
            raise PyExc(ValueError, 'could not broadcast input array into shape')
        arr = Arr(arr.axes[len(extra):], arr.cells, arr.dtype)
    off = len(axes) - arr.ndim
    for i, a in enumerate(arr.axes):
        t = axes[off + i]
        if isinstance(a, int) and a == 1:
            continue
        if not same_size(a, t):
            raise PyExc(ValueError, 'could not broadcast input array: '
                        f'axis {i}: {_axs(a)} into {_axs(t)}')
    return align(arr, axes)


# ---------------------------------------------------------------------------
# arithmetic

def _time_binop(op, a, b):
    da, db = a.dtype, b.dtype
    ta, tb = da[0] if is_time(da) else None, db[0] if is_time(db) else None

    def conv(x, d):
        return astype(x, d) if is_time(x.dtype) and x.dtype != d else x
    if op in ('+', '-'):
        if ta == 'M' and tb == 'M':
            if op == '+':
                raise PyExc(TypeError, 'cannot add datetimes')
            d = promote(da, db)
            a, b = conv(a, d), conv(b, d)
            return elementwise(T.sub, [a, b], 'm8' + d[2:])
        if ta and tb:
            if op == '-' and ta == 'm' and tb == 'M':
                raise PyExc(TypeError, 'cannot subtract a datetime from a timedelta')
            u = unit(promote(da, db))
            if u in ('Y', 'M') and unit(da) != unit(db):
                raise AnalysisGap('mixing calendar units')
            if unit(da) in ('Y', 'M') and ta == 'm' and u not in ('Y', 'M') or \
                    unit(db) in ('Y', 'M') and tb == 'm' and u not in ('Y', 'M'):
                raise PyExc(TypeError, 'cannot mix month/year timedeltas with finer units')
            a, b = conv(a, f'{ta}8[{u}]'), conv(b, f'{tb}8[{u}]')
            k = 'M8' if 'M' in (ta, tb) else 'm8'
            return elementwise(T.add if op == '+' else T.sub, [a, b], f'{k}[{u}]')
        # time +- integer, in the units of the time
        t, n = (a, b) if ta else (b, a)
        if not is_int(n.dtype) and not is_bool(n.dtype):
            raise PyExc(TypeError, f'ufunc cannot use {a.dtype} {op} {b.dtype}')
        if op == '-' and t is b:
            raise PyExc(TypeError, 'cannot subtract a datetime from an integer')
        return elementwise(T.add if op == '+' else T.sub, [a, b], t.dtype)
    if op == '*':
        t, n = (a, b) if ta else (b, a)
        if t.dtype[0] != 'm' or is_time(n.dtype):
            raise PyExc(TypeError, 'bad datetime multiplication')
        fl = is_float(n.dtype)
        return elementwise(lambda x, y: T.trunc(T.mul(x, y)) if fl else T.mul(x, y), [a, b], t.dtype)
    if op in ('/', '//', '%'):
        if ta == 'm' and tb == 'm':
            d = promote(da, db)
            a, b = conv(a, d), conv(b, d)
            if op == '/':
                return elementwise(T.div, [a, b], 'f8')
            if op == '//':
                return elementwise(lambda x, y: T.floor(T.div(x, y)), [a, b], 'i8')
            return elementwise(T.mod, [a, b], d)
        if ta == 'm' and not tb and op in ('/', '//'):
            return elementwise(lambda x, y: T.trunc(T.div(x, y)), [a, b], da)
    raise PyExc(TypeError, f'unsupported operand {da} {op} {db}')


def _floordiv(x, y):
    return T.floor(T.div(x, y))


def int_limits(d):
    bits = _IBITS[d]
    return (0, 2 ** bits - 1) if d[0] == 'u' else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)


def fits(r, src=None):
    """Records the cells of an integer array that its type may not hold: the arithmetic wraps around."""
    if r.dtype in _IBITS:
        lim = int_limits(r.dtype)
        for t in r.cells:
            lo, hi = T.iv(t)
            if lo < lim[0] or hi > lim[1]:
                lo, hi = T.iv_whole(t)
            if (lo < lim[0] or hi > lim[1]) and (_IBITS[r.dtype] < 64 or lo > float('-inf') and hi < float('inf')):
                NARROWINGS.append(('int', t, src or r.dtype, r.dtype, T.Loc.cur))
                break
    return r


def binop(op, a, b):
    """Numeric binary operator with Python/numpy semantics on Arr."""
    a, b = lift(a), lift(b)
    for x, y in ((a, b), (b, a)):
        if x.dtype == 'pyi' and y.dtype in _IBITS:
            c = T.const_coef(x.cells[0])
            if c is not None and set(c) <= {0}:
                lim = int_limits(y.dtype)
                if not lim[0] <= c.get(0, 0) <= lim[1]:
                    raise PyExc(OverflowError, f'Python integer {c[0]} out of bounds for {y.dtype}')
    return fits(_binop(op, a, b))


def _binop(op, a, b):
    if is_time(a.dtype) or is_time(b.dtype):
        return _time_binop(op, a, b)
    d = promote(a.dtype, b.dtype)
    bothbool = is_bool(a.dtype) and is_bool(b.dtype)
    if op in ('&', '|', '^'):
        if bothbool:
            f = {'&': T.band, '|': T.bor, '^': T.bxor}[op]
            return elementwise(f, [a, b], d)
        if is_float(a.dtype) or is_float(b.dtype):
            raise PyExc(TypeError, f'unsupported operand for {op}')
        return elementwise(lambda x, y: T.func('bit' + op, x, y, isint=True), [a, b], d)
    if d == 'b':
        if op == '-':
            raise PyExc(TypeError, 'numpy boolean subtract is not supported')
        if op == '+':
            return elementwise(T.bor, [a, b], 'b')
        if op == '*':
            return elementwise(T.band, [a, b], 'b')
        if op in ('%', '//', '**'):
            d = 'i1'
    if d == 'pyb':
        d = 'pyi'
    if op == '+':
        return elementwise(T.add, [a, b], d)
    if op == '-':
        return elementwise(T.sub, [a, b], d)
    if op == '*':
        return elementwise(T.mul, [a, b], d)
    if op == '/':
        if d in ('pyi',):
            d = 'pyf'
        elif not is_float(d):
            d = 'f8'
        if not a.axes and not b.axes and b.kind == 'py' and a.kind == 'py' and \
                T.const_coef(b.cells[0]) == {}:
            raise PyExc(ZeroDivisionError, 'division by zero')
        return elementwise(_div, [a, b], d)
    if op == '//':
        return elementwise(_floordiv, [a, b], d)
    if op == '%':
        return elementwise(T.mod, [a, b], d)
    if op == '**':
        if d == 'pyi' and T.iv(b.cells[0])[0] < 0:
            d = 'pyf'
        return elementwise(T.power, [a, b], d)
    raise AnalysisGap(f'operator {op}')


# partial operations are recorded for the domain-safety property
OBLIGATIONS = []


def oblige(kind, term):
    OBLIGATIONS.append((kind, term, T.Loc.cur))


def _div(x, y):
    if T.const_coef(y) is None:
        oblige('div', y)
    return T.div(x, y)


def compare(op, a, b):
    a, b = lift(a), lift(b)
    if is_time(a.dtype) and is_time(b.dtype) and a.dtype != b.dtype:
        d = promote(a.dtype, b.dtype)
        a = astype(a, a.dtype[:2] + d[2:])
        b = astype(b, b.dtype[:2] + d[2:])
    f = {'<': T.lt, '<=': T.le, '>': lambda x, y: T.lt(y, x),
         '>=': lambda x, y: T.le(y, x), '==': T.eq,
         '!=': lambda x, y: T.bnot(T.eq(x, y))}[op]
    k = result_kind([a, b])
    r = elementwise(f, [a, b], 'pyb' if k == 'py' else 'b')
    return r


def unary(op, a):
    a = lift(a)
    if op == '-':
        if is_bool(a.dtype):
            if a.dtype == 'b':
                raise PyExc(TypeError, 'numpy boolean negative is not supported')
            return elementwise(T.neg, [a], 'pyi')
        return fits(elementwise(T.neg, [a], a.dtype))
    if op == '+':
        return elementwise(lambda x: x, [a], a.dtype)
    if op == '~':
        if a.dtype == 'b':
            return elementwise(T.bnot, [a], 'b')
        if is_float(a.dtype):
            raise PyExc(TypeError, 'bad operand type for unary ~')
        return elementwise(lambda x: T.sub(T.const(-1), x), [a],
                           'pyi' if a.dtype == 'pyb' else a.dtype)
    raise AnalysisGap(f'unary {op}')


# ---------------------------------------------------------------------------
# indexing

class IdxCount:
    n = 0


def _norm_key(key, nd):
    if not isinstance(key, tuple):
        key = (key,)
    used = 0
    ell = None
    out = []
    for k in key:
        if k is Ellipsis:
            if ell is not None:
                raise PyExc(IndexError, 'an index can only have a single ellipsis')
            ell = len(out)
            out.append(k)
        elif k is None:
            out.append(k)
        elif isinstance(k, Arr) and k.dtype == 'b' and k.kind == 'nd':
            used += k.ndim
            out.append(k)
        else:
            used += 1
            out.append(k)
    if used > nd:
        raise PyExc(IndexError, f'too many indices for array: array is {nd}-dimensional')
    fill = [slice(None)] * (nd - used)
    if ell is None:
        out += fill
    else:
        out[ell:ell + 1] = fill
    return out


def _const_slice(s, n):
    def c(v):
        if v is None:
            return None
        if isinstance(v, Arr):
            f = T.const_fraction(v.term)
            if f is None:
                raise AnalysisGap('symbolic slice bound on a fixed-size axis')
            return int(f)
        return int(v)
    return range(n)[slice(c(s.start), c(s.stop), c(s.step))]


def _bound(v, size, default):
    """Slice bound on a symbolic axis as a Term in [0, size]."""
    if v is None:
        return default
    t = lift(v).term
    i = T.iv(t)
    if i[1] < 0:
        return T.maximum(T.add(size, t), T.const(0))
    if i[0] >= 0:
        if t.fp == size.fp:
            return size
        return T.minimum(t, size)
    return T.ite(T.lt(t, T.const(0)), T.maximum(T.add(size, t), T.const(0)), T.minimum(t, size))


def is_full_slice(s):
    return isinstance(s, slice) and s.start is None and s.stop is None and s.step in (None, 1)


FACTS = []       # what the running interpreter assumes
BRANCH = []      # the branch function of the running interpreter


def branch(c):
    d = T.decide(c)
    if d is None:
        if not BRANCH:
            raise AnalysisGap('undecided mask over fixed axis')
        d = BRANCH[-1](c)
    return d


def getitem(a, key):
    if a.kind == 'py':
        raise PyExc(TypeError, 'number is not subscriptable')
    key = _norm_key(key, a.ndim)
    # full-shape boolean mask
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].dtype == 'b' and key[0].ndim == a.ndim:
        cells = broadcast_to(key[0], a.axes)
        if a.ndim > 1 or (a.axes == (1,) and T.decide(cells[0]) is None and not T.only_ok(cells[0])):
            if not cells:
                return Arr((0,), [], a.dtype)
            if len(cells) != 1:
                if not any(isinstance(x, Ax) for x in a.axes):
                    r = [j for j, c in enumerate(cells) if branch(c)]
                    return Arr((len(r),), [a.cells[j] for j in r], a.dtype)
                names, m, nax = mask_rows(a, cells)
                t = by_row(a.cells)
                return Arr((nax,), [T.subst(t, dict(zip(names, T.sel_all(m, T.idxvar(nax.name), names))))], a.dtype)
            names, nax = mask_all(a, cells[0])
            return Arr((nax,), [T.subst(a.cells[0], dict(zip(names, T.sel_all(cells[0], T.idxvar(nax.name), names))))], a.dtype)
    arrkeys = [k for k in key if isinstance(k, (Arr, list)) and not _is_scalar_index(k)]
    if len([k for k in arrkeys]) > 1:
        return _multi_fancy(a, key)
    # process axes one by one
    axes = list(a.axes)
    cells = list(a.cells)
    newaxes = []
    const_sel = []       # per old const axis: list of selected positions, in order
    submap = {}
    isview = True
    i = 0
    fancy = None
    for k in key:
        if k is None:
            newaxes.append(('new', 1))
            continue
        ax = axes[i]
        if _is_scalar_index(k):
            kt = lift(k).term
            if isinstance(ax, int):
                f = T.const_fraction(kt)
                if f is None:
                    const_sel.append(('gather', kt, ax))
                else:
                    f = int(f)
                    if not -ax <= f < ax:
                        raise PyExc(IndexError, f'index {f} is out of bounds for axis with size {ax}')
                    const_sel.append(('pick', f % ax))
            else:
                lo, hi = T.iv(kt)
                if hi < 0:
                    kt = T.add(ax.size, kt)
                submap[ax.name] = kt
        elif isinstance(k, slice):
            if isinstance(ax, int):
                r = list(_const_slice(k, ax))
                const_sel.append(('range', r))
                newaxes.append(('c', len(r)))
            elif is_full_slice(k):
                newaxes.append(('s', ax))
            else:
                nax, t = _slice_sym(ax, k)
                submap[ax.name] = t
                newaxes.append(('s', nax))
        elif isinstance(k, Arr) and k.dtype == 'b':
            if k.ndim != 1:
                raise AnalysisGap('boolean index of several dimensions')
            isview = False
            kax = k.axes[0]
            if not same_size(kax, ax):
                raise PyExc(IndexError, 'boolean index did not match indexed array along axis: '
                            f'size is {_axs(ax)} but boolean size is {_axs(kax)}')
            if isinstance(ax, int):
                if isinstance(kax, Ax):
                    raise AnalysisGap('symbolic mask over fixed axis')
                r = []
                for j, c in enumerate(k.cells):
                    if branch(c):
                        r.append(j)
                const_sel.append(('range', r))
                newaxes.append(('c', len(r)))
            else:
                mask = k.cells[0]
                if kax.name != ax.name:
                    mask = T.subst(mask, {kax.name: T.idxvar(ax.name)})
                if mask is T.TRUE:
                    newaxes.append(('s', ax))
                else:
                    nax = mask_axis(ax, mask)
                    submap[ax.name] = T.sel(mask, T.idxvar(nax.name), ax.name)
                    newaxes.append(('s', nax))
        else:
            isview = False
            k = k if isinstance(k, Arr) else from_nested(k)
            if not (is_int(k.dtype)):
                raise PyExc(IndexError, 'arrays used as indices must be of integer (or boolean) type')
            if isinstance(ax, int):
                const_sel.append(('gatherarr', k, ax, len(newaxes)))
                newaxes.append(('arr', k))
            else:
                if len(const_dims(k.axes)) == 0:
                    submap[ax.name] = k.cells[0]
                    newaxes.append(('arr', k))
                else:
                    const_sel.append(('symgather', k, ax))
                    newaxes.append(('arr', k))
        i += 1
    return _assemble(a, newaxes, const_sel, submap, isview)


def _is_scalar_index(k):
    if isinstance(k, bool):
        return False
    if isinstance(k, int):
        return True
    if isinstance(k, Arr):
        if not k.axes:
            if is_float(k.dtype):
                raise PyExc(IndexError, 'only integers, slices (`:`), ellipsis (`...`), numpy.newaxis '
                            '(`None`) and integer or boolean arrays are valid indices')
            return is_int(k.dtype)
    if isinstance(k, float):
        raise PyExc(IndexError, 'only integers, slices are valid indices')
    return False


def mask_axis(ax, mask):
    name = f'{ax.name}|{mask.fp % 10**8:08d}'
    size = T.func('count', T.bind((ax.name,), mask)[0][0] if mask is not T.FALSE else mask,
                  ax.size, isint=True)
    T.FN_IV['count'] = (0.0, T.INF)
    return Ax(size, name)


def mask_all(a, mask):
    """The axis of the elements selected by a mask over all (symbolic or unit) axes of a."""
    names = tuple(x.name for x in a.axes if isinstance(x, Ax))
    n = T.const(1)
    for x in a.axes:
        n = T.mul(n, size_term(x))
    m = T.bind(names, mask)[0][0]
    size = T.func('count', m, n, isint=True) if names else T.mul(mask, T.const(1))
    T.FN_IV['count'] = (0.0, T.INF)
    return names, Ax(size, f'{",".join(names)}|{mask.fp % 10**8:08d}')


ROW = '~row'         # the fixed axes of an array, as an index


def by_row(cells):
    t = cells[-1]
    for j in reversed(range(len(cells) - 1)):
        t = T.ite(T.eq(T.idxvar(ROW), T.const(j)), cells[j], t)
    return t


def mask_rows(a, cells):
    """As mask_all, where some of the axes are fixed and the others are not."""
    names = tuple(x.name for x in a.axes if isinstance(x, Ax)) + (ROW,)
    m = by_row(cells)
    n = T.const(1)
    for x in a.axes:
        n = T.mul(n, size_term(x))
    size = T.func('count', T.bind(names, m)[0][0], n, isint=True)
    T.FN_IV['count'] = (0.0, T.INF)
    return names, m, Ax(size, f'{",".join(names)}|{m.fp % 10**8:08d}')


def _slice_sym(ax, k):
    step = k.step
    if isinstance(step, Arr):
        f = T.const_fraction(step.term)
        step = int(f) if f is not None else None
        if step is None:
            raise AnalysisGap('symbolic slice step')
    step = 1 if step is None else step
    n = ax.size
    if step == -1 and k.start is None and k.stop is None:
        return ax, T.sub(T.sub(n, T.const(1)), T.idxvar(ax.name))
    if step >= 1:
        s = _bound(k.start, n, T.const(0))
        e = _bound(k.stop, n, n)
        ln = T.sub(e, s)
        if step > 1:
            ln = T.floor(T.scale(T.add(ln, T.const(step - 1)), {0: Fraction(1, step)}))
        size = T.maximum(ln, T.const(0))
        if size.fp == n.fp:
            return ax, T.idxvar(ax.name)
        name = f'{ax.name}[{s.fp % 10**6}:{e.fp % 10**6}:{step}]'
        return Ax(size, name), T.add(s, T.scale(T.idxvar(name), {0: Fraction(step)}))
    raise AnalysisGap('negative slice step with bounds')


def gather_const(values, idx):
    """table[idx] for a fixed table and a symbolic integer index."""
    lo, hi = T.iv(idx)
    n = len(values)
    if lo < 0 and hi < 0:
        idx = T.add(idx, T.const(n))
        lo, hi = lo + n, hi + n
    elif lo < 0:
        oblige('index', T.func('index_range', idx, T.const(n)))
    if hi > n - 1 or lo < 0:
        oblige('index', T.func('index_range', idx, T.const(n)))
    lo_i = int(max(0, lo)) if lo != -T.INF else 0
    hi_i = int(min(n - 1, hi)) if hi != T.INF else n - 1
    r = T.const(0)
    for j in range(lo_i, hi_i + 1):
        r = T.add(r, T.mul(T.eq(idx, T.const(j)), values[j]))
    # interval: join of the entries
    g = T._mk('gather', (r,), r.fp, lin=r.lin, isint=all(v.isint for v in values))
    ivs = [T.iv(values[j]) for j in range(lo_i, hi_i + 1)]
    g._iv = (min(x[0] for x in ivs), max(x[1] for x in ivs))
    return g


def _assemble(a, newaxes, const_sel, submap, isview):
    cells = a.cells
    cdims = const_dims(a.axes)
    # final axes in order; arr-valued keys bring their own axes
    axes = []
    for kind, v in newaxes:
        if kind == 'new':
            axes.append(1)
        elif kind == 'c':
            axes.append(v)
        elif kind == 's':
            axes.append(v)
        else:
            axes.extend(v.axes)
    # rename duplicates
    seen = set()
    ren = {}
    for p, x in enumerate(axes):
        if isinstance(x, Ax):
            if x.name in seen:
                n = x.name
                while n in seen:
                    n += "'"
                axes[p] = Ax(x.size, n)
                seen.add(n)
                ren.setdefault(p, n)
            seen.add(x.name)
    if ren:
        raise AnalysisGap('duplicate axes after indexing')
    # iterate result const cells
    dst = const_dims(axes)
    # build, for each result const cell, the source cell term
    out = []
    # positions of result const axes by origin
    for mi in itertools.product(*(range(n) for n in dst)):
        p = 0
        picks = []
        gather = None
        ri = iter(mi)
        # walk newaxes in order to consume result indices
        consumed = []
        for kind, v in newaxes:
            if kind == 'new':
                next(ri)
                consumed.append(None)
            elif kind == 'c':
                consumed.append(next(ri))
            elif kind == 's':
                consumed.append(None)
            else:
                consumed.append(tuple(next(ri) for _ in const_dims(v.axes)))
        # const axis selection
        citer = iter([c for (kind, v), c in zip(newaxes, consumed) if kind in ('c',)])
        aiter = iter([(v, c) for (kind, v), c in zip(newaxes, consumed) if kind == 'arr'])
        sm = dict(submap)
        for sel in const_sel:
            if sel[0] == 'pick':
                picks.append(('p', sel[1]))
            elif sel[0] == 'range':
                picks.append(('p', sel[1][next(citer)]))
            elif sel[0] == 'gather':
                picks.append(('g', sel[1], sel[2]))
            elif sel[0] == 'gatherarr':
                v, c = next(aiter)
                f = 0
                for n, j in zip(const_dims(v.axes), c):
                    f = f * n + j
                kt = v.cells[f]
                cf = T.const_fraction(kt)
                if cf is not None:
                    cf = int(cf)
                    if not -sel[2] <= cf < sel[2]:
                        raise PyExc(IndexError, f'index {cf} is out of bounds for axis with size {sel[2]}')
                    picks.append(('p', cf % sel[2]))
                else:
                    picks.append(('g', kt, sel[2]))
            elif sel[0] == 'symgather':
                v, c = next(aiter)
                f = 0
                for n, j in zip(const_dims(v.axes), c):
                    f = f * n + j
                kt = v.cells[f]
                if T.iv(kt)[1] < 0:
                    kt = T.add(sel[2].size, kt)
                sm[sel[2].name] = kt
        # symgather has no const axis: drop from picks alignment
        g = [x for x in picks if x[0] == 'g']
        if not g:
            f = 0
            for n, x in zip(cdims, picks):
                f = f * n + x[1]
            t = cells[f] if cells else None
        else:
            if len(g) > 1:
                raise AnalysisGap('two symbolic indices into a fixed table')
            vals = []
            for j in range(g[0][2]):
                f = 0
                for n, x in zip(cdims, picks):
                    f = f * n + (j if x[0] == 'g' else x[1])
                vals.append(cells[f])
            t = gather_const(vals, g[0][1])
        if sm:
            t = T.subst(t, sm)
        out.append(t)
    r = Arr(axes, out, a.dtype, 'nd' if axes else 'sc')
    if isview and axes:
        r.base = a
        r.view = None
    return r


def _multi_fancy(a, key):
    """x[i, j] with index arrays on several axes: joint broadcast."""
    if any(k is None for k in key):
        raise AnalysisGap('new axes and index arrays on several axes')
    key = list(key) + [slice(None)] * (a.ndim - len(key))
    at = [n for n, k in enumerate(key) if isinstance(k, (Arr, list)) or isinstance(k, int)]
    idx = [lift(key[n]) if isinstance(key[n], (Arr, int)) else Arr((len(key[n]),), [lift(v).term for v in key[n]], 'i8') for n in at]
    rest = [n for n in range(a.ndim) if n not in at]
    if any(is_bool(x.dtype) for x in idx) or any(not is_full_slice(key[n]) for n in rest):
        raise AnalysisGap('masks and slices next to index arrays')
    S = broadcast_axes([x.axes for x in idx])
    cols = [align(x, S) for x in idx]
    names = {x.name for x in S if isinstance(x, Ax)}
    if any(isinstance(a.axes[n], Ax) and a.axes[n].name in names for n in rest):
        raise AnalysisGap('index arrays over an axis of the array')
    first = at[0] if at == list(range(at[0], at[-1] + 1)) else 0
    k = len([n for n in rest if n < first])
    axes = [a.axes[n] for n in rest[:k]] + list(S) + [a.axes[n] for n in rest[k:]]
    cdims = [(n, x) for n, x in enumerate(a.axes) if isinstance(x, int)]
    spans = [range(x) if isinstance(x, int) else (None,) for x in axes]
    out = []
    for pos in itertools.product(*spans):
        spos, rpos = pos[k:k + len(S)], pos[:k] + pos[k + len(S):]
        f = 0
        for x, p in zip(S, spos):
            if isinstance(x, int):
                f = f * x + p
        where, sm, table = dict(zip(rest, rpos)), {}, None
        for n, col in zip(at, cols):
            t = col[f]
            if T.iv(t)[1] < 0:
                t = T.add(a.axes[n].size if isinstance(a.axes[n], Ax) else T.const(a.axes[n]), t)
            if isinstance(a.axes[n], Ax):
                sm[a.axes[n].name] = t
                continue
            c = T.const_fraction(t)
            if c is None:
                if table is not None:
                    raise AnalysisGap('two symbolic indices into a fixed table')
                table, where[n] = t, None
            elif not -a.axes[n] <= c < a.axes[n]:
                raise PyExc(IndexError, f'index {c} is out of bounds for axis {n} with size {a.axes[n]}')
            else:
                where[n] = int(c)

        def cell(j):
            g = 0
            for n, x in cdims:
                g = g * x + (j if where[n] is None else where[n])
            return a.cells[g]
        if table is None:
            t = cell(0)
        else:
            t = gather_const([cell(j) for j in range(next(x for n, x in cdims if where[n] is None))], table)
        out.append(T.subst(t, sm) if sm else t)
    return Arr(axes, out, a.dtype)


def touch(a, written):
    """Record that the buffer of `a` is written."""
    r = a.root()
    if r.owner is not None or a.owner is not None:
        written.append((r.owner or a.owner, T.Loc.cur))


def setitem(a, key, value, written):
    touch(a, written)
    nkey = _norm_key(key, a.ndim)
    value = lift(value) if not isinstance(value, (list, tuple)) else from_nested(value)
    axes = list(a.axes)
    # region axes, guard, and substitution for the value's axes
    region = []
    guards = []
    posmap = []      # how each array axis is addressed
    i = 0
    for k in nkey:
        if k is None:
            region.append(1)
            posmap.append(('none',))
            continue
        ax = axes[i]
        if _is_scalar_index(k):
            posmap.append(('int', i, lift(k).term))
        elif isinstance(k, slice):
            if is_full_slice(k):
                region.append(ax)
                posmap.append(('all', i))
            elif isinstance(ax, int):
                r = list(_const_slice(k, ax))
                region.append(len(r))
                posmap.append(('crange', i, r))
            else:
                nax, t = _slice_sym(ax, k)
                region.append(nax)
                posmap.append(('slice', i, nax, t, k))
        elif isinstance(k, Arr) and k.dtype == 'b':
            if k.ndim == a.ndim and k.ndim > 1 or (k.ndim == 1 and a.ndim == 1):
                return _set_mask_full(a, k, value, key, written)
            if k.ndim != 1:
                raise AnalysisGap('multi-dimensional mask store')
            if not same_size(k.axes[0], ax):
                raise PyExc(IndexError, 'boolean index did not match indexed array along axis')
            if ax == 1 and T.decide(k.cells[0]) is None:
                nax = mask_all(Arr((1,), k.cells, 'b'), k.cells[0])[1]
                if any(isinstance(x, Ax) and same_size(x, nax) for x in value.axes):
                    region.append(nax)
                    posmap.append(('mask1', i, nax, k.cells[0]))
                    i += 1
                    continue
            if isinstance(ax, int):
                if all(x is T.TRUE for x in k.cells) or (value.axes and value.axes != (1,)):
                    r = [j for j, c in enumerate(k.cells) if branch(c)]
                    region.append(len(r))
                    posmap.append(('crange', i, r))
                    i += 1
                    continue
                # one cell per element: guarded, the value must not vary along it
                region.append(1)
                posmap.append(('fmask', i, list(k.cells)))
                i += 1
                continue
            mask = k.cells[0]
            if k.axes[0].name != ax.name:
                mask = T.subst(mask, {k.axes[0].name: T.idxvar(ax.name)})
            if mask is T.TRUE:
                region.append(ax)
                posmap.append(('all', i))
            else:
                nax = mask_axis(ax, mask)
                region.append(nax)
                posmap.append(('mask', i, nax, mask))
        else:
            k = k if isinstance(k, Arr) else from_nested(k)
            if not k.cells and not is_int(k.dtype) and k.axes != (0,):
                raise PyExc(IndexError, 'arrays used as indices must be of integer (or boolean) type')
            fs = [T.const_fraction(c) for c in k.cells]
            if k.ndim != 1 or not isinstance(ax, int) or None in fs or isinstance(k.axes[0], Ax) or \
                    sum(isinstance(x, (Arr, list)) and not _is_scalar_index(x) for x in nkey) > 1:
                raise AnalysisGap('fancy index store')
            r = [int(f) for f in fs]
            for f in r:
                if not -ax <= f < ax:
                    raise PyExc(IndexError, f'index {f} is out of bounds for axis with size {ax}')
            r = [f % ax for f in r]
            if len(set(r)) != len(r):
                raise AnalysisGap('fancy index store with repeated indices')
            region.append(len(r))
            posmap.append(('crange', i, r))
        i += 1
    # value broadcast to region
    region_axes = []
    seen = set()
    for r in region:
        if isinstance(r, Ax):
            n = r.name
            while n in seen:
                n += "'"
            seen.add(n)
            r = Ax(r.size, n)
        region_axes.append(r)
    vcells = broadcast_to(value, tuple(region_axes))
    if value.dtype != a.dtype:
        vcells = [cast_cell(c, value.dtype, a.dtype) for c in vcells]
    vdims = const_dims(region_axes)
    new = []
    for mi, old in zip(itertools.product(*(range(n) for n in const_dims(axes))), a.cells):
        # const multi-index of the array cell -> per-axis position
        cpos = {}
        k = 0
        for p, ax in enumerate(axes):
            if isinstance(ax, int):
                cpos[p] = mi[k]
                k += 1
        guard = T.TRUE
        sub = {}
        vidx = []
        ok = True
        ra = iter(region_axes)
        for pm in posmap:
            if pm[0] == 'none':
                next(ra)
                vidx.append(0)
            elif pm[0] == 'int':
                ax = axes[pm[1]]
                if isinstance(ax, int):
                    f = T.const_fraction(pm[2])
                    if f is None:
                        guard = T.band(guard, T.eq(pm[2], T.const(cpos[pm[1]])))
                    elif int(f) % ax != cpos[pm[1]] or not -ax <= f < ax:
                        if not -ax <= f < ax:
                            raise PyExc(IndexError, 'index out of bounds')
                        ok = False
                else:
                    kt = pm[2]
                    if T.iv(kt)[1] < 0:
                        kt = T.add(ax.size, kt)
                    guard = T.band(guard, T.eq(T.idxvar(ax.name), kt))
            elif pm[0] == 'all':
                r = next(ra)
                if isinstance(r, int):
                    vidx.append(cpos[pm[1]])
                else:
                    if r.name != axes[pm[1]].name:
                        sub[r.name] = T.idxvar(axes[pm[1]].name)
            elif pm[0] == 'crange':
                next(ra)
                if cpos[pm[1]] in pm[2]:
                    vidx.append(pm[2].index(cpos[pm[1]]))
                else:
                    ok = False
                    vidx.append(0)
            elif pm[0] == 'fmask':
                next(ra)
                vidx.append(0)
                guard = T.band(guard, pm[2][cpos[pm[1]]])
            elif pm[0] == 'mask':
                r = next(ra)
                ax = axes[pm[1]]
                guard = T.band(guard, pm[3])
                sub[r.name] = T.rank(pm[3], T.idxvar(ax.name), ax.name)
            elif pm[0] == 'mask1':
                r = next(ra)
                guard = T.band(guard, pm[3])
                sub[r.name] = T.const(0)
            elif pm[0] == 'slice':
                r = next(ra)
                ax = axes[pm[1]]
                # position t = s + step*k  (step 1 only)
                start = T.subst(pm[3], {pm[2].name: T.const(0)})
                kk = T.sub(T.idxvar(ax.name), start)
                one = T.sub(T.subst(pm[3], {pm[2].name: T.const(1)}), start)
                if T.const_fraction(one) != 1:
                    raise AnalysisGap('strided store on a symbolic axis')
                if start.fp != 0:
                    guard = T.band(guard, T.le(start, T.idxvar(ax.name)))
                endp = T.add(start, pm[2].size)
                if endp.fp != ax.size.fp:
                    guard = T.band(guard, T.lt(T.idxvar(ax.name), endp))
                sub[r.name] = kk
        if not ok:
            new.append(old)
            continue
        f = 0
        for n, j in zip(vdims, vidx):
            f = f * n + j
        v = vcells[f]
        if sub:
            v = T.subst(v, sub)
        new.append(T.ite(guard, v, old))
    write_cells(a, new)


def _set_mask_full(a, mask, value, key, written):
    cells = broadcast_to(mask, a.axes)
    if value.axes and not all(isinstance(x, int) and x == 1 for x in value.axes):
        # value runs over the selected elements
        if not cells:
            broadcast_to(value, (0,))
            return
        if a.ndim == 1 and isinstance(a.axes[0], Ax):
            ax = a.axes[0]
            m = cells[0]
            nax = mask_axis(ax, m) if m is not T.TRUE else ax
            v = broadcast_to(value, (nax,))[0]
            v = cast_cell(v, value.dtype, a.dtype) if value.dtype != a.dtype else v
            if m is not T.TRUE:
                v = T.subst(v, {nax.name: T.rank(m, T.idxvar(ax.name), ax.name)})
            write_cells(a, [T.ite(m, v, a.cells[0])])
            return
        if len(cells) == 1 and T.decide(cells[0]) is None and not (a.ndim == 1 and value.ndim == 1 and isinstance(value.axes[0], int)):
            names, nax = mask_all(a, cells[0])
            v = broadcast_to(value, (nax,))[0]
            v = cast_cell(v, value.dtype, a.dtype) if value.dtype != a.dtype else v
            v = T.subst(v, {nax.name: T.rank_all(cells[0], names) if names else T.const(0)})
            write_cells(a, [T.ite(cells[0], v, a.cells[0])])
            return
        if cells and a.ndim > 1 and any(isinstance(x, Ax) for x in a.axes):
            names, m, nax = mask_rows(a, cells)
            v = broadcast_to(value, (nax,))[0]
            v = cast_cell(v, value.dtype, a.dtype) if value.dtype != a.dtype else v
            v = T.subst(v, {nax.name: T.rank_all(m, names)})
            write_cells(a, [T.ite(c, T.subst(v, {ROW: T.const(j)}), x) for j, (c, x) in enumerate(zip(cells, a.cells))])
            return
        if a.ndim == 1 or not any(isinstance(x, Ax) for x in a.axes):
            r = [j for j, c in enumerate(cells) if branch(c)]
            v = broadcast_to(value, (len(r),))
            new = list(a.cells)
            for j, c in zip(r, v):
                new[j] = cast_cell(c, value.dtype, a.dtype) if value.dtype != a.dtype else c
            write_cells(a, new)
            return
        raise AnalysisGap('masked store of an array')
    v = value.cells[0]
    v = cast_cell(v, value.dtype, a.dtype) if value.dtype != a.dtype else v
    write_cells(a, [T.ite(m, v, c) for m, c in zip(cells, a.cells)])


def write_cells(a, new):
    """Store new cells in a, writing through views."""
    a.cells = list(new)
    if isinstance(a.tag, Arr):
        a.tag = None
    b = a.base
    if b is None:
        return
    if a.view is not None:
        a.view(a)
        return
    # same-layout view (ravel of 1-d, [:] etc.)
    if len(b.axes) == len(a.axes) and all(
            (x == y) if isinstance(x, int) or isinstance(y, int) else (x.name == y.name)
            for x, y in zip(a.axes, b.axes)):
        write_cells(b, [x for x in a.cells])
        return
    # view that only added/removed unit axes
    sa = [x for x in a.axes if not (isinstance(x, int) and x == 1)]
    sb = [x for x in b.axes if not (isinstance(x, int) and x == 1)]
    if len(sa) == len(sb) and all(
            (x == y) if isinstance(x, int) or isinstance(y, int) else (x.name == y.name)
            for x, y in zip(sa, sb)):
        write_cells(b, list(a.cells))
        return
    raise AnalysisGap('write through a partial view')


# ---------------------------------------------------------------------------
# construction

def copy(a, dtype=None, kind='nd'):
    cells = list(a.cells)
    d = a.dtype
    if d in ('pyf', 'pyi', 'pyb'):
        d = {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}[d]
    if dtype is not None and dtype != a.dtype:
        dtype = dtype_str(dtype)
        if dtype in ('M8', 'm8') and a.dtype[0] == dtype[0]:
            dtype = a.dtype
        cells = [cast_cell(c, a.dtype, dtype) for c in cells]
        d = dtype
    return Arr(a.axes, cells, d, kind)


def from_nested(v):
    """np.array(list/tuple of numbers or arrays)."""
    if isinstance(v, Arr):
        return v
    if isinstance(v, (list, tuple)):
        items = [from_nested(x) for x in v]
        if not items:
            return Arr((0,), [], 'f8')
        return stack(items)
    if isinstance(v, range):
        return from_nested(list(v))
    a = lift(v)
    return a


def stack(items, axis=0, dtype=None):
    axes = items[0].axes
    dt = items[0].dtype
    for x in items[1:]:
        if len(x.axes) != len(axes):
            raise PyExc(ValueError, 'all input arrays must have the same shape')
        for p, q in zip(axes, x.axes):
            if not same_size(p, q):
                raise PyExc(ValueError, 'all input arrays must have the same shape')
        dt = promote(dt, x.dtype)
    if dt in ('pyf', 'pyi', 'pyb'):
        dt = {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}[dt]
    if dtype:
        dt = dtype
    cols = []
    for x in items:
        c = align(x, axes) if x.axes else x.cells
        if x.dtype != dt:
            c = [cast_cell(t, x.dtype, dt) for t in c]
        cols.append(c)
    if axis < 0:
        axis += len(axes) + 1
    nax = list(axes)
    nax.insert(axis, len(items))
    # cells in the order of the new const axes
    cpos = sum(1 for a in axes[:axis] if isinstance(a, int))
    dims = const_dims(axes)
    out = []
    nd = const_dims(nax)
    for mi in itertools.product(*(range(n) for n in nd)):
        j = mi[cpos]
        rest = mi[:cpos] + mi[cpos + 1:]
        f = 0
        for n, q in zip(dims, rest):
            f = f * n + q
        out.append(cols[j][f])
    return Arr(tuple(nax), out, dt)


def full(shape, term, dtype):
    axes = [shape_axis(s, i, shape) for i, s in enumerate(shape)]
    seen = set()
    for i, a in enumerate(axes):
        if isinstance(a, Ax):
            n = a.name
            while n in seen:
                n += "'"
            seen.add(n)
            axes[i] = Ax(a.size, n)
    return Arr(tuple(axes), [term] * ncells(axes), dtype)


def shape_axis(s, i=0, shape=()):
    if isinstance(s, bool):
        s = int(s)
    if isinstance(s, int):
        if s < 0:
            raise PyExc(ValueError, 'negative dimensions are not allowed')
        return s
    if isinstance(s, float):
        raise PyExc(TypeError, "'float' object cannot be interpreted as an integer")
    if isinstance(s, Arr):
        if is_float(s.dtype):
            raise PyExc(TypeError, "'float' object cannot be interpreted as an integer")
        t = s.term
        f = T.const_fraction(t)
        if f is not None:
            return int(f)
        return Ax(t, axis_name(t))
    raise AnalysisGap(f'array size {s!r}')


AXIS_NAMES = {}


def axis_name(size):
    """A canonical index name for an axis of this size."""
    n = AXIS_NAMES.get(size.fp)
    if n is None:
        if size.op == 'atom' and size.data.startswith('dim:'):
            n = size.data[4:]
        else:
            n = f'n{size.fp % 10**8:08d}'
        AXIS_NAMES[size.fp] = n
    return n


def expand_dims(a, axis):
    nd = a.ndim + 1
    axis = axis + nd if axis < 0 else axis
    key = [slice(None)] * a.ndim
    key.insert(axis, None)
    return getitem(a if a.kind == 'nd' else as_nd(a), tuple(key))


def as_nd(a):
    d = {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}.get(a.dtype, a.dtype)
    return Arr(a.axes, list(a.cells), d, 'nd')


def transpose(a, perm=None):
    n = a.ndim
    perm = list(range(n))[::-1] if perm is None else [p + n if p < 0 else p for p in perm]
    axes = [a.axes[p] for p in perm]
    src = const_dims(a.axes)
    dst = const_dims(axes)
    cidx = [i for i, x in enumerate(a.axes) if isinstance(x, int)]
    order = [cidx.index(p) for p in perm if isinstance(a.axes[p], int)]
    out = []
    for mi in itertools.product(*(range(x) for x in dst)):
        s = [0] * len(src)
        for j, o in enumerate(order):
            s[o] = mi[j]
        f = 0
        for d, q in zip(src, s):
            f = f * d + q
        out.append(a.cells[f])
    r = Arr(tuple(axes), out, a.dtype)
    r.base = a
    inv_perm = [perm.index(i) for i in range(n)]

    def back(v):
        w = transpose(Arr(v.axes, v.cells, v.dtype), inv_perm)
        write_cells(a, w.cells)
    r.view = back
    return r


def reshape(a, shape):
    """Reshape that only inserts/removes unit axes, or flattens known layouts."""
    shape = list(shape)
    src = [x for x in a.axes if not (isinstance(x, int) and x == 1)]
    tgt = []
    for s in shape:
        if isinstance(s, int) and s == -1:
            tgt.append(-1)
        else:
            tgt.append(shape_axis(s))
    core = [x for x in tgt if not (isinstance(x, int) and x == 1)]
    if -1 in tgt:
        rest = [x for x in core if not (isinstance(x, int) and x == -1)]
        k = len(src) - len(rest)
        if k == 1:
            # the -1 stands for exactly one source axis
            j = [i for i, x in enumerate(core) if isinstance(x, int) and x == -1][0]
            core[j] = src[j]
            i = tgt.index(-1)
            tgt[i] = src[j]
        elif k == 0:
            i = tgt.index(-1)
            tgt[i] = 1
            core = rest
    if len(core) == len(src) and all(same_size(x, y) if not (x == -1) else False
                                     for x, y in zip(core, src)):
        it = iter(src)
        axes = [1 if (isinstance(x, int) and x == 1) else next(it) for x in tgt]
        r = Arr(tuple(axes), list(a.cells), a.dtype)
        r.base = a
        return r
    # all-constant reshape
    if all(isinstance(x, int) for x in a.axes) and all(isinstance(x, int) for x in tgt):
        n = len(a.cells)
        if -1 in tgt:
            m = 1
            for x in tgt:
                if x != -1:
                    m *= x
            tgt[tgt.index(-1)] = n // m if m else 0
        m = 1
        for x in tgt:
            m *= x
        if m != n:
            raise PyExc(ValueError, f'cannot reshape array of size {n} into shape {tuple(tgt)}')
        r = Arr(tuple(tgt), list(a.cells), a.dtype)
        r.base = a

        def back(v):
            write_cells(a, v.cells)
        r.view = back
        return r
    # flatten of symbolic axes: index arithmetic
    if len(core) == 1 and (isinstance(core[0], int) and core[0] == -1 or isinstance(core[0], Ax)) \
            and not const_dims(src) and len(src) >= 2:
        return _flatten_sym(a, src)
    if len(src) == 1 and isinstance(src[0], Ax) and len(core) >= 2 and \
            all(isinstance(x, Ax) for x in core):
        tot = T.const(1)
        for x in core:
            tot = T.mul(tot, x.size)
        if tot.fp == src[0].size.fp:
            names = []
            for x in core:
                n = x.name
                while n in names:
                    n += "'"
                names.append(n)
            core = [Ax(x.size, n) for x, n in zip(core, names)]
            pos = T.const(0)
            for x in core:
                pos = T.add(T.mul(pos, x.size), T.idxvar(x.name))
            m = {src[0].name: pos}
            cells = [_unflat(T.subst(c, m)) for c in a.cells]
            it = iter(core)
            axes = [1 if (isinstance(x, int) and x == 1) else next(it) for x in tgt]
            return Arr(tuple(axes), cells, a.dtype)
    # unit axes present only on one side is the only other legal case
    if all(not (isinstance(x, int) and x == -1) for x in core):
        p1, p2 = T.const(1), T.const(1)
        for x in src:
            p1 = T.mul(p1, size_term(x))
        for x in core:
            p2 = T.mul(p2, size_term(x))
        if p1.fp != p2.fp:
            raise PyExc(ValueError, 'cannot reshape array: sizes differ '
                        f'({[_axs(x) for x in a.axes]} into {[_axs(x) if not isinstance(x, int) else x for x in tgt]})')
    raise AnalysisGap('general reshape of symbolic axes')


def _flatten_sym(a, src):
    """C-order flatten of symbolic axes into one axis with div/mod indices."""
    tot = T.const(1)
    for x in src:
        tot = T.mul(tot, x.size)
    name = axis_name(tot)
    k = T.idxvar(name)
    m = {}
    rem = k
    # index of axis i: floor(k / prod(later)) mod size_i
    for i, x in enumerate(src):
        later = T.const(1)
        for y in src[i + 1:]:
            later = T.mul(later, y.size)
        m[x.name] = T.func('unravel', k, later, x.size, T.const(i), isint=True)
    cells = [T.subst(c, m) for c in a.cells]
    return Arr((Ax(tot, name),), cells, a.dtype)


def _unflat(c):
    """Simplify unravel(row-major position) back to the index variables."""
    repl = {}
    for x in T.walk(c):
        if x.op == 'fn' and x.data == 'unravel':
            pos, later, size, i = x.args
            v = _unravel_value(pos, later, size)
            if v is not None:
                repl[x.uid] = v
    if not repl:
        return c
    memo = dict(repl)

    def go(t):
        r = memo.get(t.uid)
        if r is not None:
            return r
        if not t.args:
            r = t
        else:
            args = [go(x) for x in t.args]
            r = t if all(p is q for p, q in zip(args, t.args)) else T.rebuild(t, args, go)
        memo[t.uid] = r
        return r
    return go(c)


def _unravel_value(pos, later, size):
    """pos = (..*size + i)*later + rest  ->  i, looked up by value number."""
    for x in T.walk(pos):
        if x.op == 'idx':
            # candidate index variable: check pos - i*later has i removed and size matches
            d = T.sub(pos, T.mul(x, later))
            if x.data not in T.idx_deps(_simplify(d)):
                s = AXIS_OF.get(x.data)
                if s is None or s.fp == size.fp:
                    return x
    return None


def _simplify(t):
    if t.op in ('add', 'mul') and t.lin:
        return T.from_lin([(k, c, a) for k, (c, a) in t.lin.items()])
    return t


AXIS_OF = {}


def reduce_axis(op, a, axis, keepdims=False, dtype=None, skipnan=False):
    """Reduction over one axis."""
    nd = a.ndim
    if not -nd <= axis < nd:
        raise PyExc(ValueError, f'axis {axis} is out of bounds for array of dimension {nd}')
    axis %= nd
    ax = a.axes[axis]
    f2 = {'sum': T.add, 'prod': T.mul, 'max': T.maximum, 'min': T.minimum,
          'all': T.band, 'any': T.bor}.get(op)
    dt = a.dtype
    if op in ('sum', 'prod') and is_bool(dt):
        dt = 'i8'
    if op in ('all', 'any'):
        dt = 'b'
    if op in ('mean', 'std', 'var', 'median') and not is_float(dt):
        dt = 'f8'
    rest = a.axes[:axis] + a.axes[axis + 1:]
    if isinstance(ax, int):
        cpos = sum(1 for x in a.axes[:axis] if isinstance(x, int))
        dims = const_dims(a.axes)
        out = []
        for mi in itertools.product(*(range(n) for n in const_dims(rest))):
            vals = []
            for j in range(ax):
                full_i = mi[:cpos] + (j,) + mi[cpos:]
                f = 0
                for n, q in zip(dims, full_i):
                    f = f * n + q
                c = a.cells[f]
                if op in ('all', 'any'):
                    c = T.astype_bool(c)
                vals.append(c)
            if op in ('max', 'min') and not vals:
                raise PyExc(ValueError, f"zero-size array to reduction operation {'maximum' if op == 'max' else 'minimum'} which has no identity")
            if op == 'mean':
                if not vals:
                    out.append(T.nan())
                    continue
                s = vals[0]
                for v in vals[1:]:
                    s = T.add(s, v)
                out.append(T.scale(s, {0: Fraction(1, ax)}))
                continue
            if f2 is None:
                raise AnalysisGap(f'reduction {op}')
            if not vals:
                out.append({'sum': T.const(0), 'prod': T.const(1), 'all': T.TRUE,
                            'any': T.FALSE}[op])
                continue
            if op in ('max', 'min') and skipnan:
                s = vals[0]
                for v in vals[1:]:
                    s = T.ite(s.valid, T.ite(v.valid, f2(T._unmask(s), T._unmask(v)), s), v)
                out.append(s)
                continue
            s = vals[0]
            for v in vals[1:]:
                s = f2(s, v)
            out.append(s)
    else:
        out = []
        for c in a.cells:
            out.append(reduce_term(op, T.astype_bool(c) if op in ('all', 'any') else c, ax))
    axes = rest
    if keepdims:
        axes = a.axes[:axis] + (1,) + a.axes[axis + 1:]
    return Arr(axes, out, dt, 'nd' if axes else 'sc')


def reduce_term(op, c, ax):
    if op in ('all', 'any'):
        d = quantify(op, c, ax)
        if d is not None:
            return T.TRUE if d else T.FALSE
        return bred(op, c, ax)
    if op in ('max', 'min', 'mean') and ax.name not in T.idx_deps(c):
        return c
    if op == 'sum' and ax.name not in T.idx_deps(c):
        return T.mul(c, ax.size)
    body = T.bind((ax.name,), c)[0][0]
    t = T.reduction(op, body, ax.size)
    if op == 'sum' and c.isbool:
        d = quantify('any', c, ax)
        if d is False:
            return T.const(0)
        lo, hi = T.iv(ax.size)
        t._iv = (1.0 if d else 0.0, hi)
        t.isint = True
    if op in ('max', 'min', 'mean', 'median'):
        i = T.iv(c)
        w = witnesses(c)
        lo, hi = i
        for a, b in w:
            if op == 'max':
                lo = max(lo, a)
            if op == 'min':
                hi = min(hi, b)
        t._iv = (lo, hi)
    return t


def bred(op, c, ax):
    if ax.name not in T.idx_deps(c):
        return c
    if op == 'any':
        return T.bnot(bred('all', T.bnot(c), ax))
    body = T.bind((ax.name,), c)[0][0]
    return T.boolatom('bred', body, ax.size, data=('all',))


def witnesses(c):
    """Sub-intervals that some element of the term is known to reach."""
    at = {x.data: x for x in T.walk(c) if x.op == 'atom'}
    out = []
    for name in at:
        info = T.ATOMS.get(name)
        if info and info.witness:
            for w in info.witness:
                out.append(eval_with(c, name, w))
    return out


def eval_with(c, name, w):
    ctx = T.Ctx({})
    saved = T.ATOMS[name]
    info = T.AtomInfo(lo=w[0], hi=w[1], integer=saved.integer)
    T.ATOMS[name] = info
    try:
        # a throw-away context avoids the shared interval cache
        ctx.over = {-1: (0, 0)}
        return T.iv(c, ctx)
    finally:
        T.ATOMS[name] = saved


def quantify(op, c, ax):
    """all/any of c over an axis, decided by hull and witness intervals."""
    d = T.decide(c)
    if d is not None:
        return d
    at = {x.data for x in T.walk(c) if x.op == 'atom'}
    for name in at:
        info = T.ATOMS.get(name)
        if info and info.witness:
            for w in info.witness:
                saved = T.ATOMS[name]
                T.ATOMS[name] = T.AtomInfo(lo=w[0], hi=w[1], integer=saved.integer)
                try:
                    r = T.decide(c, T.Ctx({-1: (0, 0)}))
                finally:
                    T.ATOMS[name] = saved
                if r is False and op == 'all':
                    return False
                if r is True and op == 'any':
                    return True
    return None
