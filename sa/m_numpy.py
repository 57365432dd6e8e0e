"""Models of numpy and numexpr."""

import ast
import itertools
from fractions import Fraction

from . import terms as T
from . import arrays as A
from .arrays import Arr, Ax, PyExc
from .terms import AnalysisGap
from .names import NAMES
from .values import (MISSING, BoundMethod, Builtin, ClassVal, ExtVal, FuncVal, Instance, ModuleVal, Obj,
                     Opaque, SymIter, SymList, SymStr)
from . import interp as I
from .interp import CONSTS, EXT_TYPES, MODELS, GenVal, model
from .m_builtins import NPNAME, to_index

CONSTS['numpy.pi'] = lambda: Arr((), [T.pi()], 'pyf', 'py')
CONSTS['numpy.e'] = lambda: Arr((), [T.exp(T.const(1))], 'pyf', 'py')
CONSTS['numpy.nan'] = lambda: float('nan')
CONSTS['numpy.NaN'] = lambda: float('nan')
CONSTS['numpy.inf'] = lambda: float('inf')
CONSTS['numpy.newaxis'] = None
CONSTS['numpy.__version__'] = '2.4.4'
CONSTS['numexpr.__version__'] = '2.14.1'
for _s in ('complex128', 'bytes_', 'void'):
    pass


# ---------------------------------------------------------------------------
# dtype objects

class DType(Obj):
    tname = 'numpy.dtype'

    def __init__(self, d):
        self.d = d

    def p_kind(self, it):
        return {'b': 'b', 'O': 'O', 'U': 'U'}.get(self.d, self.d[0])

    def p_name(self, it):
        n = NPNAME.get(self.d, self.d)
        return n.replace('M8', 'datetime64').replace('m8', 'timedelta64').replace('bool_', 'bool')

    def p_str(self, it):
        return '<' + self.d

    def p_char(self, it):
        return self.d

    def p_itemsize(self, it):
        return {'f4': 4, 'i4': 4, 'f2': 2, 'i2': 2, 'i1': 1, 'u1': 1, 'b': 1, 'f16': 16}.get(self.d, 8)

    def p_type(self, it):
        if A.is_time(self.d):
            return ExtVal('numpy.' + ('datetime64' if self.d[0] == 'M' else 'timedelta64'))
        return ExtVal('numpy.' + NPNAME.get(self.d, self.d))

    def compare(self, it, op, other):
        try:
            o = get_dtype(it, other)
        except PyExc:
            o = None
        r = o == self.d
        return r if op == '==' else not r

    def str(self, it):
        return self.p_name(it)

    def __hash__(self):
        return hash(self.d)

    def __eq__(self, o):
        return isinstance(o, DType) and o.d == self.d

    def call(self, it, args, kwargs):
        raise PyExc(TypeError, "'numpy.dtype' object is not callable")


def get_dtype(it, d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d.d
    if isinstance(d, str):
        return A.dtype_str(d)
    if isinstance(d, type):
        m = {float: 'f8', int: 'i8', bool: 'b', object: 'O', str: 'U'}.get(d)
        if m:
            return m
    if isinstance(d, ExtVal) and d.path.startswith('numpy.'):
        return A.dtype_str(d.path[6:])
    if isinstance(d, Arr):
        return d.dtype
    if isinstance(d, SymStr):
        raise AnalysisGap('abstract dtype name')
    raise PyExc(TypeError, f'Cannot interpret {it.tname(d)} as a data type')


@model('numpy.dtype')
def np_dtype(it, d):
    return DType(get_dtype(it, d))


# scalar constructors
def _scalar_ctor(path, d):
    def f(it, v=0, *rest):
        if isinstance(v, Obj) and hasattr(v, 'ufunc'):
            return v.astype_(it, d)
        if isinstance(v, str):
            if d[0] in 'f':
                try:
                    v = float(v)
                except ValueError as e:
                    raise PyExc(ValueError, str(e))
            elif A.is_int(d):
                v = int(v)
        a = to_arr(it, v)
        r = A.astype(a, d)
        if not r.axes:
            r.kind = 'sc'
        return r
    MODELS['numpy.' + path] = f
    EXT_TYPES['numpy.' + path] = lambda it, v: isinstance(v, Arr) and v.kind == 'sc' and v.dtype == d


for _p, _d in (('float64', 'f8'), ('float32', 'f4'), ('float16', 'f2'), ('float128', 'f16'), ('longdouble', 'f16'),
               ('double', 'f8'), ('single', 'f4'), ('int64', 'i8'), ('int32', 'i4'), ('int16', 'i2'), ('int8', 'i1'),
               ('int_', 'i8'), ('intp', 'i8'), ('uint8', 'u1'), ('uint16', 'u2'), ('uint32', 'u4'), ('uint64', 'u8'),
               ('bool_', 'b'), ('bool', 'b'), ('float_', 'f8')):
    _scalar_ctor(_p, _d)

EXT_TYPES.update({
    'numpy.ndarray': lambda it, v: isinstance(v, Arr) and v.kind == 'nd',
    'numpy.generic': lambda it, v: isinstance(v, Arr) and v.kind == 'sc',
    'numpy.number': lambda it, v: isinstance(v, Arr) and v.kind == 'sc' and not A.is_time(v.dtype) and v.dtype != 'b',
    'numpy.floating': lambda it, v: isinstance(v, Arr) and v.kind == 'sc' and A.is_float(v.dtype),
    'numpy.integer': lambda it, v: isinstance(v, Arr) and v.kind == 'sc' and A.is_int(v.dtype),
    'numpy.datetime64': lambda it, v: isinstance(v, Arr) and v.kind == 'sc' and v.dtype[0] == 'M',
    'numpy.timedelta64': lambda it, v: isinstance(v, Arr) and v.kind == 'sc' and v.dtype[0] == 'm',
    'numpy.dtype': lambda it, v: isinstance(v, DType),
    'numpy.ma.MaskedArray': lambda it, v: False,
})


def time_unit(u):
    if u is None:
        return
    if not isinstance(u, str):
        raise PyExc(TypeError, 'Invalid object for specifying NumPy datetime metadata')
    if u in ('fs', 'as', 'generic'):
        raise AnalysisGap(f'time unit {u}')
    if u not in A._UORD:
        raise PyExc(TypeError, f'Invalid datetime unit "{u}" in metadata')


@model('numpy.datetime64')
def np_datetime64(it, v=None, u=None):
    time_unit(u)
    if isinstance(v, str):
        if v in ('NaT', 'nat', ''):
            return Arr((), [T.nan()], 'M8[%s]' % (u or 's'), 'sc')
        import datetime
        try:
            dt = datetime.datetime.fromisoformat(v)
        except ValueError as e:
            raise PyExc(ValueError, str(e))
        unit = u or ('D' if len(v) <= 10 else 's')
        sec = Fraction((dt - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1), 10**6)
        return Arr((), [A.cast_time(T.const(sec * 10**6), 'M8[us]', f'M8[{unit}]')], f'M8[{unit}]', 'sc')
    if isinstance(v, int):
        if u is None:
            raise PyExc(ValueError, 'Converting an integer to a NumPy datetime requires a specified unit')
        return Arr((), [T.const(v)], f'M8[{u}]', 'sc')
    if isinstance(v, Obj) and hasattr(v, 'to_dt64'):
        a = v.to_dt64(it)
        return A.astype(a, f'M8[{u}]') if u else a
    if isinstance(v, Arr) and A.is_time(v.dtype):
        r = A.astype(v, f'M8[{u}]') if u else v
        return Arr(r.axes, r.cells, r.dtype, 'sc')
    if isinstance(v, Arr) and A.is_int(v.dtype) and u:
        return Arr((), [v.term], f'M8[{u}]', 'sc')
    raise AnalysisGap('numpy.datetime64 argument')


@model('numpy.timedelta64')
def np_timedelta64(it, v=0, u=None):
    time_unit(u)
    if isinstance(v, str) and v.strip().lstrip('+-').isdigit():
        v = int(v)
    if isinstance(v, str):
        if v not in ('NaT', 'nat', ''):
            raise PyExc(ValueError, 'Could not convert object to NumPy timedelta')
        return Arr((), [T.nan()], 'm8[%s]' % (u or 's'), 'sc')
    if isinstance(v, int):
        return Arr((), [T.const(v)], f'm8[{u}]' if u else 'm8', 'sc')
    if isinstance(v, Arr):
        if A.is_time(v.dtype):
            r = A.astype(v, f'm8[{u}]') if u else v
            return Arr(r.axes, r.cells, r.dtype, 'sc')
        return Arr(v.axes, [T.trunc(c) for c in v.cells], f'm8[{u}]', 'sc')
    if isinstance(v, float):
        raise PyExc(ValueError, 'Could not convert object to NumPy timedelta')
    if isinstance(v, Obj) and hasattr(v, 'to_td64'):
        a = v.to_td64(it)
        return A.astype(a, f'm8[{u}]') if u else a
    raise AnalysisGap('numpy.timedelta64 argument')


# ---------------------------------------------------------------------------
# conversion

def to_arr(it, v, strict=True):
    """Any array-like as an Arr (python scalars keep kind 'py')."""
    if isinstance(v, Arr):
        return v
    if isinstance(v, (bool, int, float, Fraction)):
        return A.lift(v)
    if isinstance(v, (list, tuple, range)):
        return seq_arr(it, list(v))
    if isinstance(v, SymList):
        e = to_arr(it, v.elem)
        name = A.axis_name(v.size)
        while any(isinstance(a, A.Ax) and a.name == name for a in e.axes):
            name = name + "'"
        cells = [T.subst(c, {v.name: T.idxvar(name)}) for c in e.cells]
        d = {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}.get(e.dtype, e.dtype)
        return Arr((A.Ax(v.size, name),) + tuple(e.axes), cells, d)
    if isinstance(v, SymIter):
        it.loopn += 1
        n = f'loop{it.loopn}'
        return to_arr(it, SymList(v.size, n, v.elem(T.idxvar(n))))
    if isinstance(v, GenVal):
        raise PyExc(TypeError, 'cannot convert a generator to an array')
    if isinstance(v, Obj) and hasattr(v, 'to_array'):
        return v.to_array(it)
    if isinstance(v, Instance) and '__tuple__' in v.attrs:
        return seq_arr(it, list(v.attrs['__tuple__']))
    if v is None:
        raise PyExc(TypeError, 'float() argument must be a string or a real number, not NoneType')
    if isinstance(v, (str, SymStr)):
        raise AnalysisGap('string array')
    if isinstance(v, Instance):
        f = v.cls.lookup('__array__')
        if f is not MISSING:
            return to_arr(it, it.call(BoundMethod(f, v), []))
    if isinstance(v, (dict, set, FuncVal)):
        raise PyExc(TypeError, f'float() argument must be a string or a real number, not {it.tname(v)!r}')
    raise AnalysisGap(f'array from {it.tname(v)}')


def seq_arr(it, xs):
    if not xs:
        return Arr((0,), [], 'f8')
    items = [to_arr(it, x) for x in xs]
    nd = {len(x.axes) for x in items}
    if len(nd) > 1:
        raise PyExc(ValueError, 'setting an array element with a sequence (inhomogeneous shape)')
    try:
        return A.stack(items)
    except PyExc:
        raise PyExc(ValueError, 'setting an array element with a sequence (inhomogeneous shape)')


def norm_index(it, k):
    if isinstance(k, Nonzero):
        return k.mask
    if isinstance(k, Arr) and isinstance(k.tag, Arr):
        return k.tag
    if isinstance(k, tuple):
        return tuple(norm_index(it, x) for x in k)
    if isinstance(k, list):
        if not k:
            return Arr((0,), [], 'i8')
        a = seq_arr(it, k)
        return a
    if isinstance(k, (range, SymList)):
        return to_arr(it, k)
    if isinstance(k, bool):
        return Arr((), [T.TRUE if k else T.FALSE], 'b', 'sc')
    if isinstance(k, slice):
        return slice(it._sl(k.start), it._sl(k.stop), it._sl(k.step))
    if isinstance(k, Obj) and hasattr(k, 'to_array'):
        return k.to_array(it)
    if isinstance(k, str):
        raise PyExc(IndexError, 'only integers, slices, ellipsis, newaxis and arrays are valid indices')
    return k


def nd(a):
    """Ensure ndarray kind."""
    if a.kind == 'nd':
        return a
    return A.as_nd(a)


@model('numpy.array')
def np_array(it, v, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
    d = get_dtype(it, dtype)
    a = to_arr(it, v)
    r = A.copy(a, None)
    if d is not None:
        if d in ('M8', 'm8') and r.dtype[0] == d[0]:
            d = r.dtype
        if r.dtype != d:
            if A.is_time(r.dtype) and not A.is_time(d) and d == 'O':
                raise AnalysisGap('datetime array as objects')
            r = A.astype(r, d)
    r.kind = 'nd'
    while r.ndim < ndmin:
        r = Arr((1,) + tuple(r.axes), r.cells, r.dtype)
    if copy is False and isinstance(v, Arr) and v.kind == 'nd' and (d is None or d == v.dtype):
        r.owner = v.owner
        r.base = v
    return r


@model('numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray')
def np_asarray(it, v, dtype=None, order=None, **k):
    d = get_dtype(it, dtype)
    a = to_arr(it, v)
    if isinstance(v, Arr) and v.kind == 'nd' and (d is None or d == v.dtype or d in ('M8', 'm8') and d[0] == v.dtype[0]):
        return v
    if isinstance(v, Obj) and hasattr(v, 'buffer') and (d is None or d == a.dtype):
        return v.buffer(it)
    return np_array(it, a, dtype=DType(d) if d else None)


@model('numpy.atleast_1d')
def np_atleast1(it, *vs):
    out = []
    for v in vs:
        a = np_asarray(it, v)
        if a.ndim == 0:
            r = Arr((1,), a.cells, a.dtype)
            r.base = a
            a = r
        out.append(a)
    return out[0] if len(out) == 1 else out


@model('numpy.atleast_2d')
def np_atleast2(it, v):
    a = np_asarray(it, v)
    while a.ndim < 2:
        r = Arr((1,) + tuple(a.axes), a.cells, a.dtype)
        r.base = a
        a = r
    return a


# ---------------------------------------------------------------------------
# ufuncs

def _deg(t):
    return T.scale(t, {-1: Fraction(180)})


def _rad(t):
    return T.scale(t, {1: Fraction(1, 180)})


# Is a value outside the domain not a number here? (Otherwise an obligation is
# recorded, and the function is taken to be inside its domain.)
NAN_DOMAIN = [False]


def _unit(fn, t):
    A.oblige('unit', t)
    r = fn(t)
    if NAN_DOMAIN[0]:
        lo, hi = T.iv(t)
        if lo < -1 or hi > 1:
            one = T.const(1)
            r = T.with_valid(r, T.band(T.le(T.neg(one), t), T.le(t, one)))
    return r


def _arcsin(t):
    return _unit(T.arcsin, t)


def _arccos(t):
    return _unit(T.arccos, t)


def _sqrt(t):
    A.oblige('nonneg', t)
    return T.sqrt(t)


def _log(t):
    A.oblige('positive', t)
    return T.log(t)


def _sign(t):
    return T.ite(T.lt(t, T.const(0)), T.const(-1), T.ite(T.eq(t, T.const(0)), T.const(0), T.const(1)))


def _log10(t):
    A.oblige('positive', t)
    return T.div(T.log(t), T.log(T.const(10)))


FLOAT1 = {
    'sin': T.sin, 'cos': T.cos, 'tan': T.tan, 'arcsin': _arcsin, 'arccos': _arccos, 'arctan': T.arctan,
    'asin': _arcsin, 'acos': _arccos, 'atan': T.arctan,
    'sqrt': _sqrt, 'exp': T.exp, 'log': _log, 'log10': _log10, 'degrees': _deg, 'radians': _rad,
    'rad2deg': _deg, 'deg2rad': _rad,
    'log1p': lambda t: _log(T.add(t, T.const(1))), 'expm1': lambda t: T.sub(T.exp(t), T.const(1)),
    'sinh': lambda t: T.scale(T.sub(T.exp(t), T.exp(T.neg(t))), {0: Fraction(1, 2)}),
    'cosh': lambda t: T.scale(T.add(T.exp(t), T.exp(T.neg(t))), {0: Fraction(1, 2)}),
    'tanh': lambda t: T.func('tanh', t),
    'log2': lambda t: T.div(_log(t), T.log(T.const(2))),
    'exp2': lambda t: T.exp(T.mul(t, T.log(T.const(2)))), 'cbrt': lambda t: T.power(t, T.const(Fraction(1, 3))),
}
T.FN_IV['tanh'] = (-1.0, 1.0)
KEEP1 = {
    'absolute': T.absolute, 'abs': T.absolute, 'fabs': T.absolute, 'floor': T.floor, 'ceil': T.ceil,
    'trunc': T.trunc, 'rint': lambda t: T.rnd(t, 0), 'fix': T.trunc, 'sign': _sign, 'negative': T.neg,
    'positive': lambda t: t, 'square': lambda t: T.powi(t, 2), 'reciprocal': lambda t: A._div(T.const(1), t),
    'conjugate': lambda t: t, 'real': lambda t: t,
}
BOOL1 = {
    'isnan': lambda t: T.bnot(t.valid), 'isnat': lambda t: T.bnot(t.valid),
    'isfinite': lambda t: _finite(t), 'isinf': lambda t: T.TRUE if t.op == 'inf' else T.FALSE,
    'logical_not': lambda t: T.bnot(T.astype_bool(t)), 'signbit': lambda t: T.lt(t, T.const(0)),
}


def _finite(t):
    if t.op == 'inf':
        return T.FALSE
    return t.valid


FLOAT2 = {'arctan2': T.arctan2, 'atan2': T.arctan2,
          'hypot': lambda x, y: T.sqrt(T.add(T.mul(x, x), T.mul(y, y))),
          'copysign': lambda x, y: T.ite(T.lt(y, T.const(0)), T.neg(T.absolute(x)), T.absolute(x))}


def _fmod(x, y):
    return T.sub(x, T.mul(y, T.trunc(T.div(x, y))))


def _nanmax(op):
    f = T.maximum if op == 'max' else T.minimum

    def g(a, b):
        r = f(T._unmask(a), T._unmask(b))
        va, vb = a.valid, b.valid
        if va is T.TRUE and vb is T.TRUE:
            return r
        return T.ite(T.band(va, vb), r, T.ite(va, a, b))
    return g


PROM2 = {'maximum': T.maximum, 'minimum': T.minimum, 'fmax': _nanmax('max'), 'fmin': _nanmax('min'),
         'fmod': _fmod}
OPS2 = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/', 'floor_divide': '//',
        'mod': '%', 'remainder': '%', 'power': '**', 'float_power': '**', 'pow': '**', 'bitwise_and': '&', 'bitwise_or': '|',
        'bitwise_xor': '^'}
CMP2 = {'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>=', 'equal': '==', 'not_equal': '!='}
LOG2 = {'logical_and': T.band, 'logical_or': T.bor, 'logical_xor': T.bxor}


def float_dtype(d):
    if A.is_float(d):
        return 'f8' if d == 'pyf' else d
    if d in ('i1', 'u1', 'b'):
        return 'f2'
    if d in ('i2', 'u2'):
        return 'f4'
    return 'f8'


def to_float(*arrs):
    d = arrs[0].dtype if len(arrs) == 1 else A.promote(arrs[0].dtype, arrs[1].dtype)
    f = float_dtype(d)
    if A.is_int(d) and f in ('f2', 'f4'):
        A.NARROWINGS.append(('float', arrs[0].cells[0] if arrs[0].cells else T.const(0), d, f, T.Loc.cur))
    return f


def apply1(it, name, a):
    """Unary ufunc on an Arr."""
    if name in FLOAT1:
        if A.is_time(a.dtype):
            raise PyExc(TypeError, f"ufunc '{name}' not supported for the input types")
        return fin(A.elementwise(FLOAT1[name], [a], to_float(a)))
    if name in KEEP1:
        if a.dtype[0] == 'M' or a.dtype[0] == 'm' and name not in ('absolute', 'abs', 'negative', 'sign'):
            raise PyExc(TypeError, f"ufunc '{name}' not supported for the input types")
        d = {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}.get(a.dtype, a.dtype)
        if name in ('rint', 'fabs') and not A.is_float(d):
            d = 'f8'
        return fin(A.fits(A.elementwise(KEEP1[name], [a], d)))
    if name in BOOL1:
        if name == 'isnat' and not A.is_time(a.dtype):
            raise PyExc(TypeError, "ufunc 'isnat' is only defined for np.datetime64 and np.timedelta64.")
        if A.is_int(a.dtype) or A.is_bool(a.dtype):
            if name in ('isnan', 'isinf'):
                return fin(A.elementwise(lambda t: T.FALSE, [a], 'b'))
        return fin(A.elementwise(BOOL1[name], [a], 'b'))
    if name == 'invert' or name == 'bitwise_not':
        return fin(A.unary('~', a))
    raise AnalysisGap(f'ufunc {name}')


def fin(a):
    if a.kind == 'py':
        a.kind = 'sc'
        a.dtype = {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}.get(a.dtype, a.dtype)
    return a


def apply2(it, name, a, b):
    if name in FLOAT2:
        return fin(A.elementwise(FLOAT2[name], [a, b], to_float(a, b)))
    if name in PROM2:
        if A.is_time(a.dtype) and A.is_time(b.dtype):
            d = A.promote(a.dtype, b.dtype)
            a = A.astype(a, d)
            b = A.astype(b, d)
        else:
            d = A.promote(a.dtype, b.dtype)
        return fin(A.elementwise(PROM2[name], [a, b], d))
    if name in OPS2:
        return fin(A.binop(OPS2[name], a, b))
    if name in CMP2:
        return fin(A.compare(CMP2[name], a, b))
    if name in LOG2:
        f = LOG2[name]
        return fin(A.elementwise(lambda x, y: f(T.astype_bool(x), T.astype_bool(y)), [a, b], 'b'))
    raise AnalysisGap(f'ufunc {name}')


def store_out(it, out, r, where=None):
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        return r
    A.setitem(out, Ellipsis, r, it.written)
    return out


def ufunc1(name):
    def f(it, x, out=None, where=True, dtype=None, **k):
        if isinstance(x, Obj) and hasattr(x, 'ufunc'):
            return x.ufunc(it, name)
        a = to_arr(it, x)
        r = apply1(it, name, a)
        if dtype is not None:
            r = A.astype(r, get_dtype(it, dtype))
        if where is not True:
            w = to_arr(it, where)
            if out is None:
                raise AnalysisGap('ufunc where= without out=')
            o = out[0] if isinstance(out, tuple) else out
            r = A.elementwise(T.ite, [w, r, o], o.dtype)
        return store_out(it, out, r)
    MODELS['numpy.' + name] = f


def ufunc2(name):
    def f(it, x, y, out=None, where=True, dtype=None, **k):
        for p, q, rev in ((x, y, False), (y, x, True)):
            if isinstance(p, Obj) and hasattr(p, 'ufunc2'):
                return p.ufunc2(it, name, q, rev)
        a, b = to_arr(it, x), to_arr(it, y)
        if dtype is not None:
            d = get_dtype(it, dtype)
            a, b = A.astype(a, d), A.astype(b, d)
        r = apply2(it, name, a, b)
        if where is not True:
            w = to_arr(it, where)
            if out is None:
                raise AnalysisGap('ufunc where= without out=')
            o = out[0] if isinstance(out, tuple) else out
            r = A.elementwise(T.ite, [w, r, o], o.dtype)
        return store_out(it, out, r)
    MODELS['numpy.' + name] = f


for _n in list(FLOAT1) + list(KEEP1) + list(BOOL1) + ['invert', 'bitwise_not']:
    ufunc1(_n)
for _n in list(FLOAT2) + list(PROM2) + list(OPS2) + list(CMP2) + list(LOG2):
    ufunc2(_n)


@model('numpy.modf')
def np_modf(it, x):
    a = to_arr(it, x)
    i = A.elementwise(T.trunc, [a], float_dtype(a.dtype))
    return (fin(A.binop('-', a, i)), fin(i))


@model('numpy.divmod')
def np_divmod(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    return (fin(A.binop('//', a, b)), fin(A.binop('%', a, b)))


@model('numpy.clip')
def np_clip(it, x, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    if isinstance(x, Obj) and hasattr(x, 'm_clip'):
        return x.m_clip(it, lo, hi)
    a = to_arr(it, x)
    r = a
    if lo is not None:
        r = apply2(it, 'maximum', r, to_arr(it, lo))
    if hi is not None:
        r = apply2(it, 'minimum', r, to_arr(it, hi))
    return store_out(it, out, fin(r) if r is not a else A.copy(a))


@model('numpy.where')
def np_where(it, c, *xy):
    if not xy:
        return np_nonzero(it, c)
    x, y = xy
    for v in (c, x, y):
        if isinstance(v, Obj) and hasattr(v, 'where3'):
            return v.where3(it, c, x, y)
    c, x, y = to_arr(it, c), to_arr(it, x), to_arr(it, y)
    d = A.promote(x.dtype, y.dtype)
    d = {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}.get(d, d)
    if A.is_time(d):
        x, y = A.astype(x, d), A.astype(y, d)
    r = A.elementwise(lambda p, q, s: T.ite(T.astype_bool(p), q, s), [c, x, y], d, 'nd')
    r.kind = 'nd'
    return r


@model('numpy.select')
def np_select(it, conds, choices, default=0):
    r = to_arr(it, default)
    for c, v in reversed(list(zip(it.to_list(conds), it.to_list(choices)))):
        r = np_where(it, c, v, r)
    return r


@model('numpy.piecewise')
def np_piecewise(it, x, conds, funcs, *a):
    raise AnalysisGap('numpy.piecewise')


@model('numpy.nan_to_num')
def np_nan_to_num(it, x, copy=True, nan=0.0, **k):
    a = to_arr(it, x)
    v = A.lift(nan).cells[0]
    return fin(A.elementwise(lambda t: T.ite(t.valid, t, v), [a], a.dtype))


@model('numpy.round', 'numpy.around', 'numpy.round_')
def np_round(it, x, decimals=0, out=None):
    if isinstance(x, Obj) and hasattr(x, 'm_round'):
        return x.m_round(it, decimals)
    a = to_arr(it, x)
    n = decimals if isinstance(decimals, int) else int(T.const_fraction(decimals.term))
    return store_out(it, out, fin(A.elementwise(lambda t: T.rnd(t, n), [a], a.dtype)))


# ---------------------------------------------------------------------------
# constructors

def shape_list(it, s):
    if isinstance(s, (tuple, list)):
        return [to_index(it, x) for x in s]
    if isinstance(s, Arr) and s.axes:
        return [to_index(it, x) for x in it.to_list(s)]
    return [to_index(it, s)]


def _full(it, shape, v, dtype):
    a = to_arr(it, v)
    d = get_dtype(it, dtype) or {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}.get(a.dtype, a.dtype)
    r = A.full(shape_list(it, shape), T.const(0), d)
    if a.axes:
        r.cells = A.broadcast_to(a, r.axes)
    else:
        t = a.cells[0]
        if a.dtype != d:
            t = A.cast_cell(t, a.dtype, d) if not (A.is_time(d) and not t.valid is T.TRUE) else t
        r.cells = [t] * len(r.cells)
    return r


@model('numpy.zeros')
def np_zeros(it, shape, dtype=None, order=None):
    return _full(it, shape, 0.0, dtype or 'f8')


@model('numpy.ones')
def np_ones(it, shape, dtype=None, order=None):
    return _full(it, shape, 1.0, dtype or 'f8')


@model('numpy.empty')
def np_empty(it, shape, dtype=None, order=None):
    d = get_dtype(it, dtype) or 'f8'
    r = _full(it, shape, 0.0, 'f8')
    r.dtype = d
    r.cells = [T.atom('uninitialised')] * len(r.cells)
    return r


@model('numpy.full')
def np_full(it, shape, fill_value, dtype=None, order=None):
    return _full(it, shape, fill_value, dtype)


def _like(it, a, dtype):
    return get_dtype(it, dtype) or {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}.get(a.dtype, a.dtype)


@model('numpy.zeros_like')
def np_zeros_like(it, x, dtype=None, **k):
    return _fill_like(it, x, T.const(0), dtype)


@model('numpy.ones_like')
def np_ones_like(it, x, dtype=None, **k):
    return _fill_like(it, x, T.const(1), dtype)


@model('numpy.empty_like')
def np_empty_like(it, x, dtype=None, **k):
    return _fill_like(it, x, T.atom('uninitialised'), dtype)


@model('numpy.full_like')
def np_full_like(it, x, fill_value, dtype=None, **k):
    v = to_arr(it, fill_value)
    if v.axes:
        a = to_arr(it, x)
        return Arr(a.axes, A.broadcast_to(v, a.axes), _like(it, a, dtype))
    return _fill_like(it, x, v.cells[0], dtype)


def _fill_like(it, x, t, dtype):
    if isinstance(x, Obj) and hasattr(x, 'fill_like'):
        return x.fill_like(it, t, get_dtype(it, dtype))
    a = to_arr(it, x)
    d = _like(it, a, dtype)
    if A.is_bool(d) and not t.isbool:
        t = T.astype_bool(t)
    return Arr(a.axes, [t] * len(a.cells), d)


@model('numpy.arange')
def np_arange(it, *a, dtype=None):
    d = get_dtype(it, dtype)
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    xs = [A.lift(x) for x in (start, stop, step)]
    if any(A.is_time(x.dtype) for x in xs):
        raise AnalysisGap('arange of datetimes')
    fs = [T.const_fraction(x.term) for x in xs]
    fl = any(A.is_float(x.dtype) for x in xs)
    if all(f is not None for f in fs):
        n = max(0, -((fs[0] - fs[1]) // fs[2]))
        return Arr((int(n),), [T.const(fs[0] + i * fs[2]) for i in range(int(n))], d or ('f8' if fl else 'i8'))
    if fs[2] == 1 and not fl:
        n = T.sub(xs[1].term, xs[0].term)
        name = A.axis_name(n)
        return Arr((A.Ax(n, name),), [T.add(xs[0].term, T.idxvar(name))], d or 'i8')
    raise AnalysisGap('abstract arange')


@model('numpy.linspace')
def np_linspace(it, start, stop, num=50, endpoint=True, **k):
    s, e = A.lift(start).term, A.lift(stop).term
    div = num - 1 if endpoint else num
    cells = [T.add(s, T.scale(T.sub(e, s), {0: Fraction(i, div)})) for i in range(num)]
    return Arr((num,), cells, 'f8')


# ---------------------------------------------------------------------------
# shape manipulation

def _is_da(x):
    return isinstance(x, Obj) and hasattr(x, 'ufunc')


@model('numpy.expand_dims')
def np_expand_dims(it, x, axis):
    a = nd(to_arr(it, x))
    if isinstance(axis, (tuple, list)):
        n = a.ndim + len(axis)
        for p in sorted(q + n if q < 0 else q for q in axis):
            a = A.expand_dims(a, p)
        return a
    return A.expand_dims(a, axis)


@model('numpy.squeeze')
def np_squeeze(it, x, axis=None):
    a = to_arr(it, x)
    axes, drop = [], []
    for i, s in enumerate(a.axes):
        if isinstance(s, int) and s == 1 and (axis is None or i in _axset(axis, a.ndim)):
            continue
        if isinstance(s, A.Ax) and axis is None and T.iv(s.size)[0] < 2:
            # a symbolic size may be 1
            if it.branch(T.eq(s.size, T.const(1))):
                drop.append(s.name)
                continue
        axes.append(s)
    if axis is not None:
        for i in _axset(axis, a.ndim):
            if not (isinstance(a.axes[i], int) and a.axes[i] == 1):
                raise PyExc(ValueError, 'cannot select an axis to squeeze out which has size not equal to one')
    cells = a.cells
    if drop:
        cells = [T.subst(c, {n: T.const(0) for n in drop}) for c in cells]
    r = Arr(tuple(axes), list(cells), a.dtype, 'nd')
    r.base = a
    return r


def _axset(axis, n):
    if isinstance(axis, (tuple, list)):
        return {q + n if q < 0 else q for q in axis}
    return {axis + n if axis < 0 else axis}


@model('numpy.reshape')
def np_reshape(it, x, shape=None, order='C', newshape=None, **k):
    a = nd(to_arr(it, x))
    if shape is None:
        shape = newshape
    if order not in ('C', 'A'):
        raise AnalysisGap('Fortran-order reshape')
    return A.reshape(a, shape_list(it, shape))


@model('numpy.ravel')
def np_ravel(it, x, order='C'):
    return arr_ravel(it, nd(to_arr(it, x)), order)


def arr_ravel(it, a, order='C', copy=False):
    if a.ndim == 1:
        r = Arr(a.axes, list(a.cells), a.dtype)
        if not copy:
            r.base = a
        return r
    if a.ndim == 0:
        r = Arr((1,), list(a.cells), a.dtype)
        if not copy:
            r.base = a
        return r
    if order in ('F',):
        a = A.transpose(a)
        return A.reshape(Arr(a.axes, a.cells, a.dtype), [-1])
    r = A.reshape(a, [-1])
    if copy:
        r.base = None
    return r


@model('numpy.transpose')
def np_transpose(it, x, axes=None):
    return A.transpose(nd(to_arr(it, x)), list(axes) if axes is not None else None)


@model('numpy.swapaxes')
def np_swapaxes(it, x, i, j):
    a = nd(to_arr(it, x))
    p = list(range(a.ndim))
    p[i], p[j] = p[j], p[i]
    return A.transpose(a, p)


@model('numpy.moveaxis')
def np_moveaxis(it, x, s, d):
    a = nd(to_arr(it, x))
    n = a.ndim
    s = s + n if s < 0 else s
    d = d + n if d < 0 else d
    p = [q for q in range(n) if q != s]
    p.insert(d, s)
    return A.transpose(a, p)


@model('numpy.broadcast_to')
def np_broadcast_to(it, x, shape, **k):
    a = nd(to_arr(it, x))
    z = A.full(shape_list(it, shape), T.const(0), a.dtype)
    r = Arr(z.axes, A.broadcast_to(a, z.axes), a.dtype)
    r.tag = 'readonly'
    return r


@model('numpy.broadcast_arrays')
def np_broadcast_arrays(it, *xs, **k):
    xs = [nd(to_arr(it, x)) for x in xs]
    axes = A.broadcast_axes([x.axes for x in xs])
    return tuple(Arr(axes, A.align(x, axes), x.dtype) for x in xs)


@model('numpy.broadcast_shapes')
def np_broadcast_shapes(it, *shapes):
    axs = [tuple(A.shape_axis(s) for s in shape_list(it, sh)) for sh in shapes]
    return tuple(A.size_val(a) for a in A.broadcast_axes(axs))


@model('numpy.meshgrid')
def np_meshgrid(it, *xs, indexing='xy', sparse=False, **k):
    xs = [nd(to_arr(it, x)) for x in xs]
    if len(xs) != 2:
        n = len(xs)
        out = []
        if indexing != 'ij':
            raise AnalysisGap('meshgrid of several arrays')
        for i, x in enumerate(xs):
            key = [None] * n
            key[i] = slice(None)
            out.append(A.getitem(x, tuple(key)))
        return list(np_broadcast_arrays(it, *out)) if not sparse else out
    x, y = xs
    if indexing == 'ij':
        a, b = A.getitem(x, (slice(None), None)), A.getitem(y, (None, slice(None)))
    else:
        a, b = A.getitem(x, (None, slice(None))), A.getitem(y, (slice(None), None))
    if sparse:
        return [a, b]
    axes = A.broadcast_axes([a.axes, b.axes])
    return [Arr(axes, A.align(v, axes), v.dtype) for v in (a, b)]


@model('numpy.ix_')
def np_ix(it, *xs):
    raise AnalysisGap('numpy.ix_')


@model('numpy.stack')
def np_stack(it, xs, axis=0, **k):
    if isinstance(xs, SymList):
        a = to_arr(it, xs)
        return np_moveaxis(it, a, 0, axis) if axis else a
    return A.stack([nd(to_arr(it, x)) for x in it.to_list(xs)], axis)


@model('numpy.vstack')
def np_vstack(it, xs, **k):
    xs = [np_atleast2(it, x) for x in it.to_list(xs)]
    return concat(it, xs, 0)


@model('numpy.hstack')
def np_hstack(it, xs, **k):
    xs = [np_atleast1(it, x) for x in it.to_list(xs)]
    return concat(it, xs, 0 if xs[0].ndim == 1 else 1)


@model('numpy.dstack')
def np_dstack(it, xs):
    raise AnalysisGap('numpy.dstack')


@model('numpy.column_stack')
def np_column_stack(it, xs):
    xs = [nd(to_arr(it, x)) for x in it.to_list(xs)]
    if all(x.ndim == 1 for x in xs):
        return A.stack(xs, 1)
    raise AnalysisGap('column_stack')


@model('numpy.concatenate', 'numpy.concat')
def np_concatenate(it, xs, axis=0, **k):
    return concat(it, [nd(to_arr(it, x)) for x in it.to_list(xs)], axis)


@model('numpy.pad')
def np_pad(it, x, pad_width, mode='constant', constant_values=0, **k):
    a = to_arr(it, x)
    n = a.ndim
    w = it.to_list(pad_width) if isinstance(pad_width, (list, tuple)) or isinstance(pad_width, Arr) and pad_width.axes else None
    if mode != 'constant' or k or isinstance(constant_values, (list, tuple)) or isinstance(pad_width, dict):
        raise AnalysisGap('numpy.pad')
    if w is None:
        pairs = [(to_index(it, pad_width),)*2]*n
    elif all(not isinstance(x, (list, tuple)) and not (isinstance(x, Arr) and x.axes) for x in w):
        w = [to_index(it, x) for x in w]
        pairs = [(w[0], w[-1])]*n
    else:
        w = [[to_index(it, y) for y in it.to_list(x)] for x in w]
        pairs = [(x[0], x[-1]) for x in w]
        pairs = pairs*n if len(pairs) == 1 else pairs
    if len(pairs) != n:
        raise PyExc(ValueError, 'operands could not be broadcast together')
    for i, (b, e) in enumerate(pairs):
        if b == 0 and e == 0:
            continue
        parts = [_full(it, list(a.axes[:i]) + [m] + list(a.axes[i + 1:]), constant_values, a.dtype) for m in (b, e)]
        a = concat(it, [p for p, m in ((parts[0], b), (a, 1), (parts[1], e)) if m != 0], i)
    return fin(A.copy(a))


@model('numpy.append')
def np_append(it, a, b, axis=None):
    return concat(it, [np_ravel(it, a), np_ravel(it, b)], 0)


def concat(it, xs, axis):
    if len(xs) == 1:
        return A.copy(xs[0])
    n = xs[0].ndim
    axis = axis + n if axis < 0 else axis
    if not all(isinstance(x.axes[axis], int) for x in xs):
        raise AnalysisGap('concatenation along an abstract axis')
    parts = []
    for x in xs:
        for j in range(x.axes[axis]):
            key = [slice(None)] * n
            key[axis] = j
            r = A.getitem(x, tuple(key))
            parts.append(nd(r))
    return A.stack(parts, axis)


@model('numpy.split', 'numpy.array_split')
def np_split(it, x, n, axis=0):
    a = nd(to_arr(it, x))
    if isinstance(n, int) and isinstance(a.axes[axis], int):
        size = a.axes[axis]
        out, s = [], 0
        for i in range(n):
            k = size // n + (1 if i < size % n else 0)
            key = [slice(None)] * a.ndim
            key[axis] = slice(s, s + k)
            out.append(A.getitem(a, tuple(key)))
            s += k
        return out
    raise AnalysisGap('numpy.split')


@model('numpy.tile')
def np_tile(it, x, reps):
    a = nd(to_arr(it, x))
    reps = tuple(it.iterate(reps)) if isinstance(reps, (tuple, list)) else (reps,)
    axes = list(a.axes)
    while len(axes) < len(reps):
        a = A.getitem(a, (None, Ellipsis))
        axes = list(a.axes)
    while len(reps) < len(axes):
        reps = (1,) + reps
    shape = []
    for ax, r in zip(axes, reps):
        if isinstance(r, Arr) and T.const_fraction(r.term) is not None:
            r = int(T.const_fraction(r.term))
        if isinstance(r, int) and r == 1:
            shape.append(ax)
        elif isinstance(ax, int) and ax == 1:
            shape.append(A.full(shape_list(it, (r,)), T.const(0), 'f8').axes[0])
        else:
            raise AnalysisGap('numpy.tile of a longer axis')
    cells = A.broadcast_to(a, tuple(shape))
    return Arr(tuple(shape), list(cells), a.dtype)


@model('numpy.repeat')
def np_repeat(it, x, n, axis=None):
    a = nd(to_arr(it, x))
    if isinstance(n, Arr) and n.axes and n.axes != (1,):
        raise AnalysisGap('numpy.repeat with several counts')
    if axis is None:
        if all(isinstance(ax, int) and ax == 1 for ax in a.axes):
            ax = A.full(shape_list(it, (n,)), T.const(0), 'f8').axes[0]
            return Arr((ax,), list(A.broadcast_to(Arr((), [a.cells[0]], a.dtype), (ax,))), a.dtype)
        raise AnalysisGap('numpy.repeat of a longer array')
    axis = int(axis) % a.ndim
    if not (isinstance(a.axes[axis], int) and a.axes[axis] == 1):
        raise AnalysisGap('numpy.repeat along a longer axis')
    shape = tuple(A.full(shape_list(it, (n,)), T.const(0), 'f8').axes[0] if i == axis else ax for i, ax in enumerate(a.axes))
    return Arr(shape, list(A.broadcast_to(a, shape)), a.dtype)


@model('numpy.flip')
def np_flip(it, x, axis=None):
    a = nd(to_arr(it, x))
    key = tuple(slice(None, None, -1) if axis is None or i == axis % a.ndim else slice(None) for i in range(a.ndim))
    return A.getitem(a, key)


@model('numpy.copy')
def np_copy(it, x, **k):
    return A.copy(to_arr(it, x))


@model('numpy.copyto')
def np_copyto(it, dst, src, where=True, **k):
    s = to_arr(it, src)
    if where is True:
        A.setitem(dst, Ellipsis, s, it.written)
    else:
        r = np_where(it, where, s, dst)
        A.setitem(dst, Ellipsis, r, it.written)


@model('numpy.putmask')
def np_putmask(it, a, mask, v):
    A.setitem(a, to_arr(it, mask), to_arr(it, v), it.written)


@model('numpy.place')
def np_place(it, a, mask, v):
    A.setitem(a, to_arr(it, mask), to_arr(it, v), it.written)


@model('numpy.take')
def np_take(it, a, idx, axis=None, mode=None):
    a = nd(to_arr(it, a))
    k = norm_index(it, idx)
    if axis in (None, 0):
        return A.getitem(a, k)
    key = [slice(None)] * a.ndim
    key[axis] = k
    return A.getitem(a, tuple(key))


@model('numpy.compress')
def np_compress(it, mask, a, axis=None):
    return A.getitem(nd(to_arr(it, a)), to_arr(it, mask))


class Nonzero(tuple):
    """The result of nonzero(): as an index it is the mask it was made of."""
    mask = None


@model('numpy.nonzero')
def np_nonzero(it, a):
    a = to_arr(it, a)
    if not a.axes:
        raise PyExc(ValueError, 'Calling nonzero on 0d arrays is not allowed.')
    m = Arr(a.axes, [T.astype_bool(c) for c in a.cells], 'b')
    if all(isinstance(x, int) for x in a.axes) and (a.axes != (1,) or T.decide(m.cells[0]) is not None):
        import itertools
        pos = [p for p, c in zip(itertools.product(*(range(n) for n in a.axes)), m.cells) if A.branch(c)]
        return tuple(Arr((len(pos),), [T.const(p[i]) for p in pos], 'i8') for i in range(a.ndim))
    if len(m.cells) != 1:
        raise AnalysisGap('numpy.nonzero of several elements')
    c = m.cells[0]
    if a.ndim == 1 and isinstance(a.axes[0], A.Ax):
        ax = a.axes[0]
        nax = ax if c is T.TRUE else A.mask_axis(ax, c)
        ks = [T.idxvar(ax.name) if c is T.TRUE else T.sel(c, T.idxvar(nax.name), ax.name)]
    else:
        names, nax = A.mask_all(a, c)
        sel = iter(T.sel_all(c, T.idxvar(nax.name), names))
        ks = [T.const(0) if x == 1 else next(sel) for x in a.axes]
    r = Nonzero(Arr((nax,), [k], 'i8') for k in ks)
    r.mask = m
    if a.ndim == 1:
        r[0].tag = m
    return r


@model('numpy.flatnonzero')
def np_flatnonzero(it, a):
    a = to_arr(it, a)
    return np_nonzero(it, A.reshape(a, [-1]) if a.ndim != 1 else a)[0]


@model('numpy.unique')
def np_unique(it, x, **k):
    raise AnalysisGap('numpy.unique')


def _ordered(a, axis, f):
    """Cells of `a` with those along `axis` replaced by f(cell, axis, its index)."""
    if a.ndim == 0:
        raise PyExc(ValueError, 'axis -1 is out of bounds for array of dimension 0')
    axis = axis + a.ndim if axis < 0 else axis
    ax = a.axes[axis]
    if isinstance(ax, int):
        if ax == 1:
            return None
        raise AnalysisGap('order-dependent function of a list of values')
    return [f(c, ax) for c in a.cells]


def _body(c, ax):
    return T.bind((ax.name,), c)[0][0]


@model('numpy.argsort')
def np_argsort(it, x, axis=-1, **k):
    a = nd(to_arr(it, x))
    cs = _ordered(a, axis, lambda c, ax: T.reduction('order', _body(c, ax), ax.size, T.idxvar(ax.name)))
    if cs is None:
        cs = [T.const(0)] * len(a.cells)
    return Arr(a.axes, cs, 'i8')


@model('numpy.sort')
def np_sort(it, x, axis=-1, **k):
    a = nd(to_arr(it, x))
    a = Arr(a.axes, list(a.cells), a.dtype)
    if axis is None:
        raise AnalysisGap('sort of a flattened array')
    cs = _ordered(a, axis, lambda c, ax: T.subst(
        c, {ax.name: T.reduction('order', _body(c, ax), ax.size, T.idxvar(ax.name))}))
    return a if cs is None else Arr(a.axes, cs, a.dtype)


@model('numpy.cumsum')
def np_cumsum(it, x, axis=None, **k):
    return cumulative(it, x, axis, 'cumulative')


@model('numpy.cumprod')
def np_cumprod(it, x, axis=None, **k):
    return cumulative(it, x, axis, 'cumulative product')


def cumulative(it, x, axis, name):
    a = nd(to_arr(it, x))
    if axis is None and a.ndim != 1:
        raise AnalysisGap('cumulative sum of a flattened array')
    ax0 = a.axes[(axis or 0) + (a.ndim if (axis or 0) < 0 else 0)] if a.ndim else None
    if isinstance(ax0, int) and ax0 != 1:
        # a fixed number of values: the running sums are written out
        k = (axis or 0) % a.ndim
        stride = 1
        for n in range(k + 1, a.ndim):
            stride *= a.axes[n] if isinstance(a.axes[n], int) else 1
        mul = name != 'cumulative'
        cells = []
        for i, c in enumerate(a.cells):
            if (i // stride) % ax0:
                c = T.mul(cells[i - stride], c) if mul else T.add(cells[i - stride], c)
            cells.append(c)
        return Arr(a.axes, cells, 'i8' if a.dtype in ('b1', 'b') else a.dtype)
    cs = _ordered(a, axis or 0, lambda c, ax: T.reduction(name, _body(c, ax), ax.size, T.idxvar(ax.name)))
    return Arr(a.axes, list(a.cells), a.dtype) if cs is None else Arr(a.axes, cs, a.dtype)


@model('numpy.gradient')
def np_gradient(it, x, *d, axis=None, **k):
    a = nd(to_arr(it, x))
    if a.ndim != 1 or d:
        raise AnalysisGap('numpy.gradient')
    cs = _ordered(a, 0, lambda c, ax: T.reduction('gradient', _body(c, ax), ax.size, T.idxvar(ax.name)))
    if cs is None:
        raise PyExc(ValueError, 'Shape of array too small to calculate a numerical gradient')
    return Arr(a.axes, cs, 'f8')


@model('numpy.interp')
def np_interp(it, x, xp, fp, **k):
    x, xp, fp = (nd(to_arr(it, v)) for v in (x, xp, fp))
    ax = xp.axes[0] if xp.ndim else None
    if not isinstance(ax, A.Ax) or xp.ndim != 1 or len(fp.cells) != 1 or len(xp.cells) != 1:
        raise AnalysisGap('numpy.interp')
    fcell = T.subst(fp.cells[0], {a.name: T.idxvar(ax.name) for a in fp.axes if isinstance(a, A.Ax)})
    xb, fb = T.bind((ax.name,), xp.cells[0], fcell)[0]
    cs = [T.reduction('interp', xb, ax.size, fb, c) for c in x.cells]
    return Arr(x.axes, cs, 'f8')


@model('numpy.searchsorted', 'numpy.digitize')
def np_searchsorted(it, a, v, **k):
    a, v = nd(to_arr(it, a)), nd(to_arr(it, v))
    ax = a.axes[0] if a.ndim else None
    if not isinstance(ax, A.Ax) or a.ndim != 1 or len(a.cells) != 1:
        raise AnalysisGap('numpy.searchsorted')
    return Arr(v.axes, [T.reduction('searchsorted', _body(a.cells[0], ax), ax.size, c) for c in v.cells], 'i8')


@model('numpy.diff')
def np_gap(it, *a, **k):
    raise AnalysisGap('numpy.diff')


@model('numpy.polyval')
def np_polyval(it, p, x):
    coefs = it.to_list(p) if not isinstance(p, Arr) else it.iterate(p)
    r = 0
    for c in coefs:
        r = it.binop('+', it.binop('*', r, x), c)
    return r


@model('numpy.polynomial.polynomial.polyval')
def np_polyval2(it, x, c, **k):
    r = 0
    for v in reversed(it.to_list(c)):
        r = it.binop('+', it.binop('*', r, x), v)
    return r


@model('numpy.fromiter')
def np_fromiter(it, x, dtype, count=-1, **k):
    from .m_builtins import t_list
    return MODELS['numpy.array'](it, t_list(it, x), dtype=dtype)


@model('numpy.apply_along_axis', 'numpy.fromfunction', 'numpy.frompyfunc', 'numpy.einsum')
def np_gap2(it, *a, **k):
    if a and isinstance(a[0], str) and len(a) == 3:
        return einsum2(it, a[0], a[1], a[2])
    raise AnalysisGap('numpy higher-order function')


def einsum2(it, spec, x, y):
    x, y = nd(to_arr(it, x)), nd(to_arr(it, y))
    ins, _, out = spec.replace(' ', '').partition('->')
    ix, iy = ins.split(',')
    letters = list(out) + [c for c in dict.fromkeys(ix + iy) if c not in out]

    def place(a, idx):
        order = [idx.index(c) for c in letters if c in idx]
        a = A.transpose(a, order)
        key = tuple(slice(None) if c in idx else None for c in letters)
        return A.getitem(a, key)
    r = A.binop('*', place(x, ix), place(y, iy))
    for _ in range(len(letters) - len(out)):
        r = A.reduce_axis('sum', r, r.ndim - 1)
    return r


@model('numpy.vectorize')
def np_vectorize(it, f, *a, **k):
    def call(it, *xs):
        arrs = [to_arr(it, x) for x in xs]
        return A.elementwise(lambda *ts: A.lift(it.call(f, [Arr((), [t], x.dtype, 'sc') for t, x in zip(ts, arrs)])).term,
                             arrs, 'f8')
    return Builtin(call, 'vectorize')


def matmul(it, x, y):
    a, b = nd(to_arr(it, x)), nd(to_arr(it, y))
    if a.ndim == 0 or b.ndim == 0:
        raise PyExc(ValueError, 'matmul: input operand does not have enough dimensions')
    if b.ndim == 1:
        return A.reduce_axis('sum', A.binop('*', a, b), -1)
    if a.ndim == 1:
        r = A.binop('*', A.getitem(a, (slice(None), None)), b)
        return A.reduce_axis('sum', r, 0)
    if a.ndim == 2 and b.ndim == 2:
        p = A.getitem(a, (slice(None), slice(None), None))
        q = A.getitem(b, (None, slice(None), slice(None)))
        return A.reduce_axis('sum', A.binop('*', p, q), 1)
    raise AnalysisGap('matmul of several dimensions')


@model('numpy.dot', 'numpy.matmul', 'numpy.inner')
def np_dot(it, x, y):
    return matmul(it, x, y)


@model('numpy.diagonal')
def np_diagonal(it, x, offset=0, axis1=0, axis2=1):
    a = to_arr(it, x)
    if offset != 0 or a.ndim < 2:
        raise AnalysisGap('a diagonal beside the main one')
    p, q = sorted((axis1 % a.ndim, axis2 % a.ndim))
    m, n = a.axes[p], a.axes[q]
    if not A.same_size(m, n):
        raise AnalysisGap('the diagonal of axes of different sizes')
    # the axes as numpy gives them: the diagonal comes last
    a = A.transpose(a, [k for k in range(a.ndim) if k not in (p, q)] + [p, q])
    ax = a.axes[-1]
    if isinstance(ax, int):
        i = Arr((ax,), [T.const(k) for k in range(ax)], 'i8')
    else:
        i = Arr((ax,), [T.idxvar(ax.name)], 'i8')
    return A.getitem(a, (slice(None),) * (a.ndim - 2) + (i, i))


@model('numpy.diag')
def np_diag(it, x, k=0):
    a = to_arr(it, x)
    if a.ndim != 2:
        raise AnalysisGap('a diagonal matrix')
    return np_diagonal(it, a, k)


@model('numpy.outer')
def np_outer(it, x, y):
    a, b = np_ravel(it, x), np_ravel(it, y)
    return A.binop('*', A.getitem(a, (slice(None), None)), A.getitem(b, (None, slice(None))))


for _n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'maximum', 'minimum', 'power', 'hypot', 'arctan2', 'less', 'less_equal',
           'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or', 'mod', 'remainder', 'floor_divide'):
    def _outer(it, x, y, _n=_n):
        a, b = to_arr(it, x), to_arr(it, y)
        if not a.ndim or not b.ndim:
            return MODELS[f'numpy.{_n}'](it, a, b)
        return MODELS[f'numpy.{_n}'](it, A.getitem(a, (Ellipsis,) + (None,) * b.ndim), A.getitem(b, (None,) * a.ndim + (Ellipsis,)))
    MODELS[f'numpy.{_n}.outer'] = _outer


# ---------------------------------------------------------------------------
# reductions

def reduce_(it, op, x, axis=None, keepdims=False, dtype=None, where=None, initial=None, out=None):
    if isinstance(x, Obj) and hasattr(x, 'reduce'):
        return x.reduce(it, op, axis)
    a = to_arr(it, x)
    nanop = op.startswith('nan')
    base = op[3:] if nanop else op
    if where is not None and where is not True:
        w = to_arr(it, where)
        axes = A.broadcast_axes([a.axes, w.axes])
        neutral = {'all': T.TRUE, 'any': T.FALSE, 'sum': T.const(0), 'prod': T.const(1)}.get(base)
        if neutral is None:
            raise AnalysisGap('reduction with where=')
        f = (lambda v, c: T.ite(c, T.astype_bool(v), neutral)) if base in ('all', 'any') else \
            (lambda v, c: T.ite(c, v, neutral))
        a = A.elementwise(f, [a, w], 'b' if base in ('all', 'any') else a.dtype)
    if nanop:
        neutral = {'sum': T.const(0), 'prod': T.const(1)}.get(base)
        if neutral is not None:
            a = A.elementwise(lambda v: T.ite(v.valid, v, neutral), [a], a.dtype)
        elif base not in ('min', 'max') or any(isinstance(x, Ax) for x in a.axes):
            a = A.elementwise(lambda v: T.revalid(T._unmask(v), T.TRUE), [a], a.dtype)
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = [q + a.ndim if q < 0 else q for q in axis]
    else:
        axes = [axis + a.ndim if axis < 0 else axis]
    if not a.axes:
        c = a.cells[0]
        if base in ('all', 'any'):
            return Arr((), [it._nz(c)], 'b', 'sc')
        if base in ('std', 'var'):
            return Arr((), [T.const(0)], a.dtype, 'sc')
        return fin(Arr((), [c], a.dtype, 'sc'))
    if base in ('min', 'max') and any(isinstance(x, int) and x == 0 for x in (a.axes[p] for p in axes)):
        raise PyExc(ValueError, 'zero-size array to reduction operation which has no identity')
    for p in sorted(axes, reverse=True):
        a = A.reduce_axis(base, a, p, keepdims=keepdims, skipnan=nanop)
    if a.kind == 'nd' and not a.axes:
        a = Arr((), a.cells, a.dtype, 'sc')
    if dtype is not None:
        a = A.astype(a, get_dtype(it, dtype))
    return store_out(it, out, a)


for _n in ('sum', 'prod', 'max', 'min', 'mean', 'all', 'any', 'nansum', 'nanmax', 'nanmin', 'nanmean', 'median', 'std',
           'var', 'nanmedian', 'ptp'):
    MODELS['numpy.' + _n] = lambda it, x, axis=None, dtype=None, out=None, keepdims=False, where=None, _n=_n, **k: \
        reduce_(it, _n, x, axis, keepdims is True, dtype, where, out=out)
MODELS['numpy.amax'] = MODELS['numpy.max']
MODELS['numpy.amin'] = MODELS['numpy.min']
MODELS['numpy.alltrue'] = MODELS['numpy.all']
MODELS['numpy.add.reduce'] = lambda it, x, axis=0, **k: reduce_(it, 'sum', x, axis)
MODELS['numpy.multiply.reduce'] = lambda it, x, axis=0, **k: reduce_(it, 'prod', x, axis)
MODELS['numpy.logical_and.reduce'] = lambda it, x, axis=0, **k: reduce_(it, 'all', x, axis)
MODELS['numpy.logical_or.reduce'] = lambda it, x, axis=0, **k: reduce_(it, 'any', x, axis)
MODELS['numpy.maximum.reduce'] = lambda it, x, axis=0, **k: reduce_(it, 'max', x, axis)
MODELS['numpy.minimum.reduce'] = lambda it, x, axis=0, **k: reduce_(it, 'min', x, axis)


def _argext(op):
    def f(it, x, axis=None, out=None, keepdims=False):
        a = to_arr(it, x)
        if axis is None:
            a = np_ravel(it, a)
        elif a.ndim != 1:
            raise AnalysisGap('argmin/argmax along one of several axes')
        n = a.axes[0]
        if not isinstance(n, Ax):
            if n == 0:
                raise PyExc(ValueError, f'attempt to get arg{op} of an empty sequence')
            best, pos = a.cells[0], T.const(0)
            for k, c in enumerate(a.cells[1:], 1):
                if best.valid is not T.TRUE or c.valid is not T.TRUE:
                    raise AnalysisGap('argmin/argmax of missing values')
                p, q = (best, c) if not A.is_bool(a.dtype) else (it_num(best), it_num(c))
                w = T.lt(q, p) if op == 'min' else T.lt(p, q)
                best, pos = T.ite(w, c, best), T.ite(w, T.const(k), pos)
            return Arr((), [pos], 'i8', 'sc')
        body = T.bind((n.name,), a.cells[0])[0][0]
        t = T.reduction('arg' + op, body, n.size)
        t._iv = (0, T.iv(n.size)[1] - 1)
        return Arr((), [t], 'i8', 'sc')
    return f


def it_num(c):
    return T.ite(c, T.const(1), T.const(0))


for _o in ('min', 'max'):
    MODELS[f'numpy.arg{_o}'] = MODELS[f'numpy.nanarg{_o}'] = _argext(_o)


@model('numpy.count_nonzero')
def np_count_nonzero(it, x, axis=None):
    a = to_arr(it, x)
    b = A.elementwise(T.astype_bool, [a], 'b')
    return reduce_(it, 'sum', b, axis)


@model('numpy.array_equal')
def np_array_equal(it, x, y, equal_nan=False):
    a, b = to_arr(it, x), to_arr(it, y)
    if a.ndim != b.ndim:
        return False
    if not it.truth(it.compare('==', A.shape_of(a), A.shape_of(b))):
        return False
    ka, kb = I.AKey('bytes', a), I.AKey('bytes', b)
    if ka == kb and not equal_nan and all(c.valid is T.TRUE for c in a.cells):
        return True
    if it.env.get('distinct') and ka.lossless() and kb.lossless():
        return False
    return np_bool(reduce_(it, 'all', A.compare('==', a, b)))


@model('numpy.allclose')
def np_allclose(it, x, y, *a, **k):
    x, y = to_arr(it, x), to_arr(it, y)
    e = A.compare('==', x, y)
    if all(c is T.TRUE for c in e.cells):
        return True
    return A.pybool(T.boolatom('allclose', *([T.const(0)] + [c for c in e.cells[:1]])))


def np_bool(a):
    return A.pybool(a.cells[0])


@model('numpy.shape')
def np_shape(it, x):
    return A.shape_of(to_arr(it, x))


@model('numpy.ndim')
def np_ndim(it, x):
    if isinstance(x, Obj) and hasattr(x, 'p_ndim'):
        return x.p_ndim(it)
    return to_arr(it, x).ndim


@model('numpy.size')
def np_size(it, x, axis=None):
    a = to_arr(it, x)
    return size_of(a) if axis is None else A.size_val(a.axes[axis])


def size_of(a):
    t = T.const(1)
    for x in a.axes:
        t = T.mul(t, A.size_term(x))
    return A.pyint(t)


@model('numpy.isscalar')
def np_isscalar(it, x):
    return isinstance(x, (int, float, str, SymStr)) or isinstance(x, Arr) and x.kind in ('sc', 'py')


@model('numpy.iterable')
def np_iterable(it, x):
    return isinstance(x, (list, tuple, str, dict, set, SymList)) or isinstance(x, Arr) and bool(x.axes)


@model('numpy.can_cast', 'numpy.shares_memory', 'numpy.may_share_memory')
def np_bool_fn(it, *a, **k):
    raise AnalysisGap('numpy introspection')


@model('numpy.issubdtype')
def np_issubdtype(it, a, b):
    d = get_dtype(it, a)
    p = b.path if isinstance(b, ExtVal) else b
    m = {'numpy.floating': A.is_float(d), 'numpy.integer': A.is_int(d), 'numpy.datetime64': d[0] == 'M',
         'numpy.timedelta64': d[0] == 'm', 'numpy.number': A.is_float(d) or A.is_int(d),
         'numpy.bool_': d == 'b', 'numpy.inexact': A.is_float(d), 'numpy.signedinteger': d[0] == 'i'}
    if p in m:
        return m[p]
    return get_dtype(it, b) == d


@model('numpy.result_type', 'numpy.promote_types')
def np_result_type(it, *xs):
    d = None
    for x in xs:
        e = x.dtype if isinstance(x, Arr) else get_dtype(it, x)
        d = e if d is None else A.promote(d, e)
    return DType(d)


@model('numpy.finfo')
def np_finfo(it, d):
    from .m_builtins import ty_ns
    return ty_ns(it, eps=2.220446049250313e-16, tiny=2.2250738585072014e-308, max=1.7976931348623157e308,
                 min=-1.7976931348623157e308)


@model('numpy.ma.masked_where', 'numpy.ma.masked_invalid')
def np_ma(it, *a, **k):
    raise AnalysisGap('masked arrays')


@model('numpy.unwrap')
def np_unwrap(it, *a, **k):
    raise AnalysisGap('numpy.unwrap')


# ---------------------------------------------------------------------------
# ndarray attributes and methods

class Flags(Obj):
    def __init__(self, a):
        self.a = a

    def p_writeable(self, it):
        return True

    def setattr(self, it, name, v):
        self.a.frozen = not v if name == 'writeable' else None


def arr_attr(it, a, name):
    if a.kind == 'py':
        if name == 'is_integer':
            return Builtin(lambda it: A.pybool(T.eq(T.floor(a.term), a.term)), 'is_integer')
        if name in ('real',):
            return a
        return MISSING
    p = ARR_PROPS.get(name)
    if p is not None:
        return p(it, a)
    m = ARR_METHODS.get(name)
    if m is not None:
        return Builtin(lambda it, *x, **k: m(it, a, *x, **k), 'ndarray.' + name)
    if a.tag == 'index' and name in ('to_numpy', 'values', 'array', '_values'):
        return Builtin(lambda it, *x, **k: a, name) if name == 'to_numpy' else a
    if name in ('tz', 'zone', 'tzinfo', 'iloc', 'loc', 'to_numpy', 'values', 'columns', 'name', 'coords', 'dims',
                'attrs', 'tz_localize', 'to_pydatetime', 'dt', 'index', 'to_datetime64'):
        return MISSING
    if name.startswith('__'):
        if name == '__len__':
            return Builtin(lambda it: A.size_val(a.axes[0]), '__len__')
        return MISSING
    if name in NAMES['numpy.ndarray'] or a.tag == 'index':
        raise AnalysisGap(f'ndarray attribute {name}')
    return MISSING


def _p_T(it, a):
    return A.transpose(a) if a.axes else a


def _flat(it, a):
    return arr_ravel(it, a)


ARR_PROPS = {
    'shape': lambda it, a: A.shape_of(a),
    'ndim': lambda it, a: a.ndim,
    'size': lambda it, a: size_of(a),
    'dtype': lambda it, a: DType(a.dtype),
    'T': _p_T,
    'real': lambda it, a: a,
    'flat': _flat,
    'flags': lambda it, a: Flags(a),
    'itemsize': lambda it, a: DType(a.dtype).p_itemsize(it),
    'nbytes': lambda it, a: it.binop('*', size_of(a), DType(a.dtype).p_itemsize(it)),
    'base': lambda it, a: a.base,
}

ARR_METHODS = {}


def arr_method(*names):
    def deco(f):
        for name in names:
            ARR_METHODS[name] = f
        return f
    return deco


@arr_method('astype')
def am_astype(it, a, dtype, copy=True, **k):
    d = get_dtype(it, dtype)
    if d == 'M8' and a.dtype[0] == 'M' or d == 'm8' and a.dtype[0] == 'm':
        d = a.dtype
    if not copy and d == a.dtype:
        return a
    return A.astype(a, d)


@arr_method('copy')
def am_copy(it, a, order='C'):
    return A.copy(a, kind=a.kind)


@arr_method('diagonal')
def am_diagonal(it, a, offset=0, axis1=0, axis2=1):
    return np_diagonal(it, a, offset, axis1, axis2)


@arr_method('ravel')
def am_ravel(it, a, order='C'):
    return arr_ravel(it, a, order)


@arr_method('flatten')
def am_flatten(it, a, order='C'):
    return arr_ravel(it, a, order, copy=True)


@arr_method('reshape')
def am_reshape(it, a, *shape, order='C', **k):
    if len(shape) == 1:
        shape = shape[0]
    return np_reshape(it, a, shape, order)


@arr_method('resize')
def am_resize(it, a, *shape, refcheck=True):
    if len(shape) == 1:
        shape = shape[0]
    s = shape_list(it, shape)
    n = 1
    for x in s:
        n *= x
    if not all(isinstance(x, int) for x in a.axes) or not all(isinstance(x, int) for x in s):
        raise AnalysisGap('resize of abstract shapes')
    cells = list(a.cells)
    cells = (cells + [T.const(0)] * n)[:n]
    a.axes, a.cells = tuple(s), cells


@arr_method('squeeze')
def am_squeeze(it, a, axis=None):
    return np_squeeze(it, a, axis)


@arr_method('transpose')
def am_transpose(it, a, *axes):
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
        axes = axes[0]
    return A.transpose(a, list(axes) or None)


@arr_method('swapaxes')
def am_swapaxes(it, a, i, j):
    return np_swapaxes(it, a, i, j)


@arr_method('item')
def am_item(it, a, *i):
    if i:
        r = A.getitem(arr_ravel(it, a), i[0]) if len(i) == 1 else A.getitem(a, tuple(i))
        return am_item(it, r)
    if a.axes and not all(isinstance(x, int) and x == 1 for x in a.axes):
        raise PyExc(ValueError, 'can only convert an array of size 1 to a Python scalar')
    d = a.dtype
    if A.is_time(d):
        from . import m_time
        return m_time.item_of(it, a)
    if A.is_float(d):
        return Arr((), [a.cells[0]], 'pyf', 'py')
    if A.is_bool(d):
        return A.pybool(a.cells[0])
    return A.pyint(a.cells[0])


@arr_method('tobytes', 'tostring')
def arr_tobytes(it, a, order='C'):
    return I.AKey('bytes', Arr(a.axes, list(a.cells), a.dtype))


@arr_method('tolist')
def am_tolist(it, a):
    if not a.axes:
        return am_item(it, a)
    ax = a.axes[0]
    if isinstance(ax, int):
        return [am_tolist(it, A.getitem(a, j)) for j in range(ax)]
    it.loopn += 1
    n = f'loop{it.loopn}'
    return SymList(ax.size, n, am_tolist(it, A.getitem(a, Arr((), [T.idxvar(n)], 'i8', 'sc'))))


@arr_method('fill')
def am_fill(it, a, v):
    A.setitem(a, Ellipsis, to_arr(it, v), it.written)


@arr_method('view')
def am_view(it, a, dtype=None):
    if dtype is None:
        r = Arr(a.axes, list(a.cells), a.dtype)
        r.base = a
        return r
    d = get_dtype(it, dtype)
    if (A.is_time(a.dtype) and d == 'i8') or (a.dtype == 'i8' and A.is_time(d)):
        r = Arr(a.axes, list(a.cells), d if d not in ('M8', 'm8') else a.dtype)
        return r
    if d == a.dtype:
        return a
    raise AnalysisGap('reinterpreting view')


@arr_method('clip')
def am_clip(it, a, min=None, max=None, out=None, **k):
    return np_clip(it, a, min, max, out)


@arr_method('round')
def am_round(it, a, decimals=0, out=None):
    return np_round(it, a, decimals, out)


@arr_method('dot')
def am_dot(it, a, b):
    return matmul(it, a, b)


@arr_method('take')
def am_take(it, a, idx, axis=None, **k):
    return np_take(it, a, idx, axis)


@arr_method('compress')
def am_compress(it, a, mask, axis=None):
    return A.getitem(a, to_arr(it, mask))


@arr_method('nonzero')
def am_nonzero(it, a):
    return np_nonzero(it, a)


@arr_method('conj')
def am_conj(it, a):
    return a


@arr_method('setflags')
def am_setflags(it, a, **k):
    return None


@arr_method('repeat')
def am_repeat(it, a, *x, **k):
    raise AnalysisGap('ndarray.repeat')


for _n in ('sum', 'prod', 'max', 'min', 'mean', 'all', 'any', 'std', 'var', 'ptp'):
    ARR_METHODS[_n] = lambda it, a, axis=None, dtype=None, out=None, keepdims=False, where=None, _n=_n, **k: \
        reduce_(it, _n, a, axis, keepdims, dtype, where, out=out)


ARR_METHODS['argmin'] = MODELS['numpy.argmin']
ARR_METHODS['argmax'] = MODELS['numpy.argmax']


# ---------------------------------------------------------------------------
# numexpr

NE_FUNCS1 = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sqrt', 'exp', 'log', 'log10', 'log1p', 'expm1',
             'sinh', 'cosh', 'tanh'}
NE_KEEP1 = {'floor', 'ceil', 'trunc', 'round', 'sign', 'abs', 'absolute', 'rint'}
NE_BOOL1 = {'isnan', 'isfinite', 'isinf'}


class NE:
    """Evaluation of a numexpr expression string."""

    def __init__(self, it, names):
        self.it = it
        self.names = names

    def ev(self, e):
        m = getattr(self, 'n_' + type(e).__name__, None)
        if m is None:
            raise PyExc(TypeError, f'numexpr: unsupported expression {type(e).__name__}')
        return m(e)

    def n_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return Arr((), [T.TRUE if v else T.FALSE], 'b', 'sc')
        if isinstance(v, int):
            return Arr((), [T.const(v)], 'i4' if -2**31 <= v < 2**31 else 'i8', 'sc')
        if isinstance(v, float):
            return Arr((), [T.number(v)], 'f8', 'sc')
        raise PyExc(TypeError, 'numexpr: unsupported constant')

    def n_Name(self, e):
        v = self.names.get(e.id, MISSING)
        if v is MISSING:
            raise PyExc(KeyError, repr(e.id))
        if isinstance(v, Obj) and hasattr(v, 'to_array'):
            v = v.to_array(self.it)
        if isinstance(v, (list, tuple)):
            v = to_arr(self.it, v)
        if isinstance(v, bool):
            return Arr((), [T.TRUE if v else T.FALSE], 'b', 'sc')
        if isinstance(v, int):
            # numpy.asarray(int) is int64
            return Arr((), [T.const(v)], 'i8', 'sc')
        if isinstance(v, float):
            return Arr((), [T.number(v)], 'f8', 'sc')
        if not isinstance(v, Arr):
            raise PyExc(ValueError, f'numexpr: unknown type for {e.id}')
        d = {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}.get(v.dtype, v.dtype)
        d = {'i1': 'i4', 'i2': 'i4', 'u1': 'i4', 'u2': 'i4', 'u4': 'i8'}.get(d, d)
        if d not in ('b', 'i4', 'i8', 'f4', 'f8'):
            raise PyExc(ValueError, f'unknown type {d} in numexpr')
        return Arr(v.axes, v.cells, d, 'nd' if v.axes else 'sc')

    def n_Expr(self, e):
        return self.ev(e.value)

    def n_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        op = I.OPS[type(e.op)]
        if op in ('&', '|', '^'):
            if a.dtype != b.dtype and 'b' in (a.dtype, b.dtype):
                raise PyExc(NotImplementedError, f"couldn't find matching opcode for {op}")
            if A.is_float(a.dtype) or A.is_float(b.dtype):
                raise PyExc(NotImplementedError, f"couldn't find matching opcode for {op}")
            return A.binop(op, a, b)
        if a.dtype == 'b' and b.dtype == 'b' and op in '+-*':
            if op == '-':
                raise PyExc(TypeError, 'numexpr: boolean subtract')
        d = ne_promote(a.dtype, b.dtype)
        if op == '/' and A.is_int(d):
            return A.elementwise(lambda x, y: T.trunc(T.div(x, y)), [a, b], d)
        if op == '//':
            raise PyExc(TypeError, 'numexpr: unsupported operator //')
        if op == '**' and A.is_int(d) and T.const_coef(b.cells[0]) is None:
            raise AnalysisGap('numexpr integer power')
        if op == '%' and A.is_int(d):
            return A.elementwise(_fmod, [a, b], d)
        f = {'+': T.add, '-': T.sub, '*': T.mul, '/': A._div, '%': T.mod, '**': T.power}.get(op)
        if f is None:
            raise PyExc(TypeError, f'numexpr: unsupported operator {op}')
        return A.elementwise(f, [a, b], d)

    def n_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.USub):
            if v.dtype == 'b':
                raise PyExc(NotImplementedError, 'numexpr: negative of a boolean')
            return A.elementwise(T.neg, [v], v.dtype)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if v.dtype != 'b':
                raise PyExc(NotImplementedError, "couldn't find matching opcode for invert")
            return A.elementwise(T.bnot, [v], 'b')
        raise PyExc(TypeError, 'numexpr: not is unsupported')

    def n_Compare(self, e):
        if len(e.ops) != 1:
            raise PyExc(NotImplementedError, 'numexpr: chained comparison')
        a, b = self.ev(e.left), self.ev(e.comparators[0])
        return A.compare(I.CMPS[type(e.ops[0])], a, b)

    def n_BoolOp(self, e):
        raise PyExc(TypeError, "numexpr: you can't use Python's standard boolean operators")

    def n_IfExp(self, e):
        raise PyExc(TypeError, 'numexpr: conditional expression unsupported')

    def n_Call(self, e):
        if not isinstance(e.func, ast.Name) or e.keywords and e.func.id not in ('sum', 'prod', 'min', 'max'):
            raise PyExc(TypeError, 'numexpr: unsupported call')
        n = e.func.id
        args = [self.ev(a) for a in e.args]
        if n in NE_FUNCS1 and len(args) == 1:
            a = args[0]
            d = a.dtype if a.dtype in ('f4', 'f8') else 'f8'
            return A.elementwise(FLOAT1[n], [a], d)
        if n in NE_KEEP1 and len(args) == 1:
            a = args[0]
            f = {'round': lambda t: T.rnd(t, 0), 'sign': _sign, 'floor': T.floor, 'ceil': T.ceil, 'trunc': T.trunc,
                 'abs': T.absolute, 'absolute': T.absolute, 'rint': lambda t: T.rnd(t, 0)}[n]
            d = a.dtype if n in ('abs', 'absolute', 'sign') or a.dtype in ('f4', 'f8') else 'f8'
            return A.elementwise(f, [a], d)
        if n in NE_BOOL1 and len(args) == 1:
            return A.elementwise(BOOL1[n], [args[0]], 'b')
        if n == 'where' and len(args) == 3:
            c, x, y = args
            if c.dtype != 'b':
                raise PyExc(NotImplementedError, 'numexpr: where needs a boolean condition')
            return A.elementwise(T.ite, [c, x, y], ne_promote(x.dtype, y.dtype))
        if n in ('arctan2', 'fmod', 'hypot') and len(args) == 2:
            f = {'arctan2': T.arctan2, 'fmod': _fmod, 'hypot': FLOAT2['hypot']}[n]
            d = ne_promote(args[0].dtype, args[1].dtype)
            return A.elementwise(f, args, d if A.is_float(d) else 'f8')
        if n in ('maximum', 'minimum') and len(args) == 2:
            return A.elementwise(T.maximum if n == 'maximum' else T.minimum, args,
                                 ne_promote(args[0].dtype, args[1].dtype))
        if n in ('sum', 'prod', 'min', 'max'):
            axis = None
            for k in e.keywords:
                if k.arg == 'axis':
                    axis = ast.literal_eval(k.value)
            if len(e.args) > 1:
                axis = ast.literal_eval(e.args[1])
                args = args[:1]
            return reduce_(self.it, n, args[0], axis)
        if n == 'ones_like':
            return A.elementwise(lambda t: T.const(1), [args[0]], args[0].dtype)
        raise PyExc(TypeError, f'numexpr: unknown function {n}')


_NEO = ['b', 'i4', 'i8', 'f4', 'f8']


def ne_promote(a, b):
    if a == b:
        return a if a != 'b' else 'b'
    d = _NEO[max(_NEO.index(a), _NEO.index(b))]
    if d == 'f4' and ('i4' in (a, b) or 'i8' in (a, b)):
        # numexpr: int64 with float32 promotes to double
        return 'f8' if 'i8' in (a, b) else 'f4'
    return d


def caller_names(it, fr):
    names = {}
    names.update(fr.module.ns)
    f = fr.func
    if f is not None:
        refs = f._refs
        if refs is None:
            refs = f._refs = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
        p = fr.parent
        chain = []
        while p is not None:
            chain.append(p)
            p = p.parent
        for p in reversed(chain):
            for k, v in p.locals.items():
                if k in refs:
                    names[k] = v
    names.update(fr.locals)
    return names


@model('numexpr.evaluate')
def ne_evaluate(it, ex, local_dict=None, global_dict=None, out=None, order='K', casting='safe', sanitize=None,
                _frame_depth=3, **kwargs):
    if isinstance(ex, SymStr):
        raise AnalysisGap('abstract numexpr expression')
    if not isinstance(ex, str):
        raise PyExc(ValueError, 'must specify expression as a string')
    names = {}
    if local_dict is None and global_dict is None:
        names = caller_names(it, it.fr)
    else:
        fr = it.fr
        names.update(global_dict if global_dict is not None else fr.module.ns)
        names.update(local_dict if local_dict is not None else fr.locals)
    names.update(kwargs)
    try:
        tree = ast.parse(ex.strip() if '\n' not in ex.strip() else '(' + ex.strip() + ')', mode='eval')
    except SyntaxError:
        raise PyExc(SyntaxError, f'numexpr: bad expression {ex!r}')
    loc = T.Loc.cur
    # numexpr does not broadcast arrays of size zero: the result has the shape of the first of them (in
    # alphabetical order)
    empty = None
    for n in sorted({x.id for x in ast.walk(tree) if isinstance(x, ast.Name)}):
        v = names.get(n)
        if isinstance(v, Obj) and hasattr(v, 'to_array'):
            v = v.to_array(it)
        if isinstance(v, Arr) and any(not isinstance(a, Ax) and a == 0 for a in v.axes):
            empty = v
            break
    try:
        r = NE(it, names).ev(tree.body)
        if empty is not None:
            r = Arr(empty.axes, [], r.dtype)
    except PyExc as e:
        if empty is None or e.etype is not ValueError or 'broadcast' not in e.msg:
            raise
        r = Arr(empty.axes, [], 'f8')
    T.Loc.cur = loc
    it.env['numexpr_calls'] = it.env.get('numexpr_calls', 0) + 1
    it.stats.ext_calls.add('numexpr-expression:' + ' '.join(ex.split()))
    if r.kind != 'nd':
        r = Arr(r.axes, r.cells, r.dtype, 'nd')
    # result array is fresh
    r = Arr(r.axes, list(r.cells), r.dtype, 'nd')
    if out is not None:
        A.setitem(out, Ellipsis, r, it.written)
        return out
    it.last_ne = ex
    return r


@model('numexpr.re_evaluate')
def ne_re(it, **k):
    return ne_evaluate(it, it.last_ne)


@model('numexpr.NumExpr', 'numexpr.validate')
def ne_gap(it, *a, **k):
    raise AnalysisGap('numexpr compiled expression')
