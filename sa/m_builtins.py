"""Models of Python builtins and of the standard library."""

import re as _re
from fractions import Fraction

from . import terms as T
from . import arrays as A
from .arrays import Arr, PyExc
from .terms import AnalysisGap
from .values import (MISSING, BoundMethod, Builtin, ClassMethod, ClassVal, ExtVal, FuncVal,
                     Instance, ModuleVal, Obj, Opaque, PropertyVal, StaticMethod, SymIter,
                     SymList, SymStr)
from . import interp as I
from . import symstr
from .interp import BUILTINS, BUILTINS_TYPES, CONSTS, EXT_MODULES, EXT_TYPES, GenVal, model


def builtin(name):
    def deco(f):
        BUILTINS[name] = Builtin(f, name)
        return f
    return deco


@builtin('len')
def b_len(it, v):
    if isinstance(v, Arr):
        if not v.axes:
            raise PyExc(TypeError, 'len() of unsized object')
        return A.size_val(v.axes[0])
    if isinstance(v, SymList):
        return A.pyint(v.size)
    if isinstance(v, (str, bytes, list, tuple, dict, set, frozenset, range)):
        return len(v)
    if isinstance(v, Instance):
        if '__tuple__' in v.attrs:
            return len(v.attrs['__tuple__'])
        f = v.cls.lookup('__len__')
        if f is not MISSING:
            return it.call(BoundMethod(f, v), [])
    if isinstance(v, Obj) and hasattr(v, 'length'):
        return v.length(it)
    if isinstance(v, SymStr):
        from . import fixed
        if fixed.is_fixed(v):
            return len(fixed.chars(v))
        raise AnalysisGap('length of an abstract string')
    raise PyExc(TypeError, f'object of type {it.tname(v)!r} has no len()')


def to_index(it, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Arr) and not v.axes:
        if A.is_float(v.dtype):
            raise PyExc(TypeError, "'float' object cannot be interpreted as an integer")
        f = T.const_fraction(v.term)
        return int(f) if f is not None else v
    raise PyExc(TypeError, f'{it.tname(v)!r} object cannot be interpreted as an integer')


def b_range(it, *a):
    a = [to_index(it, x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    start = a[0] if len(a) > 1 else 0
    stop = a[1] if len(a) > 1 else a[0]
    step = a[2] if len(a) > 2 else 1
    if step == -1:
        # range(hi, lo, -1)
        n = T.sub(A.lift(start).term, A.lift(stop).term)
        s = A.lift(start).term
        return SymIter(T.maximum(n, T.const(0)) if T.iv(n)[0] < 0 else n,
                       lambda i: A.pyint(T.sub(s, i)))
    if step != 1:
        raise AnalysisGap('range over an abstract bound with a step')
    s, e = A.lift(start).term, A.lift(stop).term
    n = T.sub(e, s)
    if T.iv(n)[0] < 0:
        n = T.maximum(n, T.const(0))
    return SymIter(n, lambda i: A.pyint(T.add(s, i)))


def zip_iters(it, seqs):
    if any(hasattr(s, 'endless') for s in seqs):
        base = {k: it.iterate(s) for k, s in enumerate(seqs) if not hasattr(s, 'endless')}
        if not base:
            raise AnalysisGap('zip of iterators that do not end')
        if any(isinstance(x, SymIter) for x in base.values()):
            raise AnalysisGap('zip of an abstract sequence with an endless iterator')
        n = min(len(x) for x in base.values())
        out = [tuple(base[k][j] if k in base else s.pop() for k, s in enumerate(seqs)) for j in range(n)]
        for s in seqs[:min(base)]:
            s.pop()     # (before the end of the others is seen)
        return out
    its = [it.iterate(s) for s in seqs]
    if any(isinstance(x, SymIter) for x in its):
        sym = [x for x in its if isinstance(x, SymIter)]
        size = sym[0].size
        for x in sym[1:]:
            if x.size.fp != size.fp:
                if it.known(T.eq(x.size, size)) is not True:
                    raise AnalysisGap('zip of sequences of different abstract lengths')
        if any(isinstance(x, list) for x in its):
            raise AnalysisGap('zip of abstract and concrete sequences')
        return SymIter(size, lambda i: tuple(x.elem(i) for x in its))
    return [tuple(t) for t in zip(*its)]


@builtin('zip')
def b_zip(it, *seqs, strict=False):
    return zip_iters(it, seqs)


@builtin('enumerate')
def b_enumerate(it, s, start=0):
    g = stream(it, s)
    if g is not None:
        n = [start - 1]

        def number(v):
            n[0] += 1
            return n[0], v
        return I.MapGen(g, number)
    x = it.iterate(s)
    if isinstance(x, SymIter):
        return SymIter(x.size, lambda i: (A.pyint(T.add(i, A.lift(start).term)), x.elem(i)))
    return [(j + start, v) for j, v in enumerate(x)]


def stream(it, v):
    """The iterator v is, or None when it is not an iterator."""
    if isinstance(v, Obj) and hasattr(v, 'stream'):
        return v.stream(it)
    return v if isinstance(v, GenVal) else None


@builtin('map')
def b_map(it, f, *seqs):
    if len(seqs) == 1:
        g = stream(it, seqs[0])
        if g is not None:
            return I.MapGen(g, lambda v: it.call(f, [v]))
        x = it.iterate(seqs[0])
        if isinstance(x, SymIter):
            return SymIter(x.size, lambda i: it.call(f, [x.elem(i)]))
        return GenVal([it.call(f, [v]) for v in x])
    z = zip_iters(it, seqs)
    if isinstance(z, SymIter):
        return SymIter(z.size, lambda i: it.call(f, list(z.elem(i))))
    return GenVal([it.call(f, list(v)) for v in z])


@builtin('filter')
def b_filter(it, f, s):
    return GenVal([v for v in it.to_list(s) if it.truth(v if f is None else it.call(f, [v]))])


@builtin('sorted')
def b_sorted(it, s, key=None, reverse=False):
    xs = it.to_list(s)
    ks = [(it.call(key, [x]) if key is not None else x) for x in xs]
    import functools

    def cmp(p, q):
        if it.truth(it.compare('<', p[0], q[0])):
            return -1
        if it.truth(it.compare('<', q[0], p[0])):
            return 1
        return 0
    r = sorted(zip(ks, xs), key=functools.cmp_to_key(cmp), reverse=bool(reverse))
    return [x for _, x in r]


@builtin('reversed')
def b_reversed(it, s):
    return GenVal(list(reversed(it.to_list(s))))


@builtin('iter')
def b_iter(it, s, *end):
    if end:
        out = []
        while True:
            v = it.call(s, [])
            if it.truth(it.compare('==', v, end[0])):
                return GenVal(out)
            out.append(v)
            if len(out) > 1000:
                raise AnalysisGap('iter(function, end) without an end')
    g = stream(it, s)
    return g if g is not None else GenVal(it.to_list(s))


@builtin('next')
def b_next(it, g, *d):
    g = stream(it, g) or g
    if isinstance(g, GenVal):
        if not g.empty():
            return g.pop()
        if d:
            return d[0]
        raise PyExc(StopIteration, '')
    if isinstance(g, Instance):
        f = g.cls.lookup('__next__')
        if f is not MISSING:
            return it.call(BoundMethod(f, g), [])
    if isinstance(g, SymIter):
        return g.elem(T.const(0))
    raise PyExc(TypeError, f'{it.tname(g)!r} object is not an iterator')


@builtin('sum')
def b_sum(it, s, start=0):
    x = it.iterate(s)
    if isinstance(x, SymIter):
        it.loopn += 1
        n = f'loop{it.loopn}'
        v = A.lift(x.elem(T.idxvar(n)))
        if len(v.cells) != 1:
            raise AnalysisGap('sum of arrays over an abstract range')
        t = A.reduce_term('sum', v.cells[0], A.Ax(x.size, n))
        return it.binop('+', start, Arr(v.axes, [t], v.dtype, v.kind))
    r = start
    for v in x:
        r = it.binop('+', r, v)
    return r


def _extreme(op):
    def f(it, *a, key=None, default=MISSING):
        if len(a) == 1:
            x = it.iterate(a[0])
            if isinstance(x, SymIter):
                it.loopn += 1
                n = f'loop{it.loopn}'
                v = A.lift(x.elem(T.idxvar(n)))
                t = A.reduce_term(op, v.cells[0], A.Ax(x.size, n))
                return Arr(v.axes, [t], v.dtype, v.kind)
        else:
            x = list(a)
        if not x:
            if default is not MISSING:
                return default
            raise PyExc(ValueError, f'{op}() arg is an empty sequence')
        best = x[0]
        for v in x[1:]:
            if key is None and (isinstance(v, Arr) or isinstance(best, Arr)) and \
                    A.is_num(v) and A.is_num(best) and not A.lift(v).axes and not A.lift(best).axes:
                p, q = A.lift(best), A.lift(v)
                c = T.lt(q.term, p.term) if op == 'min' else T.lt(p.term, q.term)
                d = it.known(c)
                if d is None:
                    tt = (T.minimum if op == 'min' else T.maximum)(p.term, q.term)
                    best = Arr((), [tt], A.promote(p.dtype, q.dtype), 'py')
                else:
                    best = v if d else best
                continue
            kb, kv = (best, v) if key is None else (it.call(key, [best]), it.call(key, [v]))
            if it.truth(it.compare('<' if op == 'min' else '>', kv, kb)):
                best = v
        return best
    return f


BUILTINS['min'] = Builtin(_extreme('min'), 'min')
BUILTINS['max'] = Builtin(_extreme('max'), 'max')


@builtin('abs')
def b_abs(it, v):
    if isinstance(v, (int, float)) and not isinstance(v, Arr):
        return abs(v)
    if isinstance(v, Arr):
        return I.norm_scalar(A.elementwise(T.absolute, [v], v.dtype))
    if isinstance(v, Obj) and hasattr(v, 'ufunc'):
        return v.ufunc(it, 'absolute')
    raise PyExc(TypeError, 'bad operand type for abs()')


@builtin('round')
def b_round(it, v, n=None):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return round(v, n) if n is not None else round(v)
    v = A.lift(v)
    r = A.elementwise(lambda t: T.rnd(t, n or 0), [v], v.dtype)
    if n is None and v.kind == 'py':
        return A.pyint(r.cells[0])
    return r


@builtin('any')
def b_any(it, s):
    return _quant(it, s, 'any')


@builtin('all')
def b_all(it, s):
    return _quant(it, s, 'all')


def _quant(it, s, op):
    x = it.iterate(s)
    if isinstance(x, SymIter):
        it.loopn += 1
        n = f'loop{it.loopn}'
        v = x.elem(T.idxvar(n))
        if isinstance(v, bool):
            return v
        t = A.reduce_term(op, T.astype_bool(A.lift(v).term), A.Ax(x.size, n))
        return A.pybool(t)
    res = T.TRUE if op == 'all' else T.FALSE
    for v in x:
        if isinstance(v, Arr) and not v.axes:
            c = it._nz(v.cells[0])
        else:
            c = T.TRUE if it.truth(v) else T.FALSE
        res = T.band(res, c) if op == 'all' else T.bor(res, c)
    return A.pybool(res)


@builtin('isinstance')
def b_isinstance(it, v, c):
    return it.isinstance(v, c)


@builtin('issubclass')
def b_issubclass(it, a, b):
    if isinstance(b, tuple):
        return any(b_issubclass(it, a, x) for x in b)
    if isinstance(a, ClassVal):
        return a.is_subclass(b)
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    return a is b


@builtin('hasattr')
def b_hasattr(it, o, n):
    try:
        return it.getattr(o, n, None) is not None or it._getattr(o, n) is not MISSING
    except PyExc as e:
        if e.etype is AttributeError:
            return False
        raise


@builtin('getattr')
def b_getattr(it, o, n, *d):
    if not isinstance(n, str):
        raise PyExc(TypeError, 'attribute name must be string')
    try:
        return it.getattr(o, n)
    except PyExc as e:
        if e.etype is AttributeError and d:
            return d[0]
        raise


@builtin('setattr')
def b_setattr(it, o, n, v):
    it.setattr(o, n, v)


@builtin('delattr')
def b_delattr(it, o, n):
    o.attrs.pop(n, None)


@builtin('callable')
def b_callable(it, f):
    return isinstance(f, (FuncVal, Builtin, ClassVal, BoundMethod, type, ExtVal)) or (
        isinstance(f, Instance) and f.cls.lookup('__call__') is not MISSING)


@builtin('print')
def b_print(it, *a, **k):
    it.output.append(a)


@builtin('repr')
def b_repr(it, v):
    return it.repr(v)


@builtin('id')
def b_id(it, v):
    return I.AKey('id', None, v) if isinstance(v, Arr) else id(v)


@builtin('hash')
def b_hash(it, v):
    if isinstance(v, (Arr, tuple, I.AKey)):
        k = it.hashable(v)
        if I.is_abstract(k):
            return k
    return hash(v) if isinstance(v, (str, int, tuple)) else id(v)


@builtin('vars')
def b_vars(it, o):
    if isinstance(o, Instance):
        return o.attrs
    if isinstance(o, ModuleVal):
        return o.ns
    raise AnalysisGap('vars()')


@builtin('dir')
def b_dir(it, o=None):
    if isinstance(o, Instance):
        r = set(o.attrs)
        for c in o.cls.mro():
            if isinstance(c, ClassVal):
                r |= set(c.ns)
        return sorted(r)
    if isinstance(o, ModuleVal):
        return sorted(o.ns)
    raise AnalysisGap('dir()')


@builtin('locals')
def b_locals(it):
    return dict(it.fr.locals)


@builtin('globals')
def b_globals(it):
    return it.fr.module.ns


@builtin('divmod')
def b_divmod(it, a, b):
    return (it.binop('//', a, b), it.binop('%', a, b))


@builtin('pow')
def b_pow(it, a, b):
    return it.binop('**', a, b)


@builtin('format')
def b_format(it, v, spec=''):
    return it.format(v, spec)


@builtin('chr')
def b_chr(it, v):
    return chr(v)


@builtin('ord')
def b_ord(it, v):
    return ord(v)


@builtin('input')
def b_input(it, *a):
    return SymStr([('input',)])


@builtin('exit')
def b_exit(it, code=0):
    raise PyExc(SystemExit, str(code))


@builtin('open')
def b_open(it, path, mode='r', *a, **k):
    from . import m_files
    return m_files.open_file(it, path, mode)


@builtin('__import__')
def b_import(it, name, *a, **k):
    return it.load(name)


def b_super(it, *a):
    from .interp import Super
    if a:
        return Super(a[0], a[1])
    fr = it.fr
    f = fr.func
    cname = f.qualname.split('.')[0]
    cls = fr.module.ns.get(cname)
    selfv = fr.locals[f.node.args.args[0].arg]
    return Super(cls, selfv)


# -- types -----------------------------------------------------------------

def t_float(it, v=0.0):
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError as e:
            raise PyExc(ValueError, str(e))
    if isinstance(v, (bool, int)):
        return float(v)
    if isinstance(v, float):
        return v
    if isinstance(v, Arr):
        if v.axes and not all(isinstance(a, int) and a == 1 for a in v.axes):
            raise PyExc(TypeError, 'only length-1 arrays can be converted to Python scalars')
        if A.is_time(v.dtype):
            raise PyExc(TypeError, 'float() argument must be a string or a real number')
        return Arr((), [v.cells[0]], 'pyf', 'py')
    if isinstance(v, SymStr):
        return parse_number(it, v, 'pyf')
    if isinstance(v, Obj) and hasattr(v, 'to_scalar'):
        return t_float(it, v.to_scalar(it))
    raise PyExc(TypeError, f'float() argument must be a string or a real number, not {it.tname(v)!r}')


def parse_number(it, s, dt):
    """Numeric value of an abstract string: an atom named by its parts."""
    hook = it.env.get('parse_number')
    if hook is not None:
        r = hook(it, s, dt)
        if r is not None:
            return r
    parts = [p.strip() if isinstance(p, str) else p for p in s.parts]
    parts = [p for p in parts if p != '']
    sign = 1
    if len(parts) == 2 and parts[0] in ('+', '-'):
        sign = -1 if parts.pop(0) == '-' else 1
    if len(parts) == 1 and isinstance(parts[0], tuple) and parts[0][0] == 'numeral':
        if dt == 'pyi':
            raise AnalysisGap('int() of a decimal number')
        t = parts[0][1].cells[0]
        return Arr((), [T.neg(t) if sign < 0 else t], 'pyf', 'py')
    if sum(isinstance(p, tuple) for p in parts) == 1 and any(isinstance(p, tuple) and p[0] == 'numeral' for p in parts):
        i = next(n for n, p in enumerate(parts) if not isinstance(p, str))
        x = ''.join(p if isinstance(p, str) else '1.5' for p in parts)
        try:
            float(x)
        except ValueError:
            raise PyExc(ValueError, 'could not convert string to float')
    raise AnalysisGap('number parsed from an abstract string')


def t_int(it, v=0, base=10):
    if isinstance(v, str):
        try:
            return int(v, base)
        except ValueError as e:
            raise PyExc(ValueError, str(e))
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, float):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            raise PyExc(type(e), str(e))
    if isinstance(v, Arr):
        if v.axes and not all(isinstance(a, int) and a == 1 for a in v.axes):
            raise PyExc(TypeError, 'only length-1 arrays can be converted to Python scalars')
        if A.is_time(v.dtype) and v.dtype[0] == 'M':
            raise PyExc(TypeError, 'int() argument must be a string or a real number')
        return A.pyint(T.trunc(v.cells[0]) if not v.cells[0].isbool else v.cells[0])
    if isinstance(v, SymStr):
        return parse_number(it, v, 'pyi')
    if isinstance(v, Obj) and hasattr(v, 'to_scalar'):
        return t_int(it, v.to_scalar(it))
    raise PyExc(TypeError, f'int() argument must be a string or a real number, not {it.tname(v)!r}')


def t_bool(it, v=False):
    if isinstance(v, Arr) and not v.axes:
        return A.pybool(it._nz(v.cells[0]))
    return it.truth(v)


def t_str(it, v='', *a):
    return it.str(v)


def t_list(it, v=()):
    r = it.iterate(v)
    if isinstance(r, SymIter):
        it.loopn += 1
        n = f'loop{it.loopn}'
        return SymList(r.size, n, r.elem(T.idxvar(n)))
    return list(r)


def t_tuple(it, v=()):
    r = it.iterate(v)
    if isinstance(r, SymIter):
        return t_list(it, v)
    return tuple(r)


def t_dict(it, *a, **k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        elif isinstance(a[0], Instance) and a[0].cls.lookup('keys') is MISSING:
            raise PyExc(TypeError, f'{a[0].cls.name!r} object is not iterable')
        else:
            for kv in it.to_list(a[0]):
                kk, vv = it.to_list(kv)
                d[it.hashable(kk)] = vv
    d.update(k)
    return d


def t_set(it, v=()):
    return set(it.hashable(x) for x in it.to_list(v))


def t_slice(it, *a):
    return slice(*a)


def t_type(it, v, *rest):
    if rest:
        return ClassVal(v, list(rest[0]), dict(rest[1]), it.fr.module)
    if isinstance(v, Arr):
        if v.kind == 'nd':
            return ExtVal('numpy.ndarray')
        if v.kind == 'sc':
            return ExtVal('numpy.' + NPNAME.get(v.dtype, v.dtype))
        return {'pyf': float, 'pyi': int, 'pyb': bool}[v.dtype]
    if isinstance(v, Instance):
        return v.cls
    if isinstance(v, SymStr):
        return str
    if isinstance(v, PyExc):
        return v.etype
    if isinstance(v, Obj):
        return ExtVal(v.tname)
    if isinstance(v, ClassVal):
        return type
    return type(v)


NPNAME = {'f8': 'float64', 'f4': 'float32', 'f2': 'float16', 'f16': 'longdouble', 'i8': 'int64',
          'i4': 'int32', 'i2': 'int16', 'i1': 'int8', 'b': 'bool_', 'u1': 'uint8', 'u8': 'uint64',
          'O': 'object', 'U': 'str_'}

BUILTINS_TYPES.update({
    float: t_float, int: t_int, bool: t_bool, str: t_str, list: t_list, tuple: t_tuple,
    dict: t_dict, set: t_set, frozenset: lambda it, v=(): frozenset(t_set(it, v)),
    slice: t_slice, range: b_range, type: t_type,
    object: lambda it: Opaque('object'),
    property: lambda it, f=None, g=None, *a: PropertyVal(f, g),
    staticmethod: lambda it, f: StaticMethod(f),
    classmethod: lambda it, f: ClassMethod(f),
    super: b_super,
    bytes: lambda it, *a: bytes(*a),
})

# -- standard library ---------------------------------------------------------

EXT_MODULES.update({
    'math', 'functools', 'itertools', 'operator', 'importlib', 'collections', 'dataclasses', 'typing',
    'warnings', 'datetime', 'pathlib', 'os', 'sys', 're', 'time', 'locale', 'contextlib', 'enum', 'abc',
    'types', 'copy', 'zoneinfo', 'pytz', 'numpy', 'pandas', 'xarray', 'numexpr', 'loguru', 'typer',
    'rich', 'tabulate', 'scipy', 'logging', 'textwrap', 'string', 'numbers', 'json', 'platform', 'shutil',
    'typing_extensions', 'inspect', 'io', 'threading', 'concurrent', 'multiprocessing', 'random',
    'statistics', 'decimal', 'fractions', 'dateutil', 'pylab', 'matplotlib', 'tempfile', 'calendar',
    'timezonefinder', 'bisect', 'weakref', 'gc', 'traceback', 'unittest', 'builtins', 'struct', 'glob',
    'subprocess', 'signal', 'uuid', 'hashlib', 'csv', 'gzip', 'urllib', 'heapq', 'array', 'cmath',
})


def _noop(*paths):
    for p in paths:
        I.MODELS[p] = lambda it, *a, **k: None


_noop('typing.overload')


def _opaque(*paths):
    for p in paths:
        I.MODELS[p] = lambda it, *a, _p=p, **k: Opaque(_p)


_opaque('time.perf_counter', 'time.time', 'time.process_time',
        'typing.TypeVar', 'contextlib.nullcontext')


class NullCtx(Obj):
    tname = 'context'

    def __init__(self, v=None):
        self.v = v

    def m___enter__(self, it):
        return self.v

    def m___exit__(self, it, *a):
        return None


class Suppress(Obj):
    def __init__(self, excs):
        self.excs = excs

    def m___enter__(self, it):
        return None

    def m___exit__(self, it, et, e, tb):
        return e is not None and it.exc_matches(e, tuple(self.excs))


class Lock(Obj):
    """A lock: the accesses made while it is held are of one region (see shared.py)."""
    tname = 'lock'
    count = 0

    def __init__(self):
        self.depth = 0

    def m_acquire(self, it, *a, **k):
        if not it.env.get('lock_region'):
            Lock.count += 1
            it.env['lock_region'] = Lock.count
            it.env['lock_owner'] = self
        self.depth += 1
        return True

    def m_release(self, it):
        self.depth -= 1
        if not self.depth and it.env.get('lock_owner') is self:
            it.env['lock_region'] = it.env['lock_owner'] = None

    def m_locked(self, it):
        return self.depth > 0

    def m___enter__(self, it):
        return self.m_acquire(it)

    def m___exit__(self, it, *a):
        self.m_release(it)


class ThreadLocal(Obj):
    """threading.local(): attributes of one thread."""
    tname = '_thread._local'

    def __init__(self):
        self.attrs = {}

    def getattr(self, it, name):
        return self.attrs if name == '__dict__' else self.attrs.get(name, MISSING)

    def setattr(self, it, name, v):
        self.attrs[name] = v


class ContextVar(Obj):
    tname = 'ContextVar'

    def __init__(self, default=MISSING):
        self.values = [default]

    def m_get(self, it, *d):
        v = self.values[-1]
        if v is MISSING:
            if d:
                return d[0]
            raise PyExc(LookupError, 'ContextVar without a value')
        return v

    def m_set(self, it, v):
        self.values.append(v)
        return len(self.values) - 1

    def m_reset(self, it, token):
        del self.values[token:]


I.MODELS['threading.Lock'] = I.MODELS['threading.RLock'] = lambda it: Lock()
I.MODELS['threading.local'] = lambda it: ThreadLocal()
I.MODELS['contextvars.ContextVar'] = lambda it, name=None, default=MISSING: ContextVar(default)
EXT_MODULES.add('contextvars')

I.MODELS['contextlib.nullcontext'] = lambda it, v=None: NullCtx(v)
I.MODELS['contextlib.suppress'] = lambda it, *a: Suppress(a)

CONSTS['math.pi'] = lambda: Arr((), [T.pi()], 'pyf', 'py')
CONSTS['math.tau'] = lambda: Arr((), [T.const({1: 2})], 'pyf', 'py')
CONSTS['math.e'] = lambda: Arr((), [T.exp(T.const(1))], 'pyf', 'py')
CONSTS['math.nan'] = lambda: float('nan')
CONSTS['math.inf'] = lambda: float('inf')
CONSTS['typing.TYPE_CHECKING'] = False
CONSTS['sys.version_info'] = (3, 12, 3, 'final', 0)
CONSTS['sys.argv'] = lambda: ['sunwhere']
CONSTS['sys.platform'] = 'linux'
CONSTS['os.sep'] = '/'


def _math1(name, fn, integer=False):
    def f(it, x):
        if isinstance(x, Arr) and x.axes:
            if not all(isinstance(a, int) and a == 1 for a in x.axes):
                raise PyExc(TypeError, 'only length-1 arrays can be converted to Python scalars')
        x = t_float(it, x) if not isinstance(x, (int, Arr)) else x
        t = fn(A.lift(x).cells[0])
        return A.pyint(t) if integer else Arr((), [t], 'pyf', 'py')
    I.MODELS['math.' + name] = f


for _n, _f in (('sin', T.sin), ('cos', T.cos), ('tan', T.tan), ('asin', T.arcsin), ('acos', T.arccos),
               ('atan', T.arctan), ('sqrt', T.sqrt), ('exp', T.exp), ('log', T.log), ('fabs', T.absolute)):
    _math1(_n, _f)
_math1('radians', lambda t: T.scale(t, {1: Fraction(1, 180)}))
_math1('degrees', lambda t: T.scale(t, {-1: Fraction(180)}))
for _n, _f in (('floor', T.floor), ('ceil', T.ceil), ('trunc', T.trunc)):
    _math1(_n, _f, True)


@model('math.atan2')
def math_atan2(it, y, x):
    return Arr((), [T.arctan2(A.lift(y).cells[0], A.lift(x).cells[0])], 'pyf', 'py')


@model('math.fmod')
def math_fmod(it, x, y):
    p, q = A.lift(x).cells[0], A.lift(y).cells[0]
    return Arr((), [T.sub(p, T.mul(q, T.trunc(T.div(p, q))))], 'pyf', 'py')


@model('math.pow')
def math_pow(it, x, y):
    return Arr((), [T.power(A.lift(x).cells[0], A.lift(y).cells[0])], 'pyf', 'py')


@model('math.isnan')
def math_isnan(it, x):
    return A.pybool(T.bnot(A.lift(x).cells[0].valid))


@model('math.isfinite')
def math_isfinite(it, x):
    return A.pybool(A.lift(x).cells[0].valid)


@model('math.prod')
def math_prod(it, xs, start=1):
    r = start
    for v in it.to_list(xs):
        r = it.binop('*', r, v)
    return r


@model('math.hypot')
def math_hypot(it, *xs):
    s = T.const(0)
    for x in xs:
        t = A.lift(x).cells[0]
        s = T.add(s, T.mul(t, t))
    return Arr((), [T.sqrt(s)], 'pyf', 'py')


@model('math.copysign')
def math_copysign(it, x, y):
    a, b = A.lift(x).cells[0], A.lift(y).cells[0]
    m = T.absolute(a)
    return Arr((), [T.ite(T.lt(b, T.const(0)), T.neg(m), m)], 'pyf', 'py')


# functools / operator / itertools

@model('functools.wraps', 'functools.update_wrapper')
def ft_wraps(it, f, *a, **k):
    def deco(it, g):
        if isinstance(g, FuncVal):
            g.attrs.setdefault('__wrapped__', f)
            for n in ('__name__', '__doc__', '__module__', '__qualname__'):
                v = it.getattr(f, n, None)
                g.attrs[n] = v
        return g
    return Builtin(deco, 'wraps')


@model('functools.lru_cache', 'functools.cache')
def ft_cache(it, *a, **k):
    def wrap(it, f):
        def hashk(x):
            if isinstance(x, (Instance, FuncVal)):
                return id(x)
            return it.hashable(x)
        memo = {}

        def call(it, *a, **k):
            key = it.key_in(memo, (tuple(hashk(x) for x in a), tuple(sorted((n, hashk(v)) for n, v in k.items()))))
            if key not in memo:
                memo[key] = it.call(f, list(a), k)
            return memo[key]
        b = Builtin(call, getattr(f, 'qualname', 'cached'))
        b.bind = True
        b.attrs = {'cache_clear': Builtin(lambda it: memo.clear(), 'cache_clear'), '__wrapped__': f}
        return b
    if a and isinstance(a[0], (FuncVal, Builtin)):
        return wrap(it, a[0])
    return Builtin(wrap, 'lru_cache')


@model('functools.partial')
def ft_partial(it, f, *a, **k):
    b = Builtin(lambda it, *b, **kk: it.call(f, list(a) + list(b), {**k, **kk}), 'partial')
    b.parts = ('partial', f, a, k)
    b.attrs = {'func': f, 'args': tuple(a), 'keywords': dict(k)}
    return b


@model('functools.reduce')
def ft_reduce(it, f, xs, *init):
    xs = it.to_list(xs)
    if init:
        r = init[0]
    else:
        if not xs:
            raise PyExc(TypeError, 'reduce() of empty iterable with no initial value')
        r, xs = xs[0], xs[1:]
    for x in xs:
        r = it.call(f, [r, x])
    return r


@model('functools.cached_property')
def ft_cprop(it, f):
    return PropertyVal(f, cached=True, name=f.name)


for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%'),
               ('pow', '**'), ('and_', '&'), ('or_', '|'), ('xor', '^')):
    I.MODELS['operator.' + _n] = lambda it, a, b, _o=_o: it.binop(_o, a, b)
for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
    I.MODELS['operator.' + _n] = lambda it, a, b, _o=_o: it.compare(_o, a, b)
I.MODELS['operator.neg'] = lambda it, a: it.unary('-', a)
I.MODELS['operator.not_'] = lambda it, a: it.unary_not(a) if isinstance(a, (bool, Arr)) else not it.truth(a)
I.MODELS['operator.itemgetter'] = lambda it, *k: Builtin(
    lambda it, o: it.getitem(o, k[0]) if len(k) == 1 else tuple(it.getitem(o, x) for x in k), 'itemgetter')
I.MODELS['operator.attrgetter'] = lambda it, *k: Builtin(
    lambda it, o: it.getattr(o, k[0]) if len(k) == 1 else tuple(it.getattr(o, x) for x in k), 'attrgetter')


@model('itertools.chain')
def it_chain(it, *seqs):
    out = []
    for s in seqs:
        out += it.to_list(s)
    return GenVal(out)


@model('itertools.chain.from_iterable')
def it_chainf(it, seqs):
    return it_chain(it, *it.to_list(seqs))


@model('itertools.accumulate')
def it_accumulate(it, s, f=None):
    out = []
    for x in it.to_list(s):
        out.append(x if not out else (it.call(f, [out[-1], x]) if f else it.binop('+', out[-1], x)))
    return GenVal(out)


@model('itertools.islice')
def it_islice(it, s, *a):
    import itertools
    g = stream(it, s)
    if g is not None:
        out, n = [], 0
        stop = a[0] if len(a) == 1 else a[1]
        while not g.empty() and (stop is None or n < stop):
            out.append(g.pop())
            n += 1
        return GenVal(list(itertools.islice(out, *a)))
    return GenVal(list(itertools.islice(it.to_list(s), *a)))


@model('itertools.takewhile')
def it_takewhile(it, f, s):
    g = stream(it, s) or GenVal(it.to_list(s))
    out = []
    while not g.empty():
        v = g.pop()
        if not it.truth(it.call(f, [v])):
            break
        out.append(v)
    return GenVal(out)


@model('itertools.dropwhile')
def it_dropwhile(it, f, s):
    g = stream(it, s) or GenVal(it.to_list(s))
    while not g.empty():
        v = g.pop()
        if not it.truth(it.call(f, [v])):
            return GenVal([v] + g.take())
    return GenVal([])


@model('itertools.combinations')
def it_comb(it, s, r):
    import itertools
    return GenVal(list(itertools.combinations(it.to_list(s), r)))


@model('itertools.batched')
def it_batched(it, x, n):
    v = it.to_list(x)
    return GenVal([tuple(v[i:i + n]) for i in range(0, len(v), n)])


@model('itertools.pairwise')
def it_pair(it, s):
    xs = it.to_list(s)
    return GenVal(list(zip(xs, xs[1:])))


@model('itertools.starmap')
def it_starmap(it, f, s):
    return GenVal([it.call(f, it.to_list(x)) for x in it.to_list(s)])


# collections / dataclasses / typing / copy

@model('collections.OrderedDict')
def c_odict(it, *a, **k):
    return t_dict(it, *a, **k)


@model('collections.defaultdict')
def c_ddict(it, f=None, *a, **k):
    d = I.DefaultDict(t_dict(it, *a, **k))
    d.factory = f
    return d


@model('collections.namedtuple')
def c_namedtuple(it, name, fields, defaults=(), **k):
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    c = ClassVal(name, [tuple], {'_fields': tuple(fields)}, it.fr.module)
    for f, d in zip(list(fields)[len(fields) - len(defaults):], defaults):
        c.ns[f] = d
    return c


@model('types.SimpleNamespace')
def ty_ns(it, **k):
    c = ClassVal('SimpleNamespace', [], {}, it.fr.module)
    o = Instance(c)
    o.attrs.update(k)
    return o


@model('types.MappingProxyType')
def ty_mp(it, d):
    return d


@model('dataclasses.dataclass')
def dc(it, cls=None, **k):
    def wrap(it, c):
        fields = [n for n in c.ns.get('__annotations__', {})]
        allf = []
        for b in reversed(c.mro()):
            if isinstance(b, ClassVal):
                for n in b.ns.get('__annotations__', {}):
                    if n not in allf:
                        allf.append(n)

        def init(it, self, *a, **kw):
            vals = dict(zip(allf, a))
            if len(a) > len(allf):
                raise PyExc(TypeError, 'too many positional arguments')
            for n, v in kw.items():
                if n not in allf or n in vals:
                    raise PyExc(TypeError, f'unexpected keyword argument {n!r}')
                vals[n] = v
            for n in allf:
                if n not in vals:
                    d = c.lookup(n)
                    if d is MISSING:
                        raise PyExc(TypeError, f'missing argument {n!r}')
                    if isinstance(d, FieldVal):
                        if d.factory is not None:
                            d = it.call(d.factory, [])
                        elif d.default is not MISSING:
                            d = d.default
                        else:
                            raise PyExc(TypeError, f'missing argument {n!r}')
                    vals[n] = d
                self.attrs[n] = vals[n]
            p = c.lookup('__post_init__')
            if p is not MISSING:
                it.call(BoundMethod(p, self), [])
        if '__init__' not in c.ns:
            b = Builtin(init, c.name + '.__init__')
            b.bind = True
            c.ns['__init__'] = b
        c.ns['__eq_fields__'] = True
        c.ns['__dataclass_fields__'] = {n: n for n in allf}
        return c
    if cls is not None:
        return wrap(it, cls)
    return Builtin(wrap, 'dataclass')


class FieldVal:
    def __init__(self, default, factory):
        self.default, self.factory = default, factory


@model('dataclasses.field')
def dc_field(it, default=MISSING, default_factory=None, **k):
    return FieldVal(default, default_factory)


@model('dataclasses.asdict')
def dc_asdict(it, o):
    return {n: o.attrs[n] for n in o.cls.ns['__dataclass_fields__']}


@model('dataclasses.replace')
def dc_replace(it, o, **k):
    return it.instantiate(o.cls, [], {**dc_asdict(it, o), **k})


@model('dataclasses.fields')
def dc_fields(it, o):
    c = o.cls if isinstance(o, Instance) else o
    return [ty_ns(it, name=n) for n in c.ns['__dataclass_fields__']]


I.MODELS['typing.cast'] = lambda it, t, v: v
I.MODELS['typing.NewType'] = lambda it, n, t: t
I.MODELS['abc.abstractmethod'] = lambda it, f: f
I.MODELS['inspect.isgenerator'] = lambda it, v: isinstance(v, GenVal)
I.MODELS['re.escape'] = lambda it, s: _re.escape(s)


def _re_fn(name):
    def f(it, pat, *a, **k):
        if isinstance(pat, RePattern):
            return it.call(pat.getattr(it, name), list(a), k)
        if isinstance(pat, str) and a and isinstance(a[-1], SymStr) and name in ('match', 'search', 'fullmatch'):
            return ReGroups.wrap(symstr.regex(it, name, pat, a[-1], k.get('flags', 0)))
        if isinstance(pat, str) and len(a) == 2 and isinstance(a[0], SymStr) and name in ('match', 'search', 'fullmatch'):
            return ReGroups.wrap(symstr.regex(it, name, pat, a[0], a[1]))
        if isinstance(pat, str) and len(a) == 1 and isinstance(a[0], SymStr) and name in ('split', 'findall'):
            return symstr.regex(it, name, pat, a[0], k.get('flags', 0))
        if not isinstance(pat, str) or any(isinstance(x, SymStr) for x in a):
            raise AnalysisGap(f're.{name} on an abstract string')
        return ReMatch.wrap(getattr(_re, name)(pat, *a, **k))
    I.MODELS['re.' + name] = f


class ReMatch(Obj):
    tname = 're.Match'

    def __init__(self, m):
        self.m = m

    @staticmethod
    def wrap(m):
        return ReMatch(m) if m is not None and not isinstance(m, (str, list)) else m

    def m_group(self, it, *a):
        return self.m.group(*a)

    def m_groups(self, it, *a):
        return self.m.groups(*a)

    def m_groupdict(self, it):
        return self.m.groupdict()

    def getitem(self, it, k):
        return self.m.group(k)


class ReGroups(Obj):
    """A match in an abstract string."""
    tname = 're.Match'

    def __init__(self, r):
        self.g, self.d = r

    @staticmethod
    def wrap(r):
        return None if r is None else ReGroups(r)

    def _get(self, k):
        try:
            return self.d[k] if isinstance(k, str) else self.g[k]
        except (KeyError, IndexError):
            raise PyExc(IndexError, 'no such group')

    def m_group(self, it, *a):
        if len(a) > 1:
            return tuple(self._get(k) for k in a)
        return self._get(a[0] if a else 0)

    def m_groups(self, it, default=None):
        return tuple(default if g is None else g for g in self.g[1:])

    def m_groupdict(self, it, default=None):
        return {k: default if g is None else g for k, g in self.d.items()}

    def getitem(self, it, k):
        return self._get(k)


class RePattern(Obj):
    tname = 're.Pattern'

    def __init__(self, p):
        self.p = p

    def getattr(self, it, name):
        if name in ('match', 'search', 'fullmatch', 'sub', 'findall', 'split'):
            def f(it, *a):
                if len(a) == 1 and isinstance(a[0], SymStr) and name in ('match', 'search', 'fullmatch'):
                    return ReGroups.wrap(symstr.regex(it, name, self.p, a[0]))
                if len(a) == 1 and isinstance(a[0], SymStr) and name in ('split', 'findall'):
                    return symstr.regex(it, name, self.p, a[0])
                if any(isinstance(x, SymStr) for x in a):
                    raise AnalysisGap(f're.{name} on an abstract string')
                return ReMatch.wrap(getattr(self.p, name)(*a))
            return Builtin(f, 're.' + name)
        return MISSING


for _n in ('match', 'search', 'fullmatch', 'sub', 'findall', 'split'):
    _re_fn(_n)
I.MODELS['re.compile'] = lambda it, p, *a: RePattern(_re.compile(p, *a))
for _n in ('IGNORECASE', 'VERBOSE', 'MULTILINE', 'DOTALL', 'I', 'X', 'M'):
    CONSTS['re.' + _n] = int(getattr(_re, _n))


def _copy(it, v):
    from . import m_numpy
    if isinstance(v, Arr):
        return A.copy(v, kind=v.kind)
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, set):
        return set(v)
    if isinstance(v, Instance):
        o = Instance(v.cls)
        o.attrs = dict(v.attrs)
        return o
    if isinstance(v, Obj) and hasattr(v, 'copy_'):
        return v.copy_(it)
    return v


def _deepcopy(it, v):
    if isinstance(v, list):
        return [_deepcopy(it, x) for x in v]
    if isinstance(v, tuple):
        return tuple(_deepcopy(it, x) for x in v)
    if isinstance(v, dict):
        return {k: _deepcopy(it, x) for k, x in v.items()}
    if isinstance(v, Instance):
        o = Instance(v.cls)
        o.attrs = {k: _deepcopy(it, x) for k, x in v.attrs.items()}
        return o
    return _copy(it, v)


I.MODELS['copy.copy'] = _copy
I.MODELS['copy.deepcopy'] = _deepcopy


# importlib

@model('importlib.import_module')
def imp_module(it, name, package=None):
    if not isinstance(name, str):
        raise AnalysisGap('import of an abstract name')
    if name.startswith('.'):
        level = len(name) - len(name.lstrip('.'))
        if not package:
            raise PyExc(TypeError, 'the package argument is required for a relative import')
        parts = package.split('.')
        parts = parts[:len(parts) - (level - 1)]
        name = '.'.join(parts + [name.lstrip('.')])
        it.load(package)
    return it.load(name)


@model('importlib.metadata.version')
def imp_version(it, name):
    return SymStr([('version', name)])


@model('importlib.util.find_spec')
def imp_find_spec(it, name, package=None):
    try:
        imp_module(it, name, package)
    except PyExc:
        return None
    return Opaque('spec')


I.EXT_EXC['importlib.metadata.PackageNotFoundError'] = ModuleNotFoundError

# types for isinstance
_num = lambda it, v: isinstance(v, (int, float)) or isinstance(v, Arr) and not v.axes and v.kind != 'nd' \
    and not A.is_time(v.dtype)                                          # noqa: E731
EXT_TYPES.update({
    'numbers.Number': _num,
    'numbers.Real': _num,
    'numbers.Integral': lambda it, v: isinstance(v, int) or isinstance(v, Arr) and not v.axes and
        v.kind != 'nd' and (A.is_int(v.dtype) or v.dtype == 'pyb'),
    'collections.abc.Sequence': lambda it, v: isinstance(v, (list, tuple, str, range, SymList, SymStr)),
    'collections.abc.Mapping': lambda it, v: isinstance(v, dict),
    'collections.abc.Callable': b_callable,
    'collections.abc.Iterable': lambda it, v: isinstance(v, (list, tuple, str, range, dict, set, SymList, SymStr, GenVal))
        or isinstance(v, Arr) or isinstance(v, Obj) and hasattr(v, 'iterate'),
    'collections.abc.Hashable': lambda it, v: not isinstance(v, (list, dict, set)),
    'types.ModuleType': lambda it, v: isinstance(v, ModuleVal),
    'types.FunctionType': lambda it, v: isinstance(v, FuncVal),
    'types.GeneratorType': lambda it, v: isinstance(v, GenVal),
    'typing.Sequence': lambda it, v: isinstance(v, (list, tuple, str, range, SymList)),
    'typing.Mapping': lambda it, v: isinstance(v, dict),
    'collections.OrderedDict': lambda it, v: isinstance(v, dict),
})
