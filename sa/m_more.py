"""Less common parts of the standard library and of numpy: context managers written as generators, exit stacks, loops over products of
sizes, the rest of itertools, operator and math."""

import ast
from . import arrays as A
from . import interp as I
from . import terms as T
from . import m_builtins, m_numpy   # noqa: F401  (their models first)
from .arrays import Arr, PyExc
from .interp import BoundMethod, Builtin, GenVal, model
from .terms import AnalysisGap
from .values import Obj, SymIter


# -- context managers -----------------------------------------------------------

class GenCM(Obj):
    """What a function decorated with contextlib.contextmanager returns. The body of the `with` runs where the generator yields: what
    it raises is raised there, as by contextmanager."""
    tname = '_GeneratorContextManager'

    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs

    def within(self, it, body):
        """body(value) run at the yield; returns its result, or None if the generator stopped its exception."""
        f = self.f
        if isinstance(f, BoundMethod):
            f, args = f.func, [f.obj] + list(self.args)
        else:
            args = list(self.args)
        here = it.frames[-1] if it.frames else None
        state = dict(n=0, out=None, control=None)

        def at_yield(v):
            state['n'] += 1
            if state['n'] > 1:
                raise PyExc(RuntimeError, "generator didn't stop")
            if here is not None:
                it.frames.append(here)
            try:
                state['out'] = body(v)
            except (I.ReturnExc, I.BreakExc, I.ContinueExc) as e:
                state['control'] = e
            finally:
                if here is not None:
                    it.frames.pop()
        it.call_func(f, args, self.kwargs, at_yield)
        if not state['n']:
            raise PyExc(RuntimeError, "generator didn't yield")
        if state['control'] is not None:
            raise state['control']
        return state['out']

    def call(self, it, args, kwargs):
        # as a decorator
        g = args[0]

        def run(it, *a, **k):
            return GenCM(self.f, self.args, self.kwargs).within(it, lambda v: it.call(g, list(a), k))
        return Builtin(run, 'decorated')

    def m___enter__(self, it):
        raise AnalysisGap('a generator-based context manager entered by hand')


@model('contextlib.contextmanager')
def contextmanager(it, f):
    return Builtin(lambda it, *a, **k: GenCM(f, a, k), 'contextmanager')


class ExitStack(Obj):
    tname = 'ExitStack'

    def __init__(self):
        self.todo = []

    def m___enter__(self, it):
        return self

    def m_enter_context(self, it, cm):
        v = it.call(it.getattr(cm, '__enter__'), [])
        self.todo.append(lambda it, et, e: it.call(it.getattr(cm, '__exit__'), [et, e, None]))
        return v

    def m_push(self, it, cm):
        self.todo.append(lambda it, et, e: it.call(it.getattr(cm, '__exit__'), [et, e, None]))
        return cm

    def m_callback(self, it, f, *a, **k):
        self.todo.append(lambda it, et, e: it.call(f, list(a), k) and None)
        return f

    def m___exit__(self, it, et, e, tb):
        stopped = False
        while self.todo:
            r = self.todo.pop()(it, et, e)
            if et is not None and r is not None and it.truth(r):
                et = e = None
                stopped = True
        return stopped

    def m_close(self, it):
        self.m___exit__(it, None, None, None)


class Closing(Obj):
    def __init__(self, v):
        self.v = v

    def m___enter__(self, it):
        return self.v

    def m___exit__(self, it, *a):
        it.call(it.getattr(self.v, 'close'), [])


I.MODELS['contextlib.ExitStack'] = lambda it: ExitStack()
I.MODELS['contextlib.closing'] = lambda it, v: Closing(v)


# -- loops over products ----------------------------------------------------------

class Product(Obj):
    """Tuples over a product of iterators, one at least of a symbolic number of elements."""
    tname = 'product'

    def __init__(self, its, make=lambda it, t: t):
        self.its, self.make = its, make

    def iterate(self, it):
        if len(self.its) == 1 and isinstance(self.its[0], SymIter):
            s = self.its[0]
            return SymIter(s.size, lambda i: self.make(it, (s.elem(i),)))
        raise AnalysisGap('a product of abstract ranges outside a loop')

    def loop(self, it, s):
        """`for target in product(...)` as loops within loops."""
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.Break):
                raise AnalysisGap('break in a loop over a product')
        it.loopn += 1
        tag = f'·{it.loopn}'
        loc = it.fr.locals
        loc[tag + 'make'] = Builtin(lambda it, *t: self.make(it, t), 'element')
        names = []
        for k, x in enumerate(self.its):
            loc[f'{tag}it{k}'] = x
            names.append(f'{tag}v{k}')

        def name(n, ctx=ast.Load):
            return ast.copy_location(ast.Name(n, ctx()), s)
        first = ast.copy_location(ast.Assign(
            targets=[s.target], value=ast.copy_location(ast.Call(name(tag + 'make'), [name(n) for n in names], []), s)), s)
        body = [first] + list(s.body)
        for k in reversed(range(len(self.its))):
            body = [ast.copy_location(ast.For(target=name(names[k], ast.Store), iter=name(f'{tag}it{k}'), body=body, orelse=[]), s)]
        it.exec_block(body)
        for n in [n for n in loc if n.startswith(tag)]:
            del loc[n]
        it.exec_block(s.orelse)


def product(it, its, make=lambda it, t: t):
    if any(isinstance(x, SymIter) for x in its):
        return Product(its, make)
    import itertools
    return GenVal([make(it, t) for t in itertools.product(*its)])


@model('itertools.product')
def it_product(it, *seqs, repeat=1):
    return product(it, [it.iterate(s) for s in seqs] * repeat)


def _range(n):
    if isinstance(n, int):
        return list(range(n))
    t = n if isinstance(n, T.Term) else A.lift(n).term
    return SymIter(t, lambda i: A.pyint(i))


def _sizes(it, arr):
    return [ax if isinstance(ax, int) else ax.size for ax in arr.axes]


@model('numpy.ndindex')
def np_ndindex(it, *shape):
    if len(shape) == 1 and not isinstance(shape[0], (int, Arr)) or len(shape) == 1 and isinstance(shape[0], tuple):
        shape = it.to_list(shape[0])
    return product(it, [_range(int(n) if isinstance(n, int) else n) for n in shape])


@model('numpy.ndenumerate')
def np_ndenumerate(it, v):
    arr = A.lift(v)
    return product(it, [_range(n) for n in _sizes(it, arr)],
                   lambda it, t: (tuple(t), it.getitem(arr, tuple(t))))


# -- itertools ----------------------------------------------------------------------

class Endless(GenVal):
    """An iterator that does not end."""
    endless = True

    def __init__(self, fn):
        self.fn = fn            # position -> value
        self.n = 0

    def empty(self):
        return False

    def pop(self):
        self.n += 1
        return self.fn(self.n - 1)

    def take(self):
        raise AnalysisGap('all elements of an iterator that does not end')


@model('itertools.repeat')
def it_repeat(it, v, times=None):
    if times is None:
        return Endless(lambda k: v)
    if isinstance(times, int):
        return GenVal([v] * times)
    return SymIter(A.lift(times).term, lambda i: v)


@model('itertools.cycle')
def it_cycle(it, s):
    v = it.to_list(s)
    return Endless(lambda k: v[k % len(v)])


@model('itertools.count')
def it_count(it, start=0, step=1):
    return Endless(lambda k: it.binop('+', start, it.binop('*', k, step)))


@model('itertools.zip_longest')
def it_zip_longest(it, *seqs, fillvalue=None):
    import itertools
    return GenVal(list(itertools.zip_longest(*[it.to_list(s) for s in seqs], fillvalue=fillvalue)))


@model('itertools.tee')
def it_tee(it, s, n=2):
    v = it.to_list(s)
    return tuple(GenVal(v) for _ in range(n))


@model('itertools.compress')
def it_compress(it, s, sel):
    return GenVal([v for v, c in zip(it.to_list(s), it.to_list(sel)) if it.truth(c)])


@model('itertools.filterfalse')
def it_filterfalse(it, f, s):
    return GenVal([v for v in it.to_list(s) if not it.truth(v if f is None else it.call(f, [v]))])


@model('itertools.groupby')
def it_groupby(it, s, key=None):
    out = []
    for v in it.to_list(s):
        k = v if key is None else it.call(key, [v])
        if out and it.truth(it.compare('==', out[-1][0], k)):
            out[-1][1].append(v)
        else:
            out.append((k, [v]))
    return GenVal([(k, GenVal(v)) for k, v in out])


# -- operator ---------------------------------------------------------------------------

for _n, _o in (('matmul', '@'), ('lshift', '<<'), ('rshift', '>>'), ('mod', '%'), ('floordiv', '//')):
    I.MODELS.setdefault('operator.' + _n, lambda it, a, b, o=_o: it.binop(o, a, b))
for _n in ('iadd', 'isub', 'imul', 'itruediv', 'imod', 'ifloordiv', 'ipow', 'imatmul', 'iand', 'ior', 'ixor'):
    I.MODELS['operator.' + _n] = lambda it, a, b, n=_n: _gap('operator.' + n)


def _gap(what):
    raise AnalysisGap(what + ' is not modelled')


I.MODELS['operator.pos'] = lambda it, a: a
I.MODELS['operator.abs'] = lambda it, a: it.call(I.BUILTINS['abs'] if 'abs' in I.BUILTINS else abs, [a])
I.MODELS['operator.getitem'] = lambda it, o, k: it.getitem(o, k)
I.MODELS['operator.setitem'] = lambda it, o, k, v: it.setitem(o, k, v)
I.MODELS['operator.contains'] = lambda it, o, k: it.compare('in', k, o)
I.MODELS['operator.is_'] = lambda it, a, b: it.compare('is', a, b)
I.MODELS['operator.is_not'] = lambda it, a, b: it.compare('is not', a, b)
I.MODELS['operator.truth'] = lambda it, a: it.truth(a)
I.MODELS['operator.call'] = lambda it, f, *a, **k: it.call(f, list(a), k)
I.MODELS['operator.concat'] = lambda it, a, b: it.binop('+', a, b)
I.MODELS['operator.methodcaller'] = lambda it, n, *a, **k: Builtin(
    lambda it, o: it.call(it.getattr(o, n), list(a), k), 'methodcaller')


# -- math ---------------------------------------------------------------------------------

def _via_numpy(name, np_name=None):
    def f(it, x):
        if isinstance(x, Arr) and x.axes:
            if not all(isinstance(a, int) and a == 1 for a in x.axes):
                raise PyExc(TypeError, 'only length-1 arrays can be converted to Python scalars')
            x = Arr((), x.cells, x.dtype, x.kind)
        m = I.MODELS.get('numpy.' + (np_name or name))
        if m is None:
            raise AnalysisGap(f'call of math.{name} is not modelled')
        r = m(it, x)
        return Arr((), list(r.cells), 'pyf', 'py') if isinstance(r, Arr) else r
    I.MODELS.setdefault('math.' + name, f)


for _n in ('sinh', 'cosh', 'tanh', 'log2', 'log10', 'log1p', 'expm1', 'exp2', 'cbrt'):
    _via_numpy(_n)


@model('math.fsum', 'math.sumprod')
def math_fsum(it, xs, ys=None):
    r = A.lift(0.0)
    v = it.to_list(xs)
    if ys is not None:
        v = [it.binop('*', a, b) for a, b in zip(v, it.to_list(ys))]
    for x in v:
        r = it.binop('+', r, x)
    return r


@model('math.isinf')
def math_isinf(it, x):
    if isinstance(x, (int, float)):
        return x in (float('inf'), -float('inf'))
    return False


@model('math.remainder')
def math_remainder(it, x, y):
    p, q = A.lift(x).cells[0], A.lift(y).cells[0]
    k = I.MODELS['numpy.rint'](it, Arr((), [T.div(p, q)], 'pyf', 'py')).cells[0]
    return Arr((), [T.sub(p, T.mul(q, k))], 'pyf', 'py')


def _ints(name):
    import math

    def f(it, *a):
        if not all(isinstance(x, int) for x in a):
            raise AnalysisGap(f'math.{name} of abstract integers')
        return getattr(math, name)(*a)
    I.MODELS['math.' + name] = f


for _n in ('gcd', 'lcm', 'factorial', 'comb', 'perm', 'isqrt'):
    _ints(_n)


# -- numpy -----------------------------------------------------------------------------------

def _np(it, name, *a, **k):
    return it.call(I.ExtVal('numpy.' + name), list(a), k)


@model('numpy.isclose')
def np_isclose(it, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if equal_nan is not False:
        raise AnalysisGap('numpy.isclose(equal_nan=True)')
    d = _np(it, 'abs', it.binop('-', a, b))
    return it.compare('<=', d, it.binop('+', atol, it.binop('*', rtol, _np(it, 'abs', b))))


@model('numpy.heaviside')
def np_heaviside(it, x, h):
    z = _np(it, 'where', it.compare('==', x, 0), h, _np(it, 'where', it.compare('<', x, 0), 0., 1.))
    return z


@model('numpy.extract')
def np_extract(it, cond, x):
    return it.getitem(_np(it, 'ravel', x), _np(it, 'ravel', cond))


@model('numpy.astype')
def np_astype(it, x, dtype, copy=True):
    return it.call(it.getattr(x, 'astype'), [dtype], {'copy': copy})


@model('numpy.isin')
def np_isin(it, x, values, invert=False, **k):
    if k:
        raise AnalysisGap('numpy.isin with options')
    r = None
    for v in it.to_list(values):
        c = it.compare('==', x, v)
        r = c if r is None else it.binop('|', r, c)
    if r is None:
        return _np(it, 'zeros', it.getattr(x, 'shape'), bool)
    return it.unary_not(r) if invert else r


@model('numpy.average')
def np_average(it, x, axis=None, weights=None):
    if weights is not None:
        w = it.binop('*', x, weights)
        return it.binop('/', _np(it, 'sum', w, axis=axis), _np(it, 'sum', weights))
    return _np(it, 'mean', x, axis=axis)


@model('numpy.eye', 'numpy.identity')
def np_eye(it, n, *a, **k):
    if a or k or not isinstance(n, int):
        raise AnalysisGap('numpy.eye of an abstract size')
    return _np(it, 'array', [[1. if p == q else 0. for q in range(n)] for p in range(n)])


@model('numpy.vander')
def np_vander(it, x, N=None, increasing=False):
    if not isinstance(N, int):
        raise AnalysisGap('numpy.vander without the number of columns')
    p = [it.binop('**', x, k) for k in range(N)]
    if not increasing:
        p.reverse()
    return _np(it, 'stack', p, axis=-1)



class Polynomial(Obj):
    tname = 'Polynomial'

    def __init__(self, coef):
        self.coef = coef

    def p_coef(self, it):
        return _np(it, 'array', self.coef)

    def m_degree(self, it):
        return len(self.coef) - 1

    def call(self, it, args, kwargs):
        return it.call(I.ExtVal('numpy.polynomial.polynomial.polyval'), [args[0], list(self.coef)])


I.MODELS['numpy.polynomial.Polynomial'] = I.MODELS['numpy.polynomial.polynomial.Polynomial'] = \
    lambda it, coef: Polynomial(it.to_list(coef))
I.MODELS['numpy.poly1d'] = lambda it, c: Polynomial(list(reversed(it.to_list(c))))
