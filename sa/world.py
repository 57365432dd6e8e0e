"""Abstract inputs, calls of the public entry points and comparison of their abstract results."""

import os
from fractions import Fraction

from . import terms as T
from . import arrays as A
from . import interp as I
from . import m_builtins, m_numpy, m_time as MT, m_xarray as X, m_misc, m_more, m_state    # noqa: F401  (register models)
from .arrays import Arr, Ax, PyExc
from .terms import AnalysisGap
from .values import Instance, SymStr

ROOT = os.environ.get('SA_ROOT', '/repo/src')

USECASES = ('sites', 'regular_grid', 'transect')
ENGINES = {'psa': ('numpy', 'numexpr'), 'soltrack': ('numpy', 'numexpr'),
           'iqbal': ('numpy', 'numexpr'), 'nrel': ('numexpr',)}
COMBOS = [(a, e) for a in ENGINES for e in ENGINES[a]]
QUANT = ('zenith', 'azimuth', 'ecf', 'eot', 'declination')
TIME_ONLY = ('ecf', 'eot', 'declination')

# 1700-01-01 .. 2250-01-01 (within what datetime64[ns] holds)
U_LO, U_HI = -8520336000, 8835955200


class Violation(Exception):
    """Raised by a rule; carries the report."""
    def __init__(self, rule, detail, loc=None, config=''):
        self.rule, self.detail, self.loc, self.config = rule, detail, loc, config
        super().__init__(detail)

    def key(self):
        return (self.rule, self.detail, self.where())

    def where(self):
        return I.fmt_loc(self.loc) if self.loc else '-'


# Relations between the sizes of the three inputs.  In 'distinct' every size is
# at least 2 and all differ; the others make sizes coincide or equal to one.
PARTS = {
    'sites': ['distinct', 'T=J', 'T=1', 'J=1', 'all=1'],
    'regular_grid': ['distinct', 'J=I', 'T=J', 'T=I', 'T=J=I', 'T=1', 'J=1', 'I=1', 'J=I=1', 'all=1'],
    'transect': ['distinct', 'all=1'],
}


def declare(nat=False, ns=False, lat=(-90, 90), lon=(-180, 180), hi_open=True):
    T.reset_memo()
    T.ATOMS.clear()
    T.declare('u', lo=U_LO, hi=U_HI, integer=True, maybe_nan=nat)
    T.declare('un', lo=U_LO * 10**9, hi=U_HI * 10**9, integer=True, maybe_nan=nat)
    T.declare('lat', lo=lat[0], hi=lat[1])
    T.declare('lon', lo=lon[0], hi=lon[1], hi_open=hi_open)
    for n in ('t', 'j', 'i'):
        T.declare('dim:' + n, lo=2, integer=True)


def axes_for(it, uc, part):
    """(time axis, latitude axis, longitude axis)"""
    one = {'T': 'T=1' in part, 'J': 'J=1' in part or 'J=I=1' in part, 'I': 'I=1' in part}
    if part == 'all=1':
        one = dict.fromkeys('TJI', True)
    names = {'T': 't', 'J': 'j', 'I': 'i'}
    size = {k: A.dim(n) for k, n in names.items()}
    if part == 'T=J':
        size['J'] = size['T']
    elif part == 'T=I':
        size['I'] = size['T']
    elif part == 'J=I':
        size['I'] = size['J']
    elif part == 'T=J=I':
        size['J'] = size['I'] = size['T']
    ax = {k: 1 if one[k] else Ax(size[k], names[k]) for k in 'TJI'}
    distinct = [('T', 'J'), ('T', 'I'), ('J', 'I')]
    for a, b in distinct:
        if size[a].fp != size[b].fp and not one[a] and not one[b]:
            it.add_fact(T.eq(size[a], size[b]), False)
    if uc == 'transect':
        return ax['T'], ax['T'], ax['T']
    if uc == 'sites':
        return ax['T'], ax['J'], ax['J']
    return ax['T'], ax['J'], ax['I']


def idx(ax):
    return (T.idxvar(ax.name),) if isinstance(ax, Ax) else (T.const(0),)


def times_input(it, tax, kind='M8[s]', tz=None):
    """The abstract `times` argument; `u` are the seconds (ns) since the epoch of its instants."""
    axes = (tax,)
    if kind.startswith('M8'):
        unit = A.unit(kind)
        if unit == 'ns':
            a = Arr(axes, [T.atom('un', idx(tax))], 'M8[ns]', owner='times')
        else:
            a = Arr(axes, [T.scale(T.atom('u', idx(tax)), {0: 1 / Fraction(A._UNITS[unit])})], kind, owner='times')
        return a
    if kind == 'index':
        return MT.PdTimes(Arr(axes, [T.atom('u', idx(tax))], 'M8[s]', owner='times'), tz, 'index')
    if kind == 'index_ns':
        return MT.PdTimes(Arr(axes, [T.atom('un', idx(tax))], 'M8[ns]', owner='times'), tz, 'index')
    if kind in ('list', 'datetimes', 'timestamps', 'm8list'):
        out = []
        for k in range(2):
            a = Arr((), [T.atom('u', (T.const(k),))], 'M8[s]')
            if kind == 'm8list':
                a.kind = 'sc'
                out.append(a)
            else:
                out.append(MT.PdTimes(a, tz, 'datetime' if kind != 'timestamps' else 'stamp'))
        return out
    if kind in ('datetime', 'stamp'):
        return MT.PdTimes(Arr((), [T.atom('u', (T.const(0),))], 'M8[s]'), tz, kind)
    if kind == 'scalar':
        return Arr((), [T.atom('u', (T.const(0),))], 'M8[s]', 'sc')
    raise ValueError(kind)


def coord(name, ax, owner=True):
    return Arr((ax,), [T.atom(name, idx(ax))], 'f8', owner=name if owner else None)


def public(it):
    return it.load('sunwhere')


def run_usecase(it, uc, times, lat, lon, *args, **kw):
    m = public(it)
    f = m.ns.get(uc)
    if f is None:
        raise Violation('entry-point', f'sunwhere.{uc} is not defined')
    return it.call(f, [times, lat, lon] + list(args), kw)


def simple(it, uc, alg, eng, refr, part='distinct', kind='M8[s]', tz=None):
    tax, jax, iax = axes_for(it, uc, part)
    return run_usecase(it, uc, times_input(it, tax, kind, tz), coord('lat', jax), coord('lon', iax),
                       alg, refraction=refr, engine=eng)


def attr(it, obj, name, *args, **kw):
    v = it.getattr(obj, name)
    if args or kw or hasattr(v, 'func') or callable(getattr(v, 'fn', None)):
        v = it.call(v, list(args), kw)
    return v


def method(it, obj, name, *args, **kw):
    return it.call(it.getattr(obj, name), list(args), kw)


# ---------------------------------------------------------------------------
# comparison of values

STAR = '*'


def star(t):
    """t with every index variable replaced by one generic index."""
    d = T.idx_deps(t)
    if not d:
        m = {}
    else:
        m = {n: T.const(0) for n in d}
    return T.subst(t, m) if m else t


def key(t):
    s = star(t)
    return (s.fp, s.valid.fp if s.valid is not None else 1)


def settled(t):
    """t on the current path: the conditions the path has decided are replaced by their truth."""
    if not A.FACTS:
        return t
    known = A.FACTS[-1]
    m = {}
    for x in T.walk(t):
        if x.isbool and x is not T.TRUE and x is not T.FALSE:
            d = known(x)
            if d is not None:
                m[x.fp] = T.TRUE if d else T.FALSE
    return T.replace(t, m) if m else t


MONTHS = (-3360, 3480)          # January 1690 to January 2260


def months_in(t):
    return {x.fp: x for x in T.walk(t) if x.op == 'fn' and x.data == 'months_of_day'}


def same(t, want, keyf=None):
    """Are two values equal? By value number, on the current path, and (when both depend on one calendar
    month, within which the calendar functions are constant) month by month."""
    keyf = keyf or key
    if keyf(t) == keyf(want):
        return True
    a, b = settled(t), settled(want)
    if (a is not t or b is not want) and keyf(a) == keyf(b):
        return True
    a, b = star(a), star(b)
    ms = {**months_in(a), **months_in(b)}
    if len(ms) != 1:
        return False
    (m,) = ms.values()
    lo, hi = T.iv(m, T.Ctx())
    lo, hi = max(lo, MONTHS[0]), min(hi, MONTHS[1])
    for k in range(int(lo), int(hi) + 1):
        r = {m.fp: T.const(k)}
        if keyf(T.replace(a, r)) != keyf(T.replace(b, r)):
            return False
    return True


def cell(a):
    if isinstance(a, X.DataArray):
        a = a.arr
    if not isinstance(a, Arr):
        raise Violation('shape', f'not an array: {a!r}')
    return a.cells[0]


def blame(got, want, n=3):
    """Lowest constructs of `got` whose value does not occur in `want`."""
    g, w = star(got), star(want)
    have = {}
    for x in T.walk(w):
        have[x.fp] = x
        have[T.P - x.fp] = x
    atoms = [x for x in T.walk(g) if x.fp not in have and x.op not in ('idx',)]
    bad = {x.uid for x in atoms}
    low = [x for x in atoms if not any(a.uid in bad for a in x.args)]
    low = [x for x in low if x.prov is not None] or [x for x in atoms if x.prov is not None]
    return low[:n], (g.prov if g.prov else None)


def show_mismatch(got, want):
    low, top = blame(got, want)
    loc = low[0].prov if low else top
    txt = '; '.join(f'{I.fmt_loc(x.prov)}: {T.show(x, 2)}' for x in low) if low else T.show(got, 2)
    if not low:
        low2, _ = blame(want, got)
        if low2:
            txt += ' lacks ' + '; '.join(T.show(x, 2) for x in low2)
    return loc, txt


def mod_key(t, unit):
    """Value of t modulo `unit` (a coefficient dict)."""
    return key(T.strip_multiples(t, unit))


def az_key(t):
    """An angle in degrees, whatever the number of turns."""
    s = star(t)
    r = T.scale(s, {1: Fraction(1, 180)})
    return (T.sin(r).fp, T.cos(r).fp, s.valid.fp)


def pointwise(t, expect, what):
    """Every input occurring in t is the element at its own index; nothing else of the axes is used.

    expect: {atom name: index variable name or None when constant}"""
    probs = []
    for x in T.walk(t):
        if x.op == 'atom':
            if x.data in expect:
                want = expect[x.data]
                i = x.args[0]
                ok = (i.op == 'idx' and i.data == want) if want is not None else (i.op == 'const')
                if not ok:
                    probs.append((x, f'{x.data} is read at index {T.show(i, 2)} instead of {want or 0}'))
            elif x.data.startswith('dim:'):
                probs.append((x, f'depends on the size of an axis ({x.data[4:]})'))
        elif x.op in ('reduce', 'bred'):
            probs.append((x, f'depends on all elements of an axis ({T.show(x, 3)})'))
        elif x.op in ('sel', 'rank'):
            probs.append((x, f'is placed by a selection that is not undone ({T.show(x, 3)})'))
    # report the element deepest in the source
    return probs
