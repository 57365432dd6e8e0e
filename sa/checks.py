"""The rules, property by property."""

from fractions import Fraction

from . import terms as T
from . import arrays as A
from . import interp as I
from . import m_time as MT
from . import m_xarray as X
from . import ranges as R
from . import world as W
from .arrays import Arr, Ax, PyExc
from .framework import Task
from .terms import AnalysisGap
from .world import (COMBOS, ENGINES, PARTS, QUANT, TIME_ONLY, USECASES, Violation, az_key, key)

CHECKS = {}

TRUST = ['the models of numpy, numexpr, pandas and xarray functions in /verif/sa (m_*.py) describe the installed versions',
         'equality of values is equality over the reals: floating-point rounding is not analysed',
         'two different values share a fingerprint with probability below 1e-30 (value numbering by random interpretation)']


def check(prop, explanation, minimum=None, anchors=(), assumptions=()):
    def deco(fn):
        CHECKS[prop] = dict(tasks=fn, explanation=explanation, minimum=minimum or {}, anchors=list(anchors),
                            assumptions=TRUST + list(assumptions))
        return fn
    return deco


# ---------------------------------------------------------------------------

def qkey(name, t):
    return az_key(t) if name == 'azimuth' else key(t)


def got(it, r, name):
    v = it.getattr(r, name)
    if not isinstance(v, X.DataArray):
        raise Violation('type', f'{name} is not a DataArray but {v!r}')
    return v


def one_cell(da, name):
    if len(da.arr.cells) != 1:
        raise Violation('shape', f'{name} has fixed sizes {A.const_dims(da.arr.axes)}, not those of the inputs')
    return da.arr.cells[0]


def same_value(rep, rule, name, t, ref, kind=None):
    ok = W.same(t, ref, lambda x: qkey(name, x))
    if not ok and name == 'eot' and t.valid is ref.valid:
        ok = R.same_minutes(t, ref)
    rep.done(kind or rule)
    if not ok:
        loc, txt = W.show_mismatch(t, ref)
        rep.fail(rule, f'{name} differs: {txt}', loc)
    return ok


def expected_index(arr_axes):
    return [a.name if isinstance(a, Ax) else None for a in arr_axes]


def dim_axis(da, dim):
    """Index variable of a dimension (None when its size is one)."""
    i = da.dims.index(dim)
    a = da.arr.axes[i]
    return a.name if isinstance(a, Ax) else None


PLACE_DIMS = {'sites': ('time', 'location'), 'regular_grid': ('time', 'latitude', 'longitude'), 'transect': ('time',)}
LAT_DIM = {'sites': 'location', 'regular_grid': 'latitude', 'transect': 'time'}
LON_DIM = {'sites': 'location', 'regular_grid': 'longitude', 'transect': 'time'}


def index_rule(rep, uc, name, da):
    """Each element of `da` uses the inputs at its own place."""
    t = one_cell(da, name)
    ax = {}
    for atom_, d in (('u', 'time'), ('un', 'time'), ('lat', LAT_DIM[uc]), ('lon', LON_DIM[uc])):
        if d in da.dims:
            ax[atom_] = dim_axis(da, d)
    allowed = dict(ax)
    for atom_ in ('u', 'un', 'lat', 'lon'):
        allowed.setdefault(atom_, None)
    probs = W.pointwise(t, ax, name)
    for x in T.walk(t):
        if x.op == 'atom' and x.data in ('u', 'un', 'lat', 'lon') and x.data not in ax:
            probs.append((x, f'{x.data} occurs in {name}, whose dimensions {da.dims} do not tell which'))
    rep.done('element-index')
    for x, why in probs[:1]:
        loc = x.prov
        if loc is None:
            par = [y for y in T.walk(t) if any(a is x for a in y.args) and y.prov]
            loc = par[0].prov if par else None
        rep.fail('element-index', f'{name}: {why}', loc)


def combos_refr():
    return [(a, e, r) for a, e in COMBOS for r in (False, True)]


@check('C01',
       'Value numbering of sites(), regular_grid() and transect() for every algorithm, engine and refraction setting and every '
       'relation between the numbers of times and places (distinct, coinciding, one): each quantity must have the value number it '
       'has in sites() with distinct sizes, must read each input at the index of its own element only, and must use neither the '
       'size of an axis nor any reduction over one.',
       minimum={'same-value': 1100, 'element-index': 1100},
       anchors=['usecases.py', '_core.py', 'ne_nrel.py', 'ne_psa.py', 'py_psa.py', 'ne_soltrack.py', 'py_soltrack.py',
                'ne_iqbal.py', 'py_iqbal.py', '_base.py'])
def c01(tier):
    tasks = []
    for alg, eng, refr in combos_refr():
        for uc in USECASES:
            for part in PARTS[uc]:
                def fn(it, rep, alg=alg, eng=eng, refr=refr, uc=uc, part=part):
                    W.declare()
                    ref = W.simple(it, 'sites', alg, eng, refr)
                    rv = {q: one_cell(got(it, ref, q), q) for q in QUANT}
                    r = W.simple(it, uc, alg, eng, refr, part)
                    for q in QUANT:
                        da = got(it, r, q)
                        index_rule(rep, uc, q, da)
                        same_value(rep, 'same-value', q, one_cell(da, q), rv[q])
                tasks.append(Task(f'{uc}/{alg}/{eng}/refraction={refr}/{part}', fn))
    return tasks


@check('C02',
       'For every algorithm with two engines, the value numbers of the five quantities computed by the numpy and the numexpr engine '
       'are compared in every use case, with and without refraction (azimuths as angles).',
       minimum={'engines-agree': 90},
       anchors=['ne_psa.py', 'py_psa.py', 'ne_soltrack.py', 'py_soltrack.py', 'ne_iqbal.py', 'py_iqbal.py'])
def c02(tier):
    tasks = []
    for alg, engines in ENGINES.items():
        if len(engines) < 2:
            continue
        for refr in (False, True):
            for uc in USECASES:
                for part in PARTS[uc] if tier == 'thorough' else PARTS[uc][:1]:
                    def fn(it, rep, alg=alg, refr=refr, uc=uc, part=part, engines=engines):
                        W.declare()
                        vals, prec = [], []
                        for e in engines:
                            A.NARROWINGS.clear()
                            r = W.simple(it, uc, alg, e, refr, part)
                            vals.append({q: one_cell(got(it, r, q), q) for q in QUANT})
                            prec.append(list(A.NARROWINGS))
                        for q in QUANT:
                            same_value(rep, 'engines-agree', q, vals[0][q], vals[1][q])
                        for p in prec:
                            rep.done('precision')
                            for k, term, src, dst, loc in p:
                                if k == 'float' and T.atoms_of(term) & {'u', 'un'}:
                                    rep.fail('precision', f'{src} is narrowed to {dst} in one engine', loc)
                                    break
                    tasks.append(Task(f'{uc}/{alg}/refraction={refr}/{part}', fn))
    return tasks
