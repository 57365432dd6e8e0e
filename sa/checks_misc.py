"""Rules on refraction, engines, side effects and invalid input (C09, C12, C14, C21)."""

from . import terms as T
from . import arrays as A
from . import interp as I
from . import m_time as MT
from . import m_xarray as X
from . import specs as S
from . import world as W
from .arrays import Arr, Ax, PyExc
from .checks import LAT_DIM, LON_DIM, check, got, one_cell, same_value
from .checks_derived import value
from .checks_spa import angle_key, position
from .framework import Task
from .terms import AnalysisGap
from .values import BoundMethod, Builtin, ClassVal, FuncVal, SymStr
from .world import COMBOS, ENGINES, PARTS, QUANT, USECASES, Violation, key


def bool_scalar(b):
    return Arr((), [T.TRUE if b else T.FALSE], 'b1', 'sc')


FLAGS = {'True': lambda: True, 'False': lambda: False, 'numpy True': lambda: bool_scalar(True), 'numpy False': lambda: bool_scalar(False),
         '1': lambda: 1, '0': lambda: 0, 'default': None}


@check('C09',
       'For every algorithm, engine, use case and size relation the value numbers with refraction are compared with the published correction '
       '(in /verif/spec/refraction.py) of the zenith computed without, and the other quantities with those computed without; booleans of '
       'Python and numpy and the default are followed to the place of use.',
       minimum={'correction': 100, 'untouched': 400, 'flag': 200},
       anchors=['ne_nrel.py', 'ne_psa.py', 'py_psa.py', 'ne_soltrack.py', 'py_soltrack.py', 'ne_iqbal.py', 'py_iqbal.py'])
def c09(tier):
    tasks = []
    for alg, eng in COMBOS:
        for uc in USECASES:
            for part in PARTS[uc]:
                def fn(it, rep, alg=alg, eng=eng, uc=uc, part=part):
                    W.declare()
                    tax, jax, iax = W.axes_for(it, uc, part)

                    def run(flag):
                        kw = {} if flag is None else {'refraction': flag()}
                        r = W.run_usecase(it, uc, W.times_input(it, tax), W.coord('lat', jax), W.coord('lon', iax), alg, engine=eng, **kw)
                        return r, {q: one_cell(got(it, r, q), q) for q in QUANT}
                    _, off = run(FLAGS['False'])
                    z = S.call(it, 'refraction', alg, off['zenith'])
                    for name, flag in FLAGS.items():
                        if name not in ('True', 'False') and part != PARTS[uc][0] and tier != 'thorough':
                            continue
                        r, on = run(flag)
                        want = name not in ('False', 'numpy False', '0')
                        rep.done('correction')
                        if key(on['zenith']) != key(z if want else off['zenith']):
                            loc, txt = W.show_mismatch(on['zenith'], z if want else off['zenith'])
                            rep.fail('correction', f'with refraction={name} zenith is not the ' +
                                     ('published correction of the geometric zenith' if want else 'geometric zenith') + f': {txt}', loc)
                        for q in QUANT:
                            if q != 'zenith':
                                same_value(rep, 'untouched', f'with refraction={name} {q}', on[q], off[q]) if q != 'azimuth' else \
                                    rep.check(W.az_key(on[q]) == W.az_key(off[q]), 'untouched', f'with refraction={name} azimuth differs',
                                              on[q].prov)
                        h = it.getattr(r, 'has_refraction')
                        rep.done('flag')
                        if not truth(h, want):
                            rep.fail('flag', f'has_refraction is {h!r} with refraction={name}')
                tasks.append(Task(f'{uc}/{alg}/{eng}/{part}', fn))
    return tasks


def truth(h, want):
    if isinstance(h, Arr) and len(h.cells) == 1 and not h.axes:
        return h.cells[0] is (T.TRUE if want else T.FALSE)
    return h in (True, False, 1, 0) and bool(h) == want


# ---------------------------------------------------------------------------
# C14

@check('C14',
       'The names in SPA_ALGORITHMS are read from the analysed package; for each of them and each engine, use case and refraction setting '
       'the call is followed to the five quantities, whose value numbers must be those of the algorithm named (published formulas in '
       '/verif/spec), with the numexpr evaluator called by that engine and only by it; the defaults are compared with the explicit call.',
       minimum={'works': 40, 'value': 200, 'engine': 40, 'defaults': 3, 'names': 1}, anchors=['_core.py', 'usecases.py'])
def c14(tier):
    tasks = []

    def names(it, rep):
        W.declare()
        v = W.public(it).ns.get('SPA_ALGORITHMS')
        v = it.to_list(v) if v is not None else []
        rep.check(set(ENGINES) <= set(v), 'names', f'SPA_ALGORITHMS is {v}')
        ax = W.axes_for(it, 'sites', 'distinct')
        for name in v:
            if name in ENGINES:
                continue
            for uc in USECASES:
                tax, jax, iax = W.axes_for(it, uc, PARTS[uc][0])
                r = W.run_usecase(it, uc, W.times_input(it, tax), W.coord('lat', jax), W.coord('lon', iax), name)
                for q in QUANT:
                    got(it, r, q)
                rep.done('works')
    tasks.append(Task('SPA_ALGORITHMS', names))

    for alg, eng in COMBOS:
        for uc in USECASES:
            for refr in (False, True):
                def fn(it, rep, alg=alg, eng=eng, uc=uc, refr=refr):
                    W.declare()
                    part = PARTS[uc][0]
                    W.public(it)
                    it.env['numexpr_calls'] = 0
                    r = W.simple(it, uc, alg, eng, refr, part)
                    n = it.env['numexpr_calls']
                    rep.check((n > 0) == (eng == 'numexpr'), 'engine',
                              f'engine="{eng}" makes {n} call(s) of numexpr.evaluate')
                    tax, jax, iax = W.axes_for(it, uc, part)
                    at = lambda name, dim, ax: T.atom(name, (T.idxvar('@' + dim) if isinstance(ax, Ax) else T.const(0),))    # noqa: E731
                    ref = position(it, alg, (at('u', 'time', tax), at('lat', LAT_DIM[uc], jax), at('lon', LON_DIM[uc], iax)))
                    if refr:
                        ref = dict(ref, zenith=S.call(it, 'refraction', alg, ref['zenith']))
                    for q in QUANT:
                        t = value(got(it, r, q), q)
                        k = angle_key(q)
                        rep.done('value')
                        if not W.same(t, ref[q], k):
                            loc, txt = W.show_mismatch(t, ref[q])
                            rep.fail('value', f'{q} of algorithm "{alg}" is not that of this algorithm, in degrees (minutes for eot): {txt}', loc)
                    rep.check(it.getattr(r, 'algorithm') == alg and it.getattr(r, 'engine') == eng, 'label',
                              f'algorithm and engine of the result are {it.getattr(r, "algorithm")!r} and {it.getattr(r, "engine")!r}')
                    rep.done('works')
                tasks.append(Task(f'{uc}/{alg}/{eng}/refraction={refr}', fn))

    for uc in USECASES:
        def dflt(it, rep, uc=uc):
            W.declare()
            W.public(it)
            tax, jax, iax = W.axes_for(it, uc, PARTS[uc][0])
            args = lambda: (W.times_input(it, tax), W.coord('lat', jax), W.coord('lon', iax))      # noqa: E731
            it.env['numexpr_calls'] = 0
            r = W.run_usecase(it, uc, *args())
            rep.check(it.env['numexpr_calls'] > 0, 'defaults', 'the default engine does not call numexpr.evaluate')
            s = W.run_usecase(it, uc, *args(), 'psa', True, 'numexpr')
            for q in QUANT:
                same_value(rep, 'defaults', q, one_cell(got(it, r, q), q), one_cell(got(it, s, q), q))
            for a, want in (('algorithm', 'psa'), ('engine', 'numexpr')):
                rep.check(it.getattr(r, a) == want, 'defaults', f'{a} is {it.getattr(r, a)!r} by default')
            rep.check(truth(it.getattr(r, 'has_refraction'), True), 'defaults', 'has_refraction is not True by default')
        tasks.append(Task(f'{uc}/defaults', dflt))
    return tasks


# ---------------------------------------------------------------------------
# C21

def canon(v, depth=0):
    """A comparable image of an abstract value."""
    if isinstance(v, X.DataArray):
        return ('da', tuple(v.dims), canon(v.arr), tuple(sorted((n, tuple(d), canon(a)) for n, (d, a) in v.coords.items())), v.name,
                tuple(sorted((str(k), repr(x)) for k, x in v.attrs.items())))
    if isinstance(v, MT.PdTimes):
        return ('times', canon(v.arr), v.tz and v.tz.name, v.flavor)
    if isinstance(v, Arr):
        return ('arr', v.dtype, tuple(a.size.fp if isinstance(a, Ax) else a for a in v.axes),
                tuple((c.fp, c.valid.fp) for c in v.cells))
    if isinstance(v, T.Term):
        return ('t', v.fp, v.valid.fp)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(canon(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((repr(k), canon(x, depth + 1)) for k, x in v.items())
    if isinstance(v, SymStr):
        return ('str',) + tuple(p if isinstance(p, str) else repr(p) for p in v.parts)
    if v is None or isinstance(v, (bool, int, float, str)):
        return (type(v).__name__, v)
    return (type(v).__name__, repr(v))


CALLS = {
    'sunrise': [(), ('deg',), ('rad',), ('tst',), ('utc',), ('local',)],
    'sunset': [(), ('deg',), ('rad',), ('tst',), ('utc',), ('local',)],
    'eth': [(), (1000.0, 'perez_1990'), (1361.1, 'skarveith_1998'), (1361.1, 'gonzalez_and_calbo_1999')],
    'airmass': [(), ('kasten_1965',), ('kasten_and_young_1989',), ('gueymard_2001',), ('gueymard_2003',)],
    'incidence': [(0.0, 0.0), (30.0, -45.0)],
}


def public_names(it, r):
    out = []
    for c in r.cls.mro():
        if isinstance(c, ClassVal):
            out += [n for n in c.ns if not n.startswith('_') and n not in out]
    out += [n for n in r.attrs if not n.startswith('_') and n not in out]
    return out


def reads(it, r):
    """(name, function reading it) for every public attribute and method call of the result."""
    out = []
    for n in public_names(it, r):
        argss = CALLS.get(n, [()])
        for args in argss:
            def rd(n=n, args=args):
                v = it.getattr(r, n)
                if isinstance(v, (FuncVal, Builtin, BoundMethod)):
                    try:
                        v = it.call(v, list(args), {})
                    except PyExc as e:
                        if e.etype is TypeError and n not in CALLS:
                            return None                  # an unknown method that needs arguments
                        raise
                return v
            out.append((n + (repr(args) if args else ''), rd))
    return out


def roots(v, seen=None):
    """Arrays reachable from v, down to their buffers."""
    if isinstance(v, X.DataArray):
        yield from roots(v.arr)
        for d, a in v.coords.values():
            yield from roots(a)
    elif isinstance(v, MT.PdTimes):
        yield from roots(v.arr)
    elif isinstance(v, Arr):
        a = v
        while True:
            yield a
            if a.base is None or a.base is a:
                break
            a = a.base
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from roots(x)
    elif isinstance(v, dict):
        for x in v.values():
            yield from roots(x)


def no_writes(it, rep, what):
    rep.done('inputs')
    for owner, loc in it.written:
        rep.fail('inputs', f'{what} writes into the caller\'s {owner}', loc)
        break
    it.written.clear()


def isolated(it, rep, r, what):
    rep.done('sharing')
    for n, v in r.attrs.items():
        for a in roots(v):
            if a.owner is not None:
                rep.fail('sharing', f'{what}: attribute {n} of the result shares storage with the caller\'s {a.owner}', (a.cells[0].prov if a.cells else None))
                return


INPUTS = ('M8[s]', 'M8[ns]', 'index', 'index_ns')


def sub_interp(it):
    s = I.Interp(stats=it.stats)
    s.facts.update(it.facts)
    s.env['distinct'] = True        # complete images of different inputs are different
    return s


class alone:
    """Run in an interpreter of its own (a fresh import of the package)."""
    def __init__(self, it):
        self.it = it

    def __enter__(self):
        self.save = list(A.BRANCH)
        s = sub_interp(self.it)
        A.BRANCH[:] = [s.branch]
        return s

    def __exit__(self, *a):
        A.BRANCH[:] = self.save


def history_calls(it):
    """(label, function(interp) -> values) of calls that differ from each other in one respect or several."""
    out = []
    for alg, eng in COMBOS:
        for uc in USECASES:
            for refr in (True, False):
                for st, sj, si in (('', '', ''), ('2', '2', '2')) + ((('2', '', ''), ('', '2', ''), ('', '', '2')) if refr else ()):
                    def call(s, alg=alg, eng=eng, uc=uc, refr=refr, st=st, sj=sj, si=si):
                        tax, jax, iax = W.axes_for(s, uc, PARTS[uc][0])
                        t = Arr((tax,), [T.atom('u' + st, W.idx(tax))], 'M8[s]', owner='times')
                        r = W.run_usecase(s, uc, t, W.coord('lat' + sj, jax), W.coord('lon' + si, iax), alg, refraction=refr, engine=eng)
                        out = {q: canon(s.getattr(r, q)) for q in QUANT + ('true_solar_time', 'times')}
                        out['sunrise'] = canon(W.method(s, r, 'sunrise', 'local'))
                        out['airmass'] = canon(W.method(s, r, 'airmass'))
                        return out
                    out.append((f'{uc}/{alg}/{eng}/refraction={refr}/times{st or 1} latitude{sj or 1} longitude{si or 1}', call))
    for suffix in ('', '2'):
        for f in ('true_solar_time', 'universal_time_coordinated'):
            def call(s, f=f, suffix=suffix):
                tax, jax, iax = W.axes_for(s, 'sites', 'distinct')
                t = Arr((tax,), [T.atom('u' + suffix, W.idx(tax))], 'M8[s]', owner='times')
                return {f: canon(s.call(s.load('sunwhere.utils.datetime').ns[f], [t, W.coord('lon' + suffix, jax)], {}))}
            out.append((f'{f}/data{suffix or 1}', call))
    return out


@check('C21',
       'Alias and effect analysis: stores are followed to the buffers of the caller\'s arrays (for every entry point and container), the '
       'storage of results is checked against them; every public attribute and method of a result is read forwards and backwards and '
       'again, and each value number compared with that of the first reading; the value numbers of a history of calls that differ in '
       'algorithm, engine, use case, refraction and data are compared with those of the same call in a fresh import.',
       minimum={'inputs': 80, 'sharing': 70, 'reread': 1000, 'history': 80}, anchors=['_base.py', 'usecases.py', '_core.py', 'datetime.py'])
def c21(tier):
    tasks = []
    for alg, eng in COMBOS:
        for uc in USECASES:
            for kind in INPUTS:
                for refr in (True, False):
                    if kind != 'M8[s]' and (alg, eng) != ('psa', 'numexpr') and tier != 'thorough':
                        continue

                    def eff(it, rep, alg=alg, eng=eng, uc=uc, kind=kind, refr=refr):
                        W.declare()
                        r = W.simple(it, uc, alg, eng, refr, PARTS[uc][0], kind)
                        no_writes(it, rep, f'{uc}()')
                        isolated(it, rep, r, f'{uc}()')
                        for n, rd in reads(it, r):
                            rd()
                        no_writes(it, rep, 'reading the result')
                    tasks.append(Task(f'effects/{uc}/{alg}/{eng}/{kind}/refraction={refr}', eff))
        for uc in USECASES:
            if tier != 'thorough' and (alg, eng) not in (('psa', 'numexpr'), ('iqbal', 'numpy')):
                continue

            def reread(it, rep, alg=alg, eng=eng, uc=uc):
                W.declare()
                objs = []
                first = {}
                for rev in (False, True):
                    r = W.simple(it, uc, alg, eng, True, PARTS[uc][0])
                    rs = reads(it, r)
                    for again in (False, True):
                        for n, rd in (reversed(rs) if rev ^ again else rs):
                            v = rd()
                            c = canon(v)
                            rep.done('reread')
                            if first.setdefault(n, c) != c:
                                rep.fail('reread', f'{n} changes when other attributes are read', loc_of_value(v))
                                return
                            objs.append((n, v, c))
                for n, v, c in objs:
                    rep.done('reread')
                    if canon(v) != c:
                        rep.fail('reread', f'the value of {n} obtained earlier is changed afterwards', loc_of_value(v))
                        return
            tasks.append(Task(f'reread/{uc}/{alg}/{eng}', reread))

    for f in ('true_solar_time', 'universal_time_coordinated'):
        def helper(it, rep, f=f):
            W.declare()
            tax, jax, iax = W.axes_for(it, 'sites', 'distinct')
            for kind in ('M8[s]', 'M8[ns]', 'index'):
                lon = W.coord('lon', jax)
                v = it.call(it.load('sunwhere.utils.datetime').ns[f], [W.times_input(it, tax, kind), lon], {})
                no_writes(it, rep, f'{f}()')
                for a in roots(v):
                    rep.check(a.owner is None, 'sharing', f'{f}() returns storage of the caller\'s {a.owner}')
        tasks.append(Task(f'effects/{f}', helper))

    def history(it, rep, rev):
        W.declare()
        T.declare('u2', lo=W.U_LO, hi=W.U_HI, integer=True)
        T.declare('lat2', lo=-90, hi=90)
        T.declare('lon2', lo=-180, hi=180, hi_open=True)
        calls = history_calls(it)
        if rev:
            calls = calls[::-1]
        with alone(it) as s:
            hist = [(n, c(s)) for n, c in calls]
        for (n, have), (_, c) in zip(hist, calls):
            with alone(it) as s:
                want = c(s)
            rep.done('history')
            bad = [q for q in want if have[q] != want[q]]
            if bad:
                rep.fail('history', f'{", ".join(bad)} of {n} depend(s) on the calls made before')
                return
    tasks.append(Task('history/forwards', lambda it, rep: history(it, rep, False), weight=9))
    tasks.append(Task('history/backwards', lambda it, rep: history(it, rep, True), weight=9))
    return tasks


def loc_of_value(v):
    a = v.arr if isinstance(v, (X.DataArray, MT.PdTimes)) else v
    return a.cells[0].prov if isinstance(a, Arr) and a.cells else None


# ---------------------------------------------------------------------------
# C12

EPS = 2.0**-30
BEYOND = {'lat': {'above': (90 + EPS, 1e9), 'below': (-1e9, -90 - EPS), 'infinite': 'inf'},
          'lon': {'above': (180 + EPS, 1e9), 'below': (-1e9, -180 - EPS), 'infinite': 'inf'}}


def refused(it, rep, rule, what, call):
    rep.done(rule)
    try:
        call()
    except PyExc as e:
        if e.etype is not ValueError and not (isinstance(e.etype, ClassVal) and e.etype.is_subclass(ValueError)) \
                and not (isinstance(e.etype, type) and issubclass(e.etype, ValueError)):
            rep.fail(rule, f'{what} raises {e.name()} instead of ValueError: {e.msg}', e.loc)
        return
    rep.fail(rule, f'{what} is accepted')


def bad_coord(name, side, container, ax):
    """A latitude or longitude argument with an element out of range."""
    lo, hi = BEYOND[name][side]
    bad = 'bad' + name
    if container == 'array':
        T.declare(bad, lo=min(lo, -180), hi=max(hi, 180), witness=[(lo, hi)])
        return Arr((ax,), [T.atom(bad, W.idx(ax))], 'f8', owner=name)
    T.declare(bad, lo=lo, hi=hi)
    b = T.atom(bad)
    if container == 'array of one':
        return Arr((1,), [b], 'f8', owner=name)
    if container == 'scalar':
        return A.pyfloat(b)
    g = [A.pyfloat(T.atom(name, (T.const(k),))) for k in range(2)]
    if container == 'first':
        return [A.pyfloat(b)] + g
    if container == 'last':
        return g + [A.pyfloat(b)]
    return [g[0], A.pyfloat(b), g[1]]


def good_coord(name, container, ax):
    if container == 'array':
        return W.coord(name, ax)
    if container in ('array of one', 'scalar'):
        return Arr((1,), [T.atom(name, (T.const(0),))], 'f8', owner=name)
    return [A.pyfloat(T.atom(name, (T.const(k),))) for k in range(3)]


def const_times(n):
    return Arr((n,), [T.atom('u', (T.const(k),)) for k in range(n)], 'M8[s]', owner='times')


CONTAINERS_BAD = ('array', 'array of one', 'scalar', 'first', 'middle', 'last')
BAD_ALGORITHMS = ('', 'PSA', 'spa', 'numexpr', None)
BAD_ENGINES = ('', 'NUMPY', 'python', 'psa', None)


@check('C12',
       'Every class of invalid input (unknown names, coordinates beyond their range in any position and container, dimensions, and '
       'every relation of sizes that does not fit the use case) is followed from each entry point on every path; each must end in '
       'ValueError. Range tests are decided with intervals: the arrays hold any values, one of them in the forbidden interval. The valid '
       'inputs, limits of the ranges included, are followed likewise and must raise nothing.',
       minimum={'name': 100, 'range': 150, 'ndim': 15, 'sizes': 12, 'completes': 250}, anchors=['validate.py', 'usecases.py', '_core.py'])
def c12(tier):
    tasks = []

    def add(config, fn):
        tasks.append(Task(config, fn))

    for uc in USECASES:
        def names(it, rep, uc=uc):
            W.declare()
            tax, jax, iax = W.axes_for(it, uc, 'distinct')
            args = lambda: [W.times_input(it, tax), W.coord('lat', jax), W.coord('lon', iax)]      # noqa: E731
            for refr in (True, False):
                for a in BAD_ALGORITHMS:
                    for e in ('numpy', 'numexpr', ''):
                        refused(it, rep, 'name', f'{uc}(algorithm={a!r}, engine={e!r})',
                                lambda: W.run_usecase(it, uc, *args(), algorithm=a, engine=e, refraction=refr))
                for a in ENGINES:
                    for e in BAD_ENGINES + tuple(x for x in ('numpy', 'numexpr') if x not in ENGINES[a]):
                        refused(it, rep, 'name', f'{uc}(algorithm={a!r}, engine={e!r})',
                                lambda: W.run_usecase(it, uc, *args(), algorithm=a, engine=e, refraction=refr))
        add(f'{uc}/names', names)

        for name in ('lat', 'lon'):
            for side in ('above', 'below'):
                for cont in CONTAINERS_BAD:
                    for alg, eng in COMBOS:
                        if (alg, eng) != ('psa', 'numexpr') and cont not in ('array', 'middle') and tier != 'thorough':
                            continue

                        def rng(it, rep, uc=uc, name=name, side=side, cont=cont, alg=alg, eng=eng):
                            W.declare()
                            tax, jax, iax = W.axes_for(it, uc, 'distinct')
                            ax = {'lat': jax, 'lon': iax}
                            n = 1 if cont in ('array of one', 'scalar') else 3
                            times = W.times_input(it, tax) if cont == 'array' else const_times(n)
                            c = {k: bad_coord(k, side, cont, ax[k]) if k == name else good_coord(k, cont, ax[k]) for k in ('lat', 'lon')}
                            refused(it, rep, 'range', f'{uc}() with {name} {side} its range ({cont})',
                                    lambda: W.run_usecase(it, uc, times, c['lat'], c['lon'], alg, engine=eng))
                        add(f'{uc}/{alg}/{eng}/{name} {side}/{cont}', rng)

        def dims(it, rep, uc=uc):
            W.declare()
            tax, jax, iax = W.axes_for(it, uc, 'distinct')

            def two(name, ax, other):
                axes = (ax, other)
                i = tuple(T.idxvar(a.name) if isinstance(a, Ax) else T.const(0) for a in axes)
                dt = 'M8[s]' if name == 'u' else 'f8'
                return Arr(axes, [T.atom(name, i)], dt, owner=name)
            kx = Ax(A.dim('k'), 'k')
            T.declare('dim:k', lo=2, integer=True)
            t1, la1, lo1 = (lambda: W.times_input(it, tax)), (lambda: W.coord('lat', jax)), (lambda: W.coord('lon', iax))
            for other in (kx, 1):
                t2, la2, lo2 = (lambda: two('u', tax, other)), (lambda: two('lat', jax, other)), (lambda: two('lon', iax, other))
                for what, a in (('times', (t2, la1, lo1)), ('latitudes', (t1, la2, lo1)), ('longitudes', (t1, la1, lo2)),
                                ('latitudes and longitudes', (t1, la2, lo2)), ('times, latitudes and longitudes', (t2, la2, lo2))):
                    refused(it, rep, 'ndim', f'{uc}() with two-dimensional {what}', lambda: W.run_usecase(it, uc, *[x() for x in a]))
        add(f'{uc}/dimensions', dims)

    T_, J_, I_ = 'T', 'J', 'I'
    bad_sizes = {'sites': [(T_, J_, I_), (T_, J_, 1), (T_, 1, J_), (1, J_, 1), (1, 1, J_), (T_, T_, J_), (T_, J_, T_), (T_, T_, 1), (T_, 1, T_)],
                 'transect': [(T_, J_, I_), (T_, J_, J_), (T_, T_, J_), (T_, J_, T_), (1, J_, J_), (T_, 1, 1), (T_, T_, 1), (T_, 1, T_),
                              (1, 1, J_), (1, J_, 1)]}
    good_sizes = {'sites': [(T_, J_, J_), (T_, T_, T_), (1, J_, J_), (T_, 1, 1), (1, 1, 1)],
                  'transect': [(T_, T_, T_), (1, 1, 1)],
                  'regular_grid': [(T_, J_, I_), (T_, T_, I_), (T_, J_, T_), (T_, J_, J_), (T_, T_, T_), (1, J_, I_), (T_, 1, I_), (T_, J_, 1),
                                   (1, 1, I_), (1, J_, 1), (T_, 1, 1), (1, 1, 1), (T_, 1, T_), (T_, T_, 1), (1, J_, J_)]}

    def sized(it, sizes):
        W.axes_for(it, 'regular_grid', 'distinct')
        ax = {k: Ax(A.dim(k.lower()), k.lower()) for k in (T_, J_, I_)}
        a, b, c = [1 if s == 1 else Ax(ax[s].size, n) for s, n in zip(sizes, 'tji')]
        return a, b, c

    for uc, lst in bad_sizes.items():
        for sizes in lst:
            for alg, eng in COMBOS if tier == 'thorough' else [('psa', 'numexpr'), ('nrel', 'numexpr')]:
                def sz(it, rep, uc=uc, sizes=sizes, alg=alg, eng=eng):
                    W.declare()
                    a, b, c = sized(it, sizes)
                    refused(it, rep, 'sizes', f'{uc}() with {sizes[0]} times, {sizes[1]} latitudes and {sizes[2]} longitudes',
                            lambda: W.run_usecase(it, uc, W.times_input(it, a), W.coord('lat', b), W.coord('lon', c), alg, engine=eng))
                add(f'{uc}/{alg}/{eng}/sizes {sizes}', sz)
    for uc, lst in good_sizes.items():
        for sizes in lst:
            for alg, eng in COMBOS:
                for refr in (True, False):
                    def ok(it, rep, uc=uc, sizes=sizes, alg=alg, eng=eng, refr=refr):
                        W.declare()
                        a, b, c = sized(it, sizes)
                        W.run_usecase(it, uc, W.times_input(it, a), W.coord('lat', b), W.coord('lon', c), alg, engine=eng, refraction=refr)
                    add(f'{uc}/{alg}/{eng}/refraction={refr}/valid {sizes}', ok)
    for uc in USECASES:
        for cont in ('lists', 'scalars', 'limits'):
            def okc(it, rep, uc=uc, cont=cont):
                W.declare()
                if cont == 'scalars':
                    c = [A.pyfloat(T.atom(n, (T.const(0),))) for n in ('lat', 'lon')]
                    times = W.times_input(it, 1, 'scalar')
                elif cont == 'lists':
                    c = [[A.pyfloat(T.atom(n, (T.const(k),))) for k in range(3)] for n in ('lat', 'lon')]
                    times = const_times(3)
                else:
                    c = [[-90, 90.0, 0], [-180, 179.999, 0.0]]
                    times = const_times(3)
                W.run_usecase(it, uc, times, *c)
            add(f'{uc}/valid {cont}', okc)
    return tasks
