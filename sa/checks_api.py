"""Rules on what is done with the results as objects, and on how functions are called (C34, C35)."""

from . import arrays as A
from . import m_pickle    # noqa: F401
from . import world as W
from .arrays import PyExc
from .checks import check
from .checks_io import CONTAINERS, ZONES, coord_arg, declare
from .checks_misc import alone, canon, public_names, reads, roots
from .framework import Task
from .m_pickle import Transfer, shallow
from .values import Builtin, BoundMethod, FuncVal, Instance
from .world import COMBOS, PARTS, QUANT, USECASES

HOW = {'pickle': 'after pickling and unpickling in another process', 'copy': 'of copy.copy()', 'deepcopy': 'of copy.deepcopy()'}


def where(exc):
    return exc.loc


def duplicate(it, s, r, how):
    return shallow(it, r) if how == 'copy' else Transfer(it, s, how).go(r)


def read_all(it, r, rep, what):
    """name -> canonical value of each reading (an exception is a value too)."""
    out = {}
    for n, rd in reads(it, r):
        try:
            out[n] = canon(rd())
        except PyExc as e:
            out[n] = ('raises', e.name(), e.msg, e.loc)
    return out


def compare(rep, want, have, what, state):
    for n, w in want.items():
        h = have.get(n)
        rep.done('reading')
        if h is None:
            rep.fail('reading', f'{n} does not exist {what} {state}')
        elif h[:1] == ('raises',) and w[:1] != ('raises',):
            rep.fail('reading', f'{n} {what} {state} raises {h[1]}: {h[2]}', h[3])
        elif h[:2] != w[:2] if w[:1] == ('raises',) else h != w:
            rep.fail('reading', f'{n} {what} {state} differs from that of the original')


@check('C34',
       'The pickle and copy protocols (class by reference, __reduce_ex__, __getstate__, __setstate__, __deepcopy__, attribute lookup through '
       '__getattr__) are followed over the attributes of results and of what their attributes and methods return: each value reached must '
       'be of a type that pickles (functions and classes only as attributes of their module), and every attribute and method of the copy, '
       'read in a fresh import of the package, must have the value number of the original.',
       minimum={'transfer': 500, 'reading': 20000, 'returned': 3000, 'independent': 180}, anchors=['_base.py', 'usecases.py'])
def c34(tier):
    tasks = []

    def add(uc, alg, eng, refr, kind, zone):
        def fn(it, rep):
            declare()
            tax, jax, iax = W.axes_for(it, uc, PARTS[uc][0])
            n = {'list': 2, 'datetimes': 2, 'timestamps': 2, 'm8list': 2, 'datetime': 1, 'stamp': 1, 'scalar': 1}.get(kind)
            if n is not None:
                tax = n
                jax, iax = (n, n) if uc == 'transect' else (jax, iax)
            r = W.run_usecase(it, uc, W.times_input(it, tax, kind, ZONES[zone]()), coord_arg('lat', jax), coord_arg('lon', iax), alg,
                              refraction=refr, engine=eng)
            if not isinstance(r, Instance):
                rep.check(False, 'transfer', f'the result is {r!r}')
                return

            def rounds(state):
                copies = []
                for how, what in HOW.items():
                    rep.done('transfer')
                    try:
                        if how == 'pickle':
                            with alone(it) as s:
                                W.public(s)
                                copies.append((how, duplicate(it, s, r, how), s))
                        else:
                            copies.append((how, duplicate(it, it, r, how), it))
                    except PyExc as e:
                        rep.fail('transfer', f'{"pickling" if how == "pickle" else f"copy.{how}()"} of the result {state} raises {e.name()}: {e.msg}', where(e))
                for how, c, s in copies:
                    if not isinstance(c, Instance):
                        rep.fail('transfer', f'the result {HOW[how]} {state} is {c!r}')
                        continue
                    if how == 'deepcopy':
                        rep.done('independent')
                        mine = {id(a): n for n, v in r.attrs.items() for a in roots(v)}
                        for n, v in c.attrs.items():
                            if any(id(a) in mine for a in roots(v)):
                                rep.fail('independent', f'attribute {n} of the copy.deepcopy() of a result shares storage with the original')
                    if s is it:
                        have = read_all(it, c, rep, HOW[how])
                    else:
                        with alone(it) as s2:
                            # each reading in the interpreter that holds the copy
                            A.BRANCH[:] = [s.branch]
                            have = read_all(s, c, rep, HOW[how])
                            del s2
                    yield how, have

            first = list(rounds('just returned'))
            want = read_all(it, r, rep, '')
            for how, have in first:
                compare(rep, want, have, HOW[how], 'right after the call')
            for how, have in rounds('whose attributes and methods have been used'):
                compare(rep, want, have, HOW[how], 'after its attributes and methods have been used')
            for n, rd in reads(it, r):
                try:
                    v = rd()
                except PyExc:
                    continue
                rep.done('returned')
                try:
                    with alone(it) as s:
                        W.public(s)
                        c = canon(Transfer(it, s, 'pickle').go(v))
                except PyExc as e:
                    rep.fail('returned', f'pickling of {n} raises {e.name()}: {e.msg}', where(e))
                    continue
                if c != canon(v):
                    rep.fail('returned', f'{n} differs after pickling and unpickling')
        tasks.append(Task(f'{uc}/{alg}/{eng}/refraction={refr}/{kind}/{zone}', fn))

    for uc in USECASES:
        for alg, eng in COMBOS:
            for refr in (True, False):
                if tier == 'thorough' or refr or alg == 'psa':
                    add(uc, alg, eng, refr, 'M8[s]', 'naive')
        for zone in ZONES:
            for kind in CONTAINERS['naive' if zone == 'naive' else 'aware']:
                if kind == 'M8[s]' or tier != 'thorough' and kind not in ('index', 'index_ns', 'timestamps'):
                    continue
                add(uc, 'psa', 'numexpr', True, kind, zone)
    return tasks


# ---------------------------------------------------------------------------
# C35

USECASE_PARAMS = ('times', 'latitude', 'longitude', 'algorithm', 'refraction', 'engine')
USECASE_DEFAULTS = {'algorithm': 'psa', 'refraction': True, 'engine': 'numexpr'}
METHODS = {
    'eth': (('ISC', 'am_correction'), {'ISC': 1361.1, 'am_correction': 'none'},
            {'ISC': (1361.1, 1000.0), 'am_correction': ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999')}),
    'airmass': (('parameterization',), {'parameterization': 'gueymard_2003'},
                {'parameterization': ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003')}),
    'sunrise': (('units',), {'units': 'deg'}, {'units': ('deg', 'rad', 'tst', 'utc', 'local')}),
    'sunset': (('units',), {'units': 'deg'}, {'units': ('deg', 'rad', 'tst', 'utc', 'local')}),
    'daylight_length': ((), {}, {}),
    'incidence': (('sfc_slope', 'sfc_azimuth'), {}, {'sfc_slope': (0.0, 30.0), 'sfc_azimuth': (0.0, -45.0)}),
}
PROPERTIES = ('algorithm', 'azimuth', 'cosz', 'dec', 'declination', 'ecf', 'elevation', 'engine', 'eot', 'has_refraction', 'latitude',
              'local_standard_time', 'longitude', 'saa', 'sza', 'times', 'times_utc', 'timezone', 'true_solar_time', 'usecase', 'zenith')
NAMES = ('sites', 'regular_grid', 'transect', 'universal_time_coordinated', '__version__', 'SPA_ALGORITHMS')
ALIASES = {'dec': 'declination', 'sza': 'zenith', 'saa': 'azimuth'}


def ways(params, values, defaults):
    """(label, args, kwargs): every split into arguments by position and by name (in the order documented and in reverse), and the
    omission of each set of arguments equal to the default."""
    n = len(params)
    for k in range(n, -1, -1):
        rest = params[k:]
        can = [p for p in rest if p in defaults and values[p] is defaults[p]]
        for m in range(2**len(can)):
            omit = {p for i, p in enumerate(can) if m >> i & 1}
            named = [p for p in rest if p not in omit]
            for order in ([named, named[::-1]] if len(named) > 1 else [named]):
                if not n:
                    label = 'no argument'
                else:
                    label = ', '.join([p for p in params[:k]] + [p + '=' for p in order]) or 'no argument'
                yield label, [values[p] for p in params[:k]], {p: values[p] for p in order}


def combos(domain, params):
    out = [{}]
    for p in params:
        out = [dict(o, **{p: v}) for o in out for v in domain[p]]
    return out


def attempt(f):
    try:
        return f()
    except PyExc as e:
        return ('raises', e.name(), e.msg, e.loc)


def agree(rep, rule, what, label, want, have):
    rep.done(rule)
    if have == want:
        return
    if have[:1] == ('raises',):
        rep.fail(rule, f'{what}({label}) raises {have[1]}: {have[2]}', have[3])
    else:
        rep.fail(rule, f'{what}({label}) differs from the call with the same arguments by position')


def refused(rep, it, what, call):
    rep.done('unknown')
    r = attempt(call)
    if not (isinstance(r, tuple) and r[:2] == ('raises', 'TypeError')):
        rep.fail('unknown', f'{what} is accepted, although there is no argument of that name')


def image(it, r):
    return tuple(canon(it.getattr(r, q)) for q in QUANT + ('times', 'latitude', 'longitude', 'algorithm', 'engine', 'has_refraction', 'usecase', 'cosz'))


@check('C35',
       'For each documented function and method, the value numbers of the result are compared between every way of passing the documented '
       'arguments (by position, by name in any order, omitted where they equal the documented default); names that are not documented are '
       'followed to a TypeError; documented names are resolved in the analysed package.',
       minimum={'call': 500, 'default': 600, 'method': 300, 'names': 90, 'unknown': 60}, anchors=['usecases.py', '_base.py', 'utils/datetime.py'])
def c35(tier):
    tasks = []
    for uc in USECASES:
        for alg, eng in COMBOS:
            for refr in (True, False):
                def fn(it, rep, uc=uc, alg=alg, eng=eng, refr=refr):
                    W.declare()
                    tax, jax, iax = W.axes_for(it, uc, PARTS[uc][0])
                    m = W.public(it)
                    f = m.ns.get(uc)
                    if f is None:
                        rep.check(False, 'names', f'sunwhere.{uc} does not exist')
                        return
                    t, la, lo = W.times_input(it, tax), W.coord('lat', jax), W.coord('lon', iax)
                    values = {'times': t, 'latitude': la, 'longitude': lo, 'algorithm': alg, 'refraction': refr, 'engine': eng}
                    want = attempt(lambda: image(it, it.call(f, [values[p] for p in USECASE_PARAMS], {})))
                    agree(rep, 'call', uc, 'by position', () if want[:1] == ('raises',) else want, want)
                    for label, args, kw in ways(USECASE_PARAMS, values, {p: values[p] for p, v in USECASE_DEFAULTS.items() if v == values[p]}):
                        agree(rep, 'call' if len(args) + len(kw) == 6 else 'default', f'{uc}[{alg}, {eng}, refraction={refr}]', label, want,
                              attempt(lambda: image(it, it.call(f, args, kw))))
                    if alg == 'psa':
                        for name, v in (('algoritm', alg), ('refracton', refr), ('Engine', eng), ('lat', 0.0), ('spa', alg)):
                            refused(rep, it, f'{uc}(..., {name}={v!r})', lambda: it.call(f, [t, la, lo], {name: v}))
                tasks.append(Task(f'{uc}/{alg}/{eng}/refraction={refr}', fn))

        def meth(it, rep, uc=uc):
            W.declare()
            r = W.simple(it, uc, 'psa', 'numexpr', True, PARTS[uc][0])
            have = set(public_names(it, r))
            for n in PROPERTIES + tuple(METHODS):
                rep.check(n in have, 'names', f'{n} of the result of {uc}() does not exist')
            for n, (params, defaults, domain) in METHODS.items():
                if n not in have:
                    continue
                f = it.getattr(r, n)
                if not isinstance(f, (FuncVal, BoundMethod, Builtin)):
                    rep.check(False, 'names', f'{n} of the result of {uc}() is not a method')
                    continue
                for values in combos(domain, params):
                    want = attempt(lambda: canon(it.call(f, [values[p] for p in params], {})))
                    agree(rep, 'method', n, 'by position', () if want[:1] == ('raises',) else want, want)
                    same = {p: values[p] for p, v in defaults.items() if v == values[p]}
                    for label, args, kw in ways(params, values, same):
                        agree(rep, 'method', f'{n}[{", ".join(map(str, values.values()))}]', label, want, attempt(lambda: canon(it.call(f, args, kw))))
                first = [d[0] for d in (domain[p] for p in params if p not in defaults)]
                refused(rep, it, f'{n}(..., unit="deg")', lambda: it.call(f, first, {'unit': 'deg'}))
            for n, o in ALIASES.items():
                if n in have and o in have:
                    a, b = it.getattr(r, n), it.getattr(r, o)
                    rep.check(getattr(a, 'dims', None) == getattr(b, 'dims', None) and canon(getattr(a, 'arr', a)) == canon(getattr(b, 'arr', b)),
                              'names', f'{n} has other values than {o}, of which it is an alias')
        tasks.append(Task(f'{uc}/methods', meth))

    def names(it, rep):
        W.declare()
        m = W.public(it)
        al = m.ns.get('__all__')
        al = it.to_list(al) if al is not None else []
        for n in NAMES:
            rep.check(n in m.ns, 'names', f'sunwhere.{n} does not exist')
            rep.check(n in al, 'names', f'{n} is not in sunwhere.__all__')
        for n in al:
            rep.check(n in m.ns, 'names', f'sunwhere.__all__ has {n!r}, which does not exist: "from sunwhere import *" raises AttributeError')
        tax, jax, iax = W.axes_for(it, 'sites', 'distinct')
        dt = it.load('sunwhere.utils.datetime')
        for n, params in (('true_solar_time', ('times_utc', 'longitude')), ('universal_time_coordinated', ('times_tst', 'longitude'))):
            fs = [(f'utils.datetime.{n}', dt.ns.get(n))]
            if n in NAMES:
                fs.append((n, m.ns.get(n)))
            for q, f in fs:
                if f is None:
                    rep.check(False, 'names', f'sunwhere.{q} does not exist')
                    continue
                values = {params[0]: W.times_input(it, tax), params[1]: W.coord('lon', jax)}
                want = attempt(lambda: canon(it.call(f, [values[p] for p in params], {})))
                agree(rep, 'method', q, 'by position', () if want[:1] == ('raises',) else want, want)
                for label, args, kw in ways(params, values, {}):
                    agree(rep, 'method', q, label, want, attempt(lambda: canon(it.call(f, args, kw))))
    tasks.append(Task('names', names))
    return tasks
