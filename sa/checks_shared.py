"""Rules on what results say about themselves and on calls made at the same time (C28, C29)."""

import re

from . import arrays as A
from . import m_frame as F
from . import m_xarray as X
from . import shared
from . import terms as T
from . import world as W
from .arrays import Arr
from .checks import check
from .checks_io import ZONES, declare as declare_io, loc_of, times_for
from .checks_misc import alone, canon, reads
from .framework import Task
from .world import COMBOS, PARTS, USECASES

# ---------------------------------------------------------------------------
# C28

ANGLE = ('degrees',)
# name, units (one of; None: nothing about units), a word of the description, values that occur
LABELS = {
    'latitude': ('latitude', ('degrees north',), None, (-90, 90)),
    'longitude': ('longitude', ('degrees east',), None, (-180, 179.9)),
    'true_solar_time': ('true_solar_time', (None, 'TST'), 'solar time', None),
    'ecf': ('ecf', ('-',), 'distance', (0.968, 1.033)),
    'eot': ('eot', ('minutes',), 'equation of time', (-13, 15)),
    'declination': ('declination', ANGLE, 'declination', (-23, 23)),
    'zenith': ('zenith', ANGLE, 'zenith', (0, 180)),
    'elevation': ('elevation', ANGLE, 'elevation', (-90, 90)),
    'azimuth': ('azimuth', ANGLE, 'azimuth', (-180, 180)),
    'cosz': ('cosz', ('-',), 'cosine', (-1, 1)),
    'eth': ('eth', ('W m-2',), 'horizontal', (0, 1400)),
    'airmass': ('airmass', ('-',), 'air mass', (1, 36)),
    'incidence': ('incidence', ('-',), 'incidence', (-1, 1)),
    'daylight_length': ('daylight_length', ('hour',), 'daylight', (0.1, 23.9)),
}
ALIASES = {'dec': 'declination', 'sza': 'zenith', 'saa': 'azimuth'}
LABELS |= {a: LABELS[n] for a, n in ALIASES.items()}
CLOCKS = {'deg': ('degrees',), 'rad': ('radians',), 'tst': ('TST',), 'utc': ('UTC',)}
SPAN = {'deg': 179, 'rad': 3.1}
CALLS = [('eth', ()), ('airmass', ()), ('airmass', ('kasten_1965',)), ('incidence', (30., 10.)), ('daylight_length', ())] + [
    (f, a) for f in ('sunrise', 'sunset') for a in ((), ('deg',), ('rad',), ('tst',), ('utc',), ('local',))]
ATTRS = ('latitude', 'longitude', 'true_solar_time', 'ecf', 'eot', 'declination', 'dec', 'zenith', 'sza', 'elevation', 'azimuth', 'saa', 'cosz')
NUMBER = re.compile(r'[-+]?\d+(?:\.\d+)?')


def label_rule(rep, shown, da, want, loc):
    name, units, word, span = want
    rep.check(da.name == name or shown in ALIASES and da.name == shown, 'name', f'{shown} is named {da.name!r} instead of {name!r}', loc)
    u = da.attrs.get('units')
    rep.check(u in units, 'units', f'the units of {shown} are {u!r} instead of {units[0]!r}', loc)
    d = da.attrs.get('description')
    if d is not None and word is not None:
        rep.check(isinstance(d, str) and word in d.lower(), 'description', f'the description of {shown} is {d!r}', loc)
    rg = da.attrs.get('range')
    if rg is not None:
        x = [float(v) for v in NUMBER.findall(rg)] if isinstance(rg, str) else list(rg) if isinstance(rg, (list, tuple)) else []
        rep.done('range')
        if span and len(x) == 2 and x[0] <= x[1] and not (x[0] <= span[0] and x[1] >= span[1]):
            rep.fail('range', f'{shown} says that its range is {rg}, and takes values from {span[0]} to {span[1]}', loc)


@check('C28',
       'The name and attributes of every array that a result gives (attributes, aliases, methods in every unit) are followed through the '
       'renamings, copies and arithmetic of the source, and compared with the quantity it holds, in two orders of reading.',
       minimum={'name': 500, 'units': 500, 'range': 30}, anchors=['_base.py'],
       assumptions=['arithmetic of data arrays keeps the attributes of the operands that agree, as in the release of xarray in use'])
def c28(tier):
    def make(uc, alg, eng, part, zone):
        def fn(it, rep):
            declare_io()
            tax, jax, iax = W.axes_for(it, uc, part)
            t, tz = times_for(it, 'M8[s]' if zone == 'naive' else 'index', zone, tax)
            r = W.run_usecase(it, uc, t, W.coord('lat', jax), W.coord('lon', iax), alg, engine=eng)
            reads_ = [(n, None) for n in ATTRS] + CALLS
            for order in (reads_, reads_[::-1]):
                for n, args in order:
                    da = it.getattr(r, n) if args is None else W.method(it, r, n, *args)
                    shown = n if args is None else f'{n}({", ".join(map(repr, args))})'
                    if not isinstance(da, X.DataArray):
                        rep.fail('name', f'{shown} is not a DataArray')
                        continue
                    if n in ('sunrise', 'sunset'):
                        unit = args[0] if args else 'deg'
                        u = CLOCKS.get(unit) or (it.getattr(r, 'timezone'),)
                        want = ({'sunrise': 'wsr', 'sunset': 'wss'}[n], u, n, (-SPAN[unit], SPAN[unit]) if unit in SPAN else None)
                    else:
                        want = LABELS[n]
                    label_rule(rep, shown, da, want, loc_of(da))
        return Task(f'{uc}/{alg}/{eng}/{part}/{zone}', fn)
    out = []
    for uc in USECASES:
        for alg, eng in COMBOS:
            for part in PARTS[uc] if tier == 'thorough' else PARTS[uc][:1]:
                for zone in ZONES if (alg, eng) == ('psa', 'numexpr') or tier == 'thorough' else ('naive',):
                    out.append(make(uc, alg, eng, part, zone))
    return out


# ---------------------------------------------------------------------------
# C29

DATA = ('', '2', '3', 'zone')


def data_call(s, uc, alg, eng, suffix):
    """A call with data of its own: other values and refraction ('2'); missing times ('3'); other sizes and a time zone ('zone')."""
    tax, jax, iax = W.axes_for(s, uc, PARTS[uc][1 if suffix == 'zone' else 0])
    refr = suffix != '2'
    if suffix == 'zone':
        t, _ = times_for(s, 'index', 'fixed (datetime)', tax)
        suffix = ''
    else:
        t = Arr((tax,), [T.atom('u' + suffix, W.idx(tax))], 'M8[s]', owner='times')
    return W.run_usecase(s, uc, t, W.coord('lat' + suffix, jax), W.coord('lon' + suffix, iax), alg, refraction=refr, engine=eng)


def declare():
    declare_io()
    for n in '23':
        T.declare('u' + n, lo=W.U_LO, hi=W.U_HI, integer=True, maybe_nan=n == '3')
        T.declare('lat' + n, lo=-90, hi=90)
        T.declare('lon' + n, lo=-180, hi=180, hi_open=True)


def judge(rep, rule, calls):
    """calls: (label, recorder values, list of the events of one call)."""
    values = {}
    for _, vs, _ in calls:
        for loc, ims in vs.items():
            values.setdefault(loc, set()).update(ims)
    variable = {loc for loc, ims in values.items() if len(ims) > 1}
    for label, _, evs in calls:
        for ev in evs:
            rep.done(rule)
            bad = shared.interference(ev, variable)
            if bad:
                how, loc, src = bad
                other = next((x for x, vs, _ in calls if x != label and any(i not in dict(calls_values(calls, label)).get(loc, ()) for i in vs.get(loc, ()))), '')
                rep.fail(rule, f'{shared.place(loc)}, shared by all calls, is {how} by {label}; another call' +
                         (f' ({other})' if other else '') + ' can change it in between', src)
                return


def calls_values(calls, label):
    return next(vs for x, vs, _ in calls if x == label)


def recorded(it, label, call, times=2, prepare=None):
    """Runs the call in an import of its own, twice, recording the accesses to shared state."""
    with alone(it) as s:
        W.public(s)
        s.load('sunwhere.utils.datetime')
        rec = shared.Recorder(s)
        for m in list(s.modules.values()):
            rec.visit(m, (m.name,))
        evs = []
        for k in range(times):
            rec.start()
            call(s)
            evs.append(rec.stop())
    return label, rec.values, evs


@check('C29',
       'Every read and write of state that outlives a call (module and class attributes, containers in them, closures of decorators, '
       'default arguments, arrays changed in place) is recorded while the calls are followed, each in an import of its own and repeated; a '
       'location to which calls with other arguments write other values must not be read back after it was written, nor read twice, in '
       'one call, unless both accesses are made under one hold of a lock. The same is decided for the readings of one result.',
       minimum={'calls': 80, 'readings': 300}, anchors=['_base.py', 'usecases.py', '_core.py', 'datetime.py'],
       assumptions=['numpy, pandas, xarray, numexpr and loguru may be called from several threads'])
def c29(tier):
    tasks = []
    for uc in USECASES:
        def fn(it, rep, uc=uc):
            declare()
            calls = []
            for alg, eng in COMBOS:
                for suffix in DATA[:2]:
                    def call(s, alg=alg, eng=eng, suffix=suffix):
                        r = data_call(s, uc, alg, eng, suffix)
                        if (alg, eng) == ('psa', 'numexpr') or tier == 'thorough':
                            for n, rd in reads(s, r):
                                rd()
                    calls.append(recorded(it, f'{uc}/{alg}/{eng}/data {suffix or 1}', call))
            judge(rep, 'calls', calls)
        tasks.append(Task(f'calls/{uc}', fn, weight=9))

    def across(it, rep):
        declare()
        calls = []
        for uc in USECASES:
            for suffix in DATA:
                def call(s, uc=uc, suffix=suffix):
                    r = data_call(s, uc, 'psa', 'numexpr', suffix)
                    for n, rd in reads(s, r):
                        rd()
                calls.append(recorded(it, f'{uc}/data {suffix or 1}', call))
        for suffix in ('', '2'):
            for f in ('true_solar_time', 'universal_time_coordinated'):
                def call(s, f=f, suffix=suffix):
                    tax, jax, iax = W.axes_for(s, 'sites', 'distinct')
                    t = Arr((tax,), [T.atom('u' + suffix, W.idx(tax))], 'M8[s]', owner='times')
                    s.call(s.load('sunwhere.utils.datetime').ns[f], [t, W.coord('lon' + suffix, jax)], {})
                calls.append(recorded(it, f'{f}/data{suffix or 1}', call))
        judge(rep, 'calls', calls)
    tasks.append(Task('calls/use cases and helpers', across, weight=5))

    for uc in USECASES:
        for alg, eng in COMBOS if tier == 'thorough' else [('psa', 'numexpr'), ('nrel', 'numexpr')]:
            def readings(it, rep, uc=uc, alg=alg, eng=eng):
                W.declare()
                names = [n for n, _ in reads(it, W.simple(it, uc, alg, eng, True, PARTS[uc][0]))]
                calls = []
                with alone(it) as s:
                    for i, n in enumerate(names):
                        r = W.simple(s, uc, alg, eng, True, PARTS[uc][0])
                        rd = reads(s, r)[i][1]
                        rec = shared.Recorder(s)
                        rec.visit(r, ('result',))
                        evs = []
                        for k in range(2):
                            rec.start()
                            rd()
                            evs.append(rec.stop())
                        calls.append((n, rec.values, evs))
                judge(rep, 'readings', calls)
            tasks.append(Task(f'readings/{uc}/{alg}/{eng}', readings, weight=2))
    return tasks


# ---------------------------------------------------------------------------
# C30

INTS = {'i1': (-128, 127), 'i2': None, 'i4': None, 'i8': None, 'u1': (0, 179), 'u2': (0, 179)}


def in_kind(kind, name, ax):
    """The coordinate `name` along `ax` (an axis or a number of elements) as it may be passed."""
    n = ax if isinstance(ax, int) else None
    cells = [T.atom(name, W.idx(ax))] if n is None else [T.atom(name, (T.const(k),)) for k in range(n)]
    a = Arr((ax,), cells, kind if kind in INTS or kind == 'f4' else 'f8', owner=name)
    if kind in ('numbers', 'integers', 'tuple'):
        v = [Arr((), [c], 'pyi' if kind == 'integers' else 'pyf', 'py') for c in cells]
        return tuple(v) if kind == 'tuple' else v
    if kind == 'scalar':
        return Arr((), [T.atom(name, (T.const(0),))], 'pyf', 'py')
    if kind == 'numpy scalar':
        return Arr((), [T.atom(name, (T.const(0),))], 'f8', 'sc')
    if kind == 'Series':
        return F.Series(a)
    if kind == 'DataArray':
        return X.DataArray(a, ('place',), {}, name)
    return a


KINDS = tuple(INTS) + ('f4', 'numbers', 'integers', 'tuple', 'scalar', 'numpy scalar', 'Series', 'DataArray')


@check('C30',
       'Value numbering of every quantity (derived ones included) and of the time conversions for every type and container of latitudes and '
       'longitudes: they must be those of arrays of float64 of the same values, and no arithmetic on the numbers given may wrap around in '
       'their integer type or be done in a float that is narrower than they need.',
       minimum={'same-value': 3000, 'arithmetic': 100}, anchors=['usecases.py', '_core.py', '_base.py', 'datetime.py', 'validate.py'])
def c30(tier):
    def declare(kind):
        declare_io()
        whole = kind in INTS or kind == 'integers'
        lo, hi = INTS.get(kind) or (-180, 179)
        if whole:
            T.declare('lat', lo=max(lo, -90), hi=min(hi, 90), integer=True)
            T.declare('lon', lo=lo, hi=hi, integer=True)

    def sizes(it, uc, kind):
        tax, jax, iax = W.axes_for(it, uc, 'distinct')
        n = 2 if kind in ('numbers', 'integers', 'tuple') else 1 if 'scalar' in kind else None
        if n:
            jax = iax = n
            if uc == 'transect':
                tax = n
        return tax, jax, iax

    def arithmetic(rep, kind):
        rep.done('arithmetic')
        for k, t, src, dst, loc in A.NARROWINGS:
            if T.atoms_of(t) & {'lat', 'lon'} and (k == 'int' or src in INTS and dst in ('f2', 'f4') and INTS.get(src) and kind in INTS):
                rep.fail('arithmetic', f'{T.show(t)[:80]} does not fit in {dst}, the type of the coordinates given' if k == 'int' else
                         f'{T.show(t)[:80]} is computed in {dst} because the coordinates given are {src}', loc)

    tasks = []
    for uc in USECASES:
        for alg, eng in COMBOS:
            for kind in KINDS if (alg, eng) == ('psa', 'numexpr') or tier == 'thorough' else ('i1', 'i8'):
                def fn(it, rep, uc=uc, alg=alg, eng=eng, kind=kind):
                    declare(kind)
                    tax, jax, iax = sizes(it, uc, kind)

                    def run(kind):
                        t = Arr((tax,), [T.atom('u', W.idx(tax))] if not isinstance(tax, int) else
                                [T.atom('u', (T.const(k),)) for k in range(tax)], 'M8[s]', owner='times')
                        A.NARROWINGS.clear()
                        r = W.run_usecase(it, uc, t, in_kind(kind, 'lat', jax), in_kind(kind, 'lon', iax), alg, engine=eng)
                        return {n: f() for n, f in reads(it, r)}
                    want = run('f8')
                    have = run(kind)
                    arithmetic(rep, kind)
                    for n in want:
                        compare(rep, n, have[n], want[n], kind)
                tasks.append(Task(f'{uc}/{alg}/{eng}/{kind}', fn))
    for kind in KINDS:
        for f in ('true_solar_time', 'universal_time_coordinated'):
            def helper(it, rep, kind=kind, f=f):
                declare(kind)
                tax, jax, iax = sizes(it, 'sites', kind)
                fun = it.load('sunwhere.utils.datetime').ns[f]

                def run(kind):
                    A.NARROWINGS.clear()
                    return it.call(fun, [Arr((tax,), [T.atom('u', W.idx(tax))], 'M8[s]', owner='times'), in_kind(kind, 'lon', jax)], {})
                want = run('f8')
                have = run(kind)
                arithmetic(rep, kind)
                compare(rep, f, have, want, kind)
            tasks.append(Task(f'{f}/{kind}', helper))
    return tasks


def untyped(c):
    """The image `c` of a value without the types of its numbers."""
    if isinstance(c, tuple):
        if c and c[0] == 'arr':
            return ('arr', 'number' if A.is_float(c[1]) or A.is_int(c[1]) else c[1]) + c[2:]
        return tuple(untyped(x) for x in c)
    return c


def compare(rep, name, have, want, kind):
    a, b = untyped(canon(have)), untyped(canon(want))
    rep.check(a == b, 'same-value', f'{name} is not, for coordinates given as {kind}, that of the same coordinates in float64',
              loc_of(have) if isinstance(have, (X.DataArray, Arr)) else None)
