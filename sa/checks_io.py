"""Rules on layout, times, containers, missing times and metadata (C03, C09-C14)."""

from fractions import Fraction

from . import terms as T
from . import arrays as A
from . import interp as I
from . import m_time as MT
from . import m_xarray as X
from . import world as W
from .arrays import Arr, Ax, PyExc
from .checks import (LAT_DIM, LON_DIM, PLACE_DIMS, check, combos_refr, dim_axis, got, index_rule, one_cell, qkey,
                     same_value)
from .framework import Task
from .values import Instance, SymStr
from .world import COMBOS, ENGINES, PARTS, QUANT, TIME_ONLY, USECASES, Violation, key

NS = Fraction(10**9)

ZONES = {
    'naive': lambda: None,
    'UTC (datetime)': lambda: MT.utc('datetime'),
    'UTC (pytz)': lambda: MT.utc('pytz'),
    'UTC (zoneinfo)': lambda: MT.utc('zoneinfo'),
    'region (pytz)': lambda: MT.TZ('region', 'Zone/A', 'pytz'),
    'region (zoneinfo)': lambda: MT.TZ('region', 'Zone/A', 'zoneinfo'),
    'fixed (datetime)': lambda: MT.TZ('fixed', 'off', 'datetime', T.atom('off')),
    'fixed (pytz)': lambda: MT.TZ('fixed', 'off', 'pytz', T.atom('off')),
}


def declare(**kw):
    W.declare(**kw)
    T.declare('off', lo=-86399, hi=86399, integer=True)


def times_for(it, kind, zone, tax):
    """(argument, owner of its time axis): the abstract `times` argument of a given container and zone."""
    tz = ZONES[zone]()
    return W.times_input(it, tax, kind, tz), tz


def offset_of(tz, sec):
    return tz.offset(sec) if tz is not None else T.const(0)


def loc_of(da):
    c = da.arr.cells[0] if isinstance(da, X.DataArray) else da.cells[0]
    return c.prov


def expect_array(rep, rule, what, arr, spec, dtype=None):
    """Every cell of `arr` has the value `spec(k)`, k being None or the position along a fixed axis."""
    fixed = A.const_dims(arr.axes)
    n = A.ncells(arr.axes)
    rep.done(rule)
    for k in range(n):
        want = spec(k)
        have = arr.cells[k]
        if key(have) != key(want):
            loc, txt = W.show_mismatch(have, want)
            rep.fail(rule, f'{what} is {T.show(have, 3)} instead of {T.show(want, 3)}' + (f' at position {k}' if fixed else ''), loc)
            return False
    return True


def at(term, k, arr):
    """The input element `term` (an atom at a generic index) for cell k of arr."""
    if not isinstance(arr.axes[0] if arr.axes else 1, Ax):
        return T.subst(term, {n: T.const(k) for n in T.idx_deps(term)})
    return term


def coord_value(rep, name, da, cname, dim, spec):
    cs = da.coords
    rep.done('coordinate')
    if cname not in cs:
        rep.fail('coordinate', f'{name} has no coordinate {cname}', loc_of(da))
        return
    dims, arr = cs[cname]
    if tuple(dims) != (dim,):
        rep.fail('coordinate', f'coordinate {cname} of {name} has dimensions {tuple(dims)} instead of ({dim!r},)', loc_of(da))
        return
    ax = arr.axes[0]
    for k, c in enumerate(arr.cells):
        want = spec(ax.name if isinstance(ax, Ax) else None, k)
        if (c.fp, c.valid.fp) != (want.fp, want.valid.fp):
            rep.fail('coordinate', f'coordinate {cname} of {name} is {T.show(c, 3)} instead of {T.show(want, 3)}', c.prov or loc_of(da))
            return


def element(name, scale=1, f=None):
    def spec(ax, k):
        i = T.idxvar(ax) if ax is not None else T.const(k)
        t = T.atom(name, (i,))
        if f is not None:
            t = f(t)
        return T.scale(t, {0: Fraction(scale)})
    return spec


@check('C03',
       'For every algorithm, engine, use case and every relation between the numbers of times and places, the dimensions of the '
       'quantities, the index each input is read at along each dimension, and the value numbers of their time, latitude and longitude '
       'coordinates are compared with the documented layout (aware and naive times).',
       minimum={'dims': 700, 'coordinate': 1500, 'element-index': 400},
       anchors=['usecases.py', '_core.py', '_base.py'])
def c03(tier):
    tasks = []
    refs = (True, False) if tier == 'thorough' else (True,)
    for alg, eng in COMBOS:
        for refr in refs:
            for uc in USECASES:
                for part in PARTS[uc]:
                    zones = list(ZONES) if tier == 'thorough' else (['naive', 'region (zoneinfo)'] if part == 'distinct' else ['naive'])
                    for zone in zones:
                        def fn(it, rep, alg=alg, eng=eng, refr=refr, uc=uc, part=part, zone=zone):
                            declare()
                            tax, jax, iax = W.axes_for(it, uc, part)
                            times, tz = times_for(it, 'M8[s]' if zone == 'naive' else 'index', zone, tax)
                            r = W.run_usecase(it, uc, times, W.coord('lat', jax), W.coord('lon', iax), alg, refraction=refr, engine=eng)
                            wall = element('u', NS, lambda u: T.add(u, offset_of(tz, u)))
                            for q in QUANT + ('elevation', 'cosz'):
                                da = got(it, r, q)
                                want = ('time',) if q in TIME_ONLY else PLACE_DIMS[uc]
                                rep.check(tuple(da.dims) == want, 'dims', f'{q} has dimensions {tuple(da.dims)} instead of {want}', loc_of(da))
                                if tuple(da.dims) != want:
                                    continue
                                for d in want:
                                    size = {'time': tax, 'location': jax, 'latitude': jax, 'longitude': iax}[d]
                                    a = da.arr.axes[want.index(d)]
                                    rep.check(A.size_term(a).fp == A.size_term(size).fp, 'size',
                                              f'{q} has size {T.show(A.size_term(a), 2)} along {d}', loc_of(da))
                                index_rule(rep, uc, q, da)
                                coord_value(rep, q, da, 'time', 'time', wall)
                                if q not in TIME_ONLY:
                                    coord_value(rep, q, da, 'latitude', LAT_DIM[uc], element('lat'))
                                    coord_value(rep, q, da, 'longitude', LON_DIM[uc], element('lon'))
                        tasks.append(Task(f'{uc}/{alg}/{eng}/refraction={refr}/{part}/{zone}', fn))
    return tasks


# ---------------------------------------------------------------------------

CONTAINERS = {
    'naive': ['M8[s]', 'M8[m]', 'M8[h]', 'M8[D]', 'M8[ms]', 'M8[us]', 'M8[ns]', 'index', 'index_ns', 'list', 'timestamps', 'm8list',
              'datetime', 'stamp', 'scalar'],
    'aware': ['index', 'index_ns', 'list', 'timestamps', 'datetime', 'stamp'],
}


def ref_times(it, tax, sec):
    """Plain datetime64[s] times whose seconds are sec(u or un)."""
    return Arr((tax,), [sec], 'M8[s]')


def base_values(it, uc, alg, eng, refr, kind):
    """Acceptable value numbers of the five quantities for the instants of a container."""
    tax, jax, iax = W.axes_for(it, uc, 'distinct')
    i = (T.idxvar('t'),)
    if kind.endswith('ns') or kind == 'M8[ns]':
        un = T.atom('un', i)
        s = T.scale(un, {0: 1 / NS})
        us = T.floor(T.scale(un, {0: Fraction(1, 1000)}))
        ms = T.floor(T.scale(un, {0: Fraction(1, 10**6)}))
        secs = [T.floor(s), s, T.scale(us, {0: Fraction(1, 10**6)}), T.scale(ms, {0: Fraction(1, 1000)}), T.rnd(s)]
    else:
        secs = [T.atom('u', i)]
    out = []
    for n, s in enumerate(secs):
        out.append(lambda s=s: {q: one_cell(got(it, W.run_usecase(it, uc, ref_times(it, tax, s), W.coord('lat', jax), W.coord('lon', iax),
                                                                   alg, refraction=refr, engine=eng), q), q) for q in QUANT})
    return out


def axes_of_container(it, uc, kind):
    """Axes when the container fixes the number of times."""
    tax, jax, iax = W.axes_for(it, uc, 'distinct')
    if kind in ('list', 'datetimes', 'timestamps', 'm8list'):
        tax = 2
    elif kind in ('datetime', 'stamp', 'scalar'):
        tax = 1
    if uc == 'transect':
        jax = iax = tax
    return tax, jax, iax


def coord_arg(name, ax):
    """A latitude or longitude argument along `ax` (which may be a fixed number)."""
    if isinstance(ax, Ax):
        return W.coord(name, ax)
    return Arr((ax,), [T.atom(name, (T.const(k),)) for k in range(ax)], 'f8', owner=name)


def time_positions(da):
    """For each cell of da, its position along a fixed time axis (None when the axis is symbolic)."""
    i = da.dims.index('time')
    fixed = [n for n, a in enumerate(da.arr.axes) if not isinstance(a, Ax)]
    sizes = [da.arr.axes[n] for n in fixed]
    out = []
    for c in range(A.ncells(da.arr.axes)):
        pos, rem = {}, c
        for n, s in zip(reversed(fixed), reversed(sizes)):
            pos[n] = rem % s
            rem //= s
        out.append(pos.get(i))
    return out


def star_at(t, k):
    """t for the generic element: every symbolic index replaced by 0, and element k of fixed axes by 0 too.  Returns (term, ok)
    where ok tells that times are read at position k only."""
    return t


@check('C10',
       'Value numbering of the five quantities for every container of times (datetime64 of each unit, DatetimeIndex of seconds and nanoseconds, '
       'lists, scalars) naive and with every kind of time zone: they must be those of plain UTC datetime64 seconds of the same instants (for '
       'sub-second input: of the instants floored to a second, or finer). Conversions of values that depend on time to a narrower '
       'type are reported.',
       minimum={'same-instant': 700, 'precision': 100, 'whole-seconds': 150}, anchors=['usecases.py', '_core.py', '_base.py', 'validate.py'])
def c10(tier):
    tasks = []
    for alg, eng in COMBOS:
        for uc in USECASES:
            for zone in ZONES:
                kinds = CONTAINERS['naive' if zone == 'naive' else 'aware']
                if tier != 'thorough' and (alg, eng) != ('psa', 'numexpr'):
                    kinds = ['M8[ns]', 'index', 'stamp'] if zone == 'naive' else ['index'] if zone in ('region (zoneinfo)', 'fixed (pytz)') else []
                for kind in kinds:
                    def fn(it, rep, alg=alg, eng=eng, uc=uc, zone=zone, kind=kind):
                        declare()
                        accept = base_values(it, uc, alg, eng, True, kind)
                        tax, jax, iax = axes_of_container(it, uc, kind)
                        times, tz = times_for(it, kind, zone, tax)
                        A.NARROWINGS.clear()
                        r = W.run_usecase(it, uc, times, coord_arg('lat', jax), coord_arg('lon', iax), alg, refraction=True, engine=eng)
                        narrow = list(A.NARROWINGS)
                        vals = [accept[0]()]
                        for q in QUANT:
                            da = got(it, r, q)
                            pos = time_positions(da)
                            for c, k in zip(da.arr.cells, pos):
                                def want(v, k=k):
                                    t = v[q]
                                    return T.subst(t, {n: T.const(k) if n == 't' or uc == 'transect' else T.const(0)
                                                       for n in T.idx_deps(t)}) if k is not None else t
                                rep.done('same-instant')
                                n = 0
                                while True:
                                    if qkey(q, c) == qkey(q, want(vals[n])):
                                        break
                                    n += 1
                                    if n == len(vals):
                                        if n == len(accept):
                                            loc, txt = W.show_mismatch(c, want(vals[0]))
                                            rep.fail('same-instant', f'{q} is not that of the instant given as {kind}, {zone}: {txt}', loc)
                                            break
                                        vals.append(accept[n]())
                                if n == len(vals):
                                    break
                        rep.done('precision')
                        for k, term, src, dst, loc in narrow:
                            if T.atoms_of(term) & {'u', 'un'}:
                                rep.fail('precision', f'{src} is narrowed to {dst}, which cannot hold it' if k == 'int'
                                         else f'a value that depends on time is narrowed from {src} to {dst}', loc)
                    tasks.append(Task(f'{uc}/{alg}/{eng}/{zone}/{kind}', fn))
    # every second counts: with times 60*m + s (m >= 0, where truncation and floor agree), each quantity depends on s
    for alg, eng in COMBOS:
        for uc in USECASES:
            for kind in ('M8[s]', 'index'):
                def fn(it, rep, alg=alg, eng=eng, uc=uc, kind=kind):
                    declare()
                    T.declare('minute', lo=0, hi=W.U_HI // 60, integer=True)
                    T.declare('second', lo=0, hi=59, integer=True)
                    tax, jax, iax = W.axes_for(it, uc, 'distinct')
                    c = T.add(T.scale(T.atom('minute', W.idx(tax)), {0: Fraction(60)}), T.atom('second', W.idx(tax)))
                    times = Arr((tax,), [c], 'M8[s]', owner='times')
                    if kind == 'index':
                        times = MT.PdTimes(times, None, 'index')
                    r = W.run_usecase(it, uc, times, W.coord('lat', jax), W.coord('lon', iax), alg, engine=eng)
                    for q in QUANT:
                        t = one_cell(got(it, r, q), q)
                        rep.check('second' in T.atoms_of(t), 'whole-seconds', f'{q} is the same at all seconds of a minute',
                                  floor_loc(t, 'minute'))
                        at = {k: qkey(q, T.replace(t, {x.fp: T.const(k) for x in T.walk(t) if x.op == 'atom' and x.data == 'second'}))
                              for k in (0, 1, 29, 30, 31, 58, 59)}
                        for a, b in ((0, 1), (29, 30), (30, 31), (58, 59)):
                            rep.check(at[a] != at[b], 'whole-seconds', f'{q} is the same at seconds {a} and {b} of a minute',
                                      floor_loc(t, 'minute'))
                tasks.append(Task(f'{uc}/{alg}/{eng}/seconds/{kind}', fn))
    return tasks


def floor_loc(t, name):
    """Where the term first uses the atom."""
    for x in T.walk(t):
        if x.prov is not None and any(a.op == 'atom' and a.data == name for y in x.args for a in (y,) + tuple(y.args)):
            return x.prov
    return t.prov


# ---------------------------------------------------------------------------

def str_key(v):
    if isinstance(v, SymStr):
        return ('sym',) + tuple(p if isinstance(p, str) else (p[0], p[1].key() if isinstance(p[1], MT.TZ) else p[1]) for p in v.parts)
    return v


def check_index(rep, rule, what, idx, tz, term, ns, it):
    """idx is a time index with zone tz and instants `term(k)` (seconds)."""
    rep.done(rule)
    if not isinstance(idx, MT.PdTimes):
        rep.fail(rule, f'{what} is not a time index but {it.tname(idx)}')
        return
    if (idx.tz is None) != (tz is None) or (idx.tz is not None and idx.tz.key() != tz.key()):
        rep.fail(rule, f'{what} has time zone {idx.tz and idx.tz.name} instead of {tz and tz.name}', idx.arr.cells[0].prov)
        return
    k = MT.PERSEC[A.unit(idx.arr.dtype)]
    if len(idx.arr.axes) != 1:
        rep.fail(rule, f'{what} has {len(idx.arr.axes)} dimensions', idx.arr.cells[0].prov)
        return
    ax = idx.arr.axes[0]
    for n, c in enumerate(idx.arr.cells):
        i = T.idxvar(ax.name) if isinstance(ax, Ax) else T.const(n)
        want = T.scale(T.atom('un', (i,)), {0: 1 / (NS * k)}) if ns else T.scale(T.atom('u', (i,)), {0: 1 / Fraction(k)})
        if (c.fp, c.valid.fp) != (want.fp, want.valid.fp):
            rep.fail(rule, f'{what} holds {T.show(c, 3)} instead of {T.show(want, 3)}', c.prov)
            return


COORD_KINDS = ('f8', 'list', 'scalar', 'pyscalar', 'i8', 'f4', 'index1')


def coord_variant(name, kind, ax):
    if kind == 'f8':
        return W.coord(name, ax), None
    if kind in ('i8', 'f4'):
        a = Arr((ax,), [T.atom(name, W.idx(ax))], kind, owner=name)
        return a, None
    one = T.atom(name, (T.const(0),))
    if kind == 'list':
        return [A.pyfloat(T.atom(name, (T.const(k),))) for k in range(2)], 2
    if kind == 'pyscalar':
        return A.pyfloat(one), 1
    if kind == 'scalar':
        return Arr((), [one], 'f8', 'sc'), 1
    return Arr((), [one], 'f8'), 1


@check('C11',
       'Value numbering of times, times_utc, timezone, latitude, longitude and of the settings stored in the result, for every use case, '
       'container of times, kind of time zone and container of coordinates.',
       minimum={'times': 150, 'times_utc': 150, 'timezone': 150, 'latitude': 150, 'longitude': 150, 'coordinate': 300, 'settings': 300},
       anchors=['usecases.py', '_base.py'])
def c11(tier):
    tasks = []
    for uc in USECASES:
        for zone in ZONES:
            for kind in CONTAINERS['naive' if zone == 'naive' else 'aware']:
                def fn(it, rep, uc=uc, zone=zone, kind=kind):
                    declare()
                    tax, jax, iax = axes_of_container(it, uc, kind)
                    times, tz = times_for(it, kind, zone, tax)
                    r = W.run_usecase(it, uc, times, coord_arg('lat', jax), coord_arg('lon', iax), 'psa')
                    ns = kind in ('M8[ns]', 'index_ns')
                    want_tz = tz or MT.utc()
                    check_index(rep, 'times', 'times', it.getattr(r, 'times'), want_tz, None, ns, it)
                    check_index(rep, 'times_utc', 'times_utc', it.getattr(r, 'times_utc'), MT.utc(), None, ns, it)
                    z = it.getattr(r, 'timezone')
                    wz = want_tz.str(it)
                    rep.check(str_key(z) == str_key(wz), 'timezone', f'timezone is {it.text(z)} instead of {it.text(wz)}')
                    meta(it, rep, r, uc, 'psa', 'numexpr', True)
                    for c, nm in (('lat', 'latitude'), ('lon', 'longitude')):
                        place(it, rep, r, uc, c, nm)
                    sec = (lambda u: T.scale(u, {0: 1 / Fraction(NS)})) if ns else (lambda u: u)
                    wall = element('un' if ns else 'u', NS, lambda u: T.add(sec(u), offset_of(want_tz, sec(u))))
                    for q in ('zenith', 'declination', 'true_solar_time'):
                        da = it.getattr(r, q)
                        if isinstance(da, X.DataArray):
                            coord_value(rep, q, da, 'time', 'time', wall)
                tasks.append(Task(f'{uc}/{zone}/{kind}', fn))
        for ck in COORD_KINDS:
            def fn2(it, rep, uc=uc, ck=ck):
                declare()
                tax, jax, iax = W.axes_for(it, uc, 'distinct')
                lat, n = coord_variant('lat', ck, jax)
                lon, n = coord_variant('lon', ck, iax)
                times, tz = times_for(it, 'M8[s]', 'naive', n if (n and uc == 'transect') else tax)
                if n and uc == 'transect':
                    times = Arr((n,), [T.atom('u', (T.const(k),)) for k in range(n)], 'M8[s]')
                r = W.run_usecase(it, uc, times, lat, lon, 'psa')
                for c, nm in (('lat', 'latitude'), ('lon', 'longitude')):
                    place(it, rep, r, uc, c, nm)
            tasks.append(Task(f'{uc}/coordinates as {ck}', fn2))
        for alg, eng in COMBOS:
            for refr in (True, False):
                def fn3(it, rep, uc=uc, alg=alg, eng=eng, refr=refr):
                    declare()
                    r = W.simple(it, uc, alg, eng, refr)
                    meta(it, rep, r, uc, alg, eng, refr)
                tasks.append(Task(f'{uc}/{alg}/{eng}/refraction={refr}', fn3))
    return tasks


def meta(it, rep, r, uc, alg, eng, refr):
    for name, want in (('algorithm', alg), ('engine', eng), ('usecase', uc), ('has_refraction', refr)):
        v = it.getattr(r, name)
        if isinstance(v, Arr):
            c = T.const_fraction(v.cells[0])
            v = bool(c) if c is not None else v
        rep.check(type(v) is type(want) and v == want, 'settings', f'{name} is {v!r} instead of {want!r}')


def place(it, rep, r, uc, c, nm):
    da = it.getattr(r, nm)
    rep.done(nm)
    if not isinstance(da, X.DataArray):
        rep.fail(nm, f'{nm} is not a DataArray')
        return
    d = (LAT_DIM if nm == 'latitude' else LON_DIM)[uc]
    if tuple(da.dims) != (d,):
        rep.fail(nm, f'{nm} has dimensions {tuple(da.dims)} instead of ({d!r},)', loc_of(da))
        return
    ax = da.arr.axes[0]
    for k, cell in enumerate(da.arr.cells):
        want = T.atom(c, (T.idxvar(ax.name) if isinstance(ax, Ax) else T.const(k),))
        if cell.fp != want.fp or cell.valid.fp != want.valid.fp:
            rep.fail(nm, f'{nm} is {T.show(cell, 3)} instead of {T.show(want, 3)}', cell.prov)
            return
    for q in ('zenith', nm):
        x = it.getattr(r, q)
        if isinstance(x, X.DataArray) and (q == 'zenith' or nm in x.coords):
            coord_value(rep, q, x, nm, d, element(c))


# ---------------------------------------------------------------------------

@check('C13',
       'Value numbering with definedness: times that may be NaT carry a definedness atom; for every configuration each quantity must have the value '
       'number it has without missing times (so must each derived quantity), and must be defined exactly where that and its own instant are (no instant may be '
       'placed or altered by the missing state of another).',
       minimum={'value': 1100, 'missing': 1500, 'element-index': 1100, 'others': 500}, anchors=['_core.py', 'usecases.py', '_base.py'])
def c13(tier):
    tasks = []
    for alg, eng, refr in combos_refr():
        for uc in USECASES:
            parts = PARTS[uc]
            for part in parts:
                def fn(it, rep, alg=alg, eng=eng, refr=refr, uc=uc, part=part):
                    W.declare()
                    ref = W.simple(it, uc, alg, eng, refr, part)
                    rv = {q: one_cell(got(it, ref, q), q) for q in QUANT}
                    base = {q: W.star(t) for q, t in rv.items()}
                    W.declare(nat=True)
                    r = W.simple(it, uc, alg, eng, refr, part)
                    ok = T.atom('u', (T.const(0),)).valid
                    known = it.known(ok)
                    for q in QUANT:
                        da = got(it, r, q)
                        t = one_cell(da, q)
                        index_rule(rep, uc, q, da)
                        s = W.star(t)
                        rep.done('value')
                        g = T.replace(s, {ok.fp: T.TRUE})
                        same = known is False or g.fp == base[q].fp or (q == 'azimuth' and T.sin(g).fp == T.sin(base[q]).fp and T.cos(g).fp == T.cos(base[q]).fp)
                        if not same:
                            loc, txt = W.show_mismatch(g, base[q])
                            rep.fail('value', f'{q} of the other times changes when some are NaT: {txt}', loc)
                        rep.done('missing')
                        want = base[q].valid if known is True else T.FALSE if known is False else T.band(base[q].valid, ok)
                        if (T.replace(s.valid, {ok.fp: T.TRUE}) if known is True else s.valid).fp != want.fp:
                            rep.fail('missing', f'{q} is defined where {T.show(s.valid, 3)}, not exactly where its time is not NaT', t.prov)
                tasks.append(Task(f'{uc}/{alg}/{eng}/refraction={refr}/{part}', fn))
    from .checks_missing import missing_times
    return tasks + missing_times(tier)
