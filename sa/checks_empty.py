"""Nothing to compute: no times, no places, or no valid time (C26)."""

from . import arrays as A
from . import m_time as MT
from . import m_xarray as X
from . import terms as T
from . import world as W
from .arrays import Arr, Ax, PyExc
from .checks import PLACE_DIMS, check
from .checks_io import ZONES, declare
from .framework import Task
from .world import COMBOS, QUANT, USECASES, Violation

# which sizes are zero (T times, J latitudes, I longitudes) or, with 'NaT', two times none of which is valid
CASES = {
    'sites': ['T', 'J', 'TJ', 'NaT', 'NaT J', 'NaN', 'T NaN', 'NaT NaN'],
    'regular_grid': ['T', 'J', 'I', 'JI', 'TJI', 'NaT', 'NaT J', 'NaN', 'T NaN'],
    'transect': ['T', 'NaT', 'NaN', 'NaT NaN'],
}
DERIVED = [('elevation', ()), ('cosz', ()), ('airmass', ()), ('airmass', ('kasten_1965',)), ('airmass', ('kasten_and_young_1989',)), ('airmass', ('gueymard_2001',)),
           ('eth', ()), ('eth', (1361.1, 'perez_1990')), ('eth', (1361.1, 'skarveith_1998')), ('eth', (1361.1, 'gonzalez_and_calbo_1999')), ('sunrise', ()), ('sunrise', ('rad',)), ('sunrise', ('tst',)),
           ('sunrise', ('utc',)), ('sunrise', ('local',)), ('sunset', ()), ('sunset', ('rad',)), ('sunset', ('tst',)),
           ('sunset', ('utc',)), ('sunset', ('local',)), ('daylight_length', ()), ('true_solar_time', None),
           ('local_standard_time', None), ('incidence', (30., -60.))]


def inputs(it, uc, case, kind, zone):
    words = case.split()
    nat = 'NaT' in words
    nan = 'NaN' in words
    zero = set(''.join(w for w in words if w not in ('NaT', 'NaN')))
    tax, jax, iax = W.axes_for(it, uc, 'distinct')
    n = 2 if nat else 0 if 'T' in zero else tax
    if nan and uc == 'transect':
        jax = iax = n = 0 if 'T' in zero else 2
    elif uc == 'transect':
        jax = iax = n
    elif nan:
        jax, iax = 2, 2
    else:
        jax = 0 if 'J' in zero else jax
        iax = jax if uc == 'sites' else 0 if 'I' in zero else iax
    tz = ZONES[zone]()

    def cells(name, ax):
        if nan and name in ('lat', 'lon'):
            return [T.nan() for _ in range(ax)]
        if isinstance(ax, Ax):
            return [T.atom(name, W.idx(ax))]
        return [T.atom(name, (T.const(k),)) for k in range(ax)]
    if kind == 'list':
        times = []
    elif nat:
        times = Arr((n,), [T.nan() for _ in range(n)], 'M8[ns]')
    else:
        times = Arr((n,), cells('u', n), 'M8[s]')
    if kind == 'index':
        times = MT.PdTimes(times, tz, 'index')
    lat, lon = (Arr((ax,), cells(m, ax), 'f8') for m, ax in (('lat', jax), ('lon', iax)))
    size = {'time': n, 'location': jax, 'latitude': jax, 'longitude': iax}
    return times, lat, lon, size, nat, nan


def same_size(a, b):
    if isinstance(a, Ax) != isinstance(b, Ax):
        return False
    return a.size.fp == b.size.fp if isinstance(a, Ax) else a == b


def check_empty(rep, name, da, size, missing, dims=None):
    rep.done('shape')
    if not isinstance(da, X.DataArray):
        rep.fail('shape', f'{name} is not a DataArray')
        return
    loc = next((c.prov for c in da.arr.cells if c.prov), None)
    if dims is not None and tuple(da.dims) != tuple(dims):
        rep.fail('shape', f'{name} has dimensions {tuple(da.dims)} instead of {tuple(dims)}', loc)
        return
    for d, a in zip(da.dims, da.arr.axes):
        if d not in size or not same_size(a, size[d]):
            rep.fail('shape', f'{name} has {A.const_dims((a,))[0] if not isinstance(a, Ax) else "a variable number"} of elements along {d}', loc)
            return
    if missing:
        rep.done('missing')
        for c in da.arr.cells:
            if c.valid is not T.FALSE:
                rep.fail('missing', f'{name} is not missing although its time or place is: it is {T.show(c, 4)}', c.prov)
                return


def task(uc, case, alg, eng, refr, kind, zone):
    def fn(it, rep):
        declare()
        times, lat, lon, size, nat, nan = inputs(it, uc, case, kind, zone)
        try:
            r = W.run_usecase(it, uc, times, lat, lon, alg, refraction=refr, engine=eng)
        except PyExc as e:
            rep.done('computed')
            rep.fail('computed', f'{e.name()} is raised: {e.msg}', e.loc)
            return
        rep.done('computed')
        for q in QUANT:
            d = ('time',) if q in W.TIME_ONLY else PLACE_DIMS[uc]
            check_empty(rep, q, it.getattr(r, q), size, nat or nan and q not in W.TIME_ONLY, d)
        for name, args in DERIVED:
            rep.done('derived')
            try:
                v = it.getattr(r, name)
                if args is not None and not isinstance(v, X.DataArray):
                    v = it.call(v, list(args))
            except PyExc as e:
                rep.fail('derived', f'{name}{args or ""} raises {e.name()}: {e.msg}', e.loc)
                continue
            if isinstance(v, X.DataArray):
                check_empty(rep, name, v, size, nat and 'time' in v.dims or nan and name != 'local_standard_time')
        for name in ('times', 'times_utc'):
            rep.done('times')
            x = it.getattr(r, name)
            n = size['time']
            if not isinstance(x, (MT.PdTimes, Arr)) or len((x.arr if isinstance(x, MT.PdTimes) else x).axes) != 1 or \
                    not same_size((x.arr if isinstance(x, MT.PdTimes) else x).axes[0], n):
                rep.fail('times', f'{name} is not an index of as many times as were given')
    return Task(f'{uc}/{case}=none/{alg}/{eng}/refraction={refr}/{kind}/{zone}', fn)


@check('C26',
       'Abstract interpretation of every entry point, algorithm and engine with sizes of zero (times, latitudes, longitudes) and with '
       'times none of which is valid: no path raises, the shapes are the sizes given, and every element for a missing time is missing; so for every '
       'derived quantity. The rule by which numexpr does not broadcast arrays of size zero is part of its model.',
       minimum={'computed': 60, 'shape': 800, 'missing': 200, 'derived': 1000}, anchors=['_core.py', 'usecases.py', '_base.py', 'ne_nrel.py', 'ne_psa.py',
                                                                  'py_psa.py', 'ne_soltrack.py', 'py_soltrack.py', 'ne_iqbal.py', 'py_iqbal.py'])
def c26(tier):
    tasks = []
    for uc in USECASES:
        for case in CASES[uc]:
            for alg, eng in COMBOS:
                for refr in (True, False):
                    if not refr and case not in ('T', 'NaT'):
                        continue
                    tasks.append(task(uc, case, alg, eng, refr, 'M8', 'naive'))
            for zone in ('naive', 'UTC (datetime)', 'region (zoneinfo)', 'region (pytz)', 'fixed (datetime)'):
                tasks.append(task(uc, case, 'psa', 'numexpr', True, 'index', zone))
            if 'T' in case.split()[0] and 'NaT' not in case:
                tasks.append(task(uc, case, 'nrel', 'numexpr', True, 'list', 'naive'))
    return tasks
