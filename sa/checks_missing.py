"""Missing inputs: times (C13, derived quantities) and places (C27)."""

from . import m_time as MT
from . import m_xarray as X
from . import terms as T
from . import world as W
from .arrays import PyExc
from .checks import PLACE_DIMS, check
from .checks_empty import DERIVED
from .checks_io import ZONES
from .framework import Task
from .world import COMBOS, PARTS, QUANT, USECASES

# what depends on the place; '?' where it is not specified
LAT = {'zenith', 'azimuth', 'elevation', 'cosz', 'airmass', 'eth', 'sunrise', 'sunset', 'daylight_length', 'incidence'}
LON = {'zenith', 'azimuth', 'elevation', 'cosz', 'airmass', 'eth', 'true_solar_time', 'incidence'}
NEVER = {'ecf', 'eot', 'declination', 'local_standard_time'}
INPUTS = {'times': 'u', 'latitude': 'lat', 'longitude': 'lon'}
ANGLES = {'azimuth'}


def affected(what, name, args):
    """Whether a missing input makes the quantity missing there: True, False, None (either)."""
    if what == 'times':
        # the hour angle of sunset needs no valid zone; everything is a function of the time
        return True
    if name in NEVER:
        return False
    if name in ('sunrise', 'sunset') and args:
        if args[0] in ('tst', 'utc', 'local'):
            return True
        return what == 'latitude' or None
    if name in ('sunrise', 'sunset', 'daylight_length'):
        return what == 'latitude' or None
    return name in (LAT if what == 'latitude' else LON)


def quantities():
    return [(q, None) for q in QUANT] + DERIVED


def element(it, r, uc, name, args):
    v = it.getattr(r, name)
    if args is not None and not isinstance(v, X.DataArray):
        v = it.call(v, list(args))
    if name == 'local_standard_time' and isinstance(v, MT.PdTimes):
        return W.star(v.arr.cells[0])
    if not isinstance(v, X.DataArray) or len(v.arr.cells) != 1:
        raise W.Violation('type', f'{name} is not a DataArray')
    return W.star(v.arr.cells[0])


def declare(**missing):
    W.declare()
    T.declare('u', lo=W.U_LO, hi=W.U_HI, integer=True, maybe_nan='u' in missing)
    T.declare('lat', lo=-90, hi=90, maybe_nan='lat' in missing)
    T.declare('lon', lo=-180, hi=180, hi_open=True, maybe_nan='lon' in missing)


def same(g, b, angle):
    return g.fp == b.fp or (angle and T.sin(g).fp == T.sin(b).fp and T.cos(g).fp == T.cos(b).fp) or W.same(g, b, lambda x: x.fp)


def task(uc, alg, eng, refr, part, what, names, zone='naive'):
    atom = INPUTS[what]

    def run(it, missing):
        declare(**missing)
        tz = ZONES[zone]()
        return W.simple(it, uc, alg, eng, refr, part, 'M8[s]' if zone == 'naive' else 'index', tz)

    def fn(it, rep):
        ref = run(it, {})
        base = {}
        for name, args in names:
            base[name, args] = element(it, ref, uc, name, args)
        r = run(it, {atom: True})
        ok = T.atom(atom, (T.const(0),)).valid
        known = it.known(ok)
        for name, args in names:
            label = name + (str(args) if args else '')
            rep.done('others')
            try:
                s = element(it, r, uc, name, args)
            except PyExc as e:
                rep.fail('others', f'{label} raises {e.name()} when one of the {what} is missing: {e.msg}', e.loc)
                continue
            b = base[name, args]
            if known is not False:
                g = T.replace(s, {ok.fp: T.TRUE})
                gv = T.replace(s.valid, {ok.fp: T.TRUE})
                if not same(g, b, name in ANGLES):
                    loc, txt = W.show_mismatch(g, b)
                    rep.fail('others', f'{label} of the others changes when one of the {what} is missing: {txt}', loc or s.prov)
                elif not same(gv, b.valid, False):
                    rep.fail('others', f'{label} of the others is defined where {T.show(gv, 4)} instead of {T.show(b.valid, 4)} when one of the '
                                       f'{what} is missing', s.prov)
            aff = affected(what, name, args)
            if aff is None or known is True:
                continue
            rep.done('missing')
            v = T.replace(s.valid, {ok.fp: T.FALSE})
            if aff:
                if v is not T.FALSE:
                    rep.fail('missing', f'{label} is a value although the {what[:-1] if what == "times" else what} is missing: it is defined where {T.show(v, 4)}', s.prov)
            else:
                g = T.replace(s, {ok.fp: T.FALSE})
                if not same(g, b, False) or not same(v, b.valid, False):
                    rep.fail('missing', f'{label} depends on whether the {what} is missing', s.prov)
    return Task(f'{uc}/{alg}/{eng}/refraction={refr}/{part}/{what} missing/{zone}', fn)


@check('C27',
       'Value numbering with definedness: latitudes, or longitudes, that may be NaN carry a definedness atom; for every configuration each result '
       'must have, elsewhere, the value number and the definedness it has without missing places, and be undefined where a place it '
       'depends on is missing. No path may raise.',
       minimum={'others': 1500, 'missing': 1300}, anchors=['_core.py', '_base.py', 'validate.py', 'usecases.py'])
def c27(tier):
    tasks = []
    for alg, eng in COMBOS:
        for refr in (True, False):
            for uc in USECASES:
                for part in PARTS[uc]:
                    full = part == PARTS[uc][0] and ((alg, eng) in (('psa', 'numexpr'), ('psa', 'numpy')) or tier == 'thorough')
                    for what in ('latitude', 'longitude'):
                        tasks.append(task(uc, alg, eng, refr, part, what, quantities() if full and refr else [(q, None) for q in QUANT]))
    for uc in USECASES:
        for zone in ('UTC (datetime)', 'region (zoneinfo)', 'region (pytz)', 'fixed (datetime)'):
            for what in ('latitude', 'longitude'):
                tasks.append(task(uc, 'psa', 'numexpr', True, PARTS[uc][0], what, quantities(), zone))
    return tasks


def missing_times(tier):
    """C13, the derived quantities."""
    tasks = []
    for uc in USECASES:
        for alg, eng in COMBOS:
            tasks.append(task(uc, alg, eng, True, PARTS[uc][0], 'times', DERIVED))
        for zone in ('UTC (datetime)', 'region (zoneinfo)', 'region (pytz)', 'fixed (datetime)'):
            tasks.append(task(uc, 'psa', 'numexpr', True, PARTS[uc][0], 'times', DERIVED, zone))
    return tasks
