"""Rules on the derived quantities (C15-C20)."""

from fractions import Fraction

from . import terms as T
from . import arrays as A
from . import m_numpy as NP
from . import m_time as MT
from . import m_xarray as X
from . import specs as S
from . import world as W
from .arrays import Arr, Ax, PyExc
from .checks import LAT_DIM, LON_DIM, PLACE_DIMS, check, got
from .checks_io import NS, ZONES, check_index, declare, loc_of, offset_of, times_for
from .framework import Task
from .world import COMBOS, PARTS, USECASES, Violation

DEG = {0: Fraction(1)}


def value(da, name, dims=None, rep=None):
    """The generic element of a DataArray, its index variables named after the dimensions."""
    if not isinstance(da, X.DataArray):
        raise Violation('type', f'{name} is not a DataArray')
    if len(da.arr.cells) != 1:
        raise Violation('shape', f'{name} has fixed sizes {A.const_dims(da.arr.axes)}')
    if dims is not None and set(da.dims) != set(dims):
        raise Violation('dims', f'{name} has dimensions {tuple(da.dims)} instead of {tuple(dims)}', da.arr.cells[0].prov)
    m = {a.name: T.idxvar('@' + d) for a, d in zip(da.arr.axes, da.dims) if isinstance(a, Ax)}
    return T.subst(da.arr.cells[0], m)


def val(it, r, name, dims=None):
    return value(it.getattr(r, name), name, dims)


def seconds(t, dtype):
    """Time value in seconds."""
    return T.scale(t, {0: Fraction(A._UNITS[A.unit(dtype)])})


def same_term(rep, rule, name, t, want, what='differs from its definition'):
    rep.done(rule)
    if W.same(t, want, lambda x: x.fp):
        return True
    loc, txt = W.show_mismatch(t, want)
    rep.fail(rule, f'{name} {what}: {txt}', loc or t.prov)
    return False


def defined(rep, rule, name, t, *conds):
    """t is defined exactly where one of the conditions is (they differ on a boundary at most)."""
    rep.done(rule)
    if not any(t.valid.fp == c.fp for c in conds) and not any(W.same(t.valid, c, lambda x: x.fp) for c in conds):
        rep.fail(rule, f'{name} is defined where {T.show(t.valid, 5)} instead of {T.show(conds[0], 5)}', t.prov)
        return False
    return True


def coords_like(rep, name, da, ref, dims, aux=True):
    """The coordinates of da are those of ref (a quantity of all instants and places)."""
    rep.done('coordinates')
    for c, (cd, arr) in ref.coords.items():
        if not set(cd) <= set(dims):
            continue
        if c not in da.coords and c not in dims and not aux:
            continue
        if c not in da.coords:
            rep.fail('coordinates', f'{name} lacks the coordinate {c}', loc_of(da))
            return
        d2, arr2 = da.coords[c]
        if tuple(d2) != tuple(cd) or not X.same_values(arr, arr2):
            rep.fail('coordinates', f'coordinate {c} of {name} is {T.show(arr2.cells[0], 3)} along {tuple(d2)} instead of '
                     f'{T.show(arr.cells[0], 3)} along {tuple(cd)}', arr2.cells[0].prov)
            return


def variants(tier, zones=('naive',), parts=None):
    """(use case, algorithm, engine, refraction, size relation, zone)"""
    out = []
    for uc in USECASES:
        for alg, eng in COMBOS:
            for refr in (True, False):
                ps = parts or PARTS[uc]
                if tier != 'thorough':
                    full = (alg, eng, refr) == ('psa', 'numexpr', True)
                    ps = ps if full else ps[:1]
                for part in ps:
                    if part not in PARTS[uc]:
                        continue
                    for z in zones:
                        out.append((uc, alg, eng, refr, part, z))
    return out


def result(it, uc, alg, eng, refr, part, zone):
    declare()
    tax, jax, iax = W.axes_for(it, uc, part)
    times, tz = times_for(it, 'M8[s]' if zone == 'naive' else 'index', zone, tax)
    r = W.run_usecase(it, uc, times, W.coord('lat', jax), W.coord('lon', iax), alg, refraction=refr, engine=eng)
    return r, tz


def tasks_for(vs, body):
    out = []
    for v in vs:
        def fn(it, rep, v=v):
            r, tz = result(it, *v)
            body(it, rep, r, v[0], tz)
        uc, alg, eng, refr, part, zone = v
        out.append(Task(f'{uc}/{alg}/{eng}/refraction={refr}/{part}/{zone}', fn))
    return out


def dims_of(uc, *which):
    """Dimensions of a quantity of the time, latitude and longitude given, in use case uc."""
    out = []
    for w in which:
        d = {'time': 'time', 'latitude': LAT_DIM[uc], 'longitude': LON_DIM[uc]}[w]
        if d not in out:
            out.append(d)
    return out


def utc_of(it, r):
    """Seconds since the epoch of the instants of the result."""
    x = it.getattr(r, 'times_utc')
    if not isinstance(x, MT.PdTimes):
        raise Violation('type', 'times_utc is not a time index')
    ax = x.arr.axes[0]
    c = seconds(x.arr.cells[0], x.arr.dtype)
    return T.subst(c, {ax.name: T.idxvar('@time')}) if isinstance(ax, Ax) else c


@check('C15',
       'Value numbering of elevation, cosz and the aliases sza, saa and dec against their definition from the zenith, azimuth and declination '
       'of the same result, element by element along the named dimensions, with their coordinates.',
       minimum={'definition': 500, 'coordinates': 250}, anchors=['_base.py'])
def c15(tier):
    def body(it, rep, r, uc, tz):
        zen = got(it, r, 'zenith')
        z = value(zen, 'zenith')
        for name, of, fn in (('elevation', 'zenith', 'elevation'), ('cosz', 'zenith', 'cosz'), ('sza', 'zenith', None),
                             ('saa', 'azimuth', None), ('dec', 'declination', None)):
            src = got(it, r, of)
            da = got(it, r, name)
            rep.check(tuple(da.dims) == tuple(src.dims), 'dims', f'{name} has dimensions {tuple(da.dims)}, {of} has {tuple(src.dims)}', loc_of(da))
            t = value(da, name, src.dims)
            s = value(src, of)
            same_term(rep, 'definition', name, t, S.call(it, 'derived', fn, s) if fn else s, f'does not follow from {of}')
            defined(rep, 'definition', name, t, s.valid)
            coords_like(rep, name, da, src, src.dims)
    return tasks_for(variants(tier), body)


CLOCK = ('tst', 'utc', 'local')


@check('C16',
       'Value numbering of sunrise(), sunset() and daylight_length() in every unit against the spherical formula and its conversion to clock '
       'times, with the definedness of each (sun rises and sets on the day), in every use case and kind of time zone.',
       minimum={'definition': 600, 'defined': 600, 'unknown-unit': 40}, anchors=['_base.py'])
def c16(tier):
    def body(it, rep, r, uc, tz):
        lat, lon = val(it, r, 'latitude'), val(it, r, 'longitude')
        dec, eot = val(it, r, 'declination'), val(it, r, 'eot')
        utc = utc_of(it, r)
        off = offset_of(tz, utc)
        ws = S.call(it, 'derived', 'sunrise_deg', lat, dec)
        c = S.call(it, 'derived', 'sunrise_cos', lat, dec)
        one = T.const(1)
        ok = T.band(T.le(T.neg(one), c), T.le(c, one))
        strict = T.band(T.lt(T.neg(one), c), T.lt(c, one))
        two = dims_of(uc, 'time', 'latitude')
        zen = got(it, r, 'zenith')

        def angle(name, da, want, kind='definition'):
            t = value(da, name, two)
            same_term(rep, 'definition', name, t, want)
            defined(rep, 'defined', name, t, ok, strict)
            coords_like(rep, name, da, zen, two, aux=False)

        angle('sunrise()', W.method(it, r, 'sunrise'), ws)
        angle('sunset()', W.method(it, r, 'sunset'), T.neg(ws))
        for f, sg in (('sunrise', 1), ('sunset', -1)):
            for unit, k in (('deg', {0: Fraction(1)}), ('rad', {1: Fraction(1, 180)})):
                angle(f"{f}('{unit}')", W.method(it, r, f, unit), T.scale(T.scale(ws, {0: Fraction(sg)}), k))
            for unit in CLOCK:
                name = f"{f}('{unit}')"
                da = W.method(it, r, f, unit)
                if not isinstance(da, X.DataArray) or not da.arr.dtype.startswith('M8'):
                    raise Violation('type', f'{name} is not an array of times')
                dims = dims_of(uc, 'time', 'latitude', 'longitude')
                t = value(da, name, dims)
                want = S.call(it, 'derived', 'clock', Arr((), [T.const(-sg)], 'f8', 'sc'), unit, utc, lon, lat, eot, dec, off)
                same_term(rep, 'definition', name, seconds(t, da.arr.dtype), want)
                defined(rep, 'defined', name, t, ok, strict)
                coords_like(rep, name, da, zen, dims, aux=False)
            for bad in ('hours', 'degrees', '', None):
                rep.done('unknown-unit')
                try:
                    W.method(it, r, f, bad)
                except PyExc as e:
                    rep.check(e.etype is ValueError, 'unknown-unit', f'{f}({bad!r}) raises {e.name()}', e.loc)
                else:
                    rep.fail('unknown-unit', f'{f}({bad!r}) does not raise ValueError')
        angle('daylight_length()', W.method(it, r, 'daylight_length'), S.call(it, 'derived', 'daylight_length', lat, dec))

    def guarded(*args):
        # an inverse cosine outside its domain is the way to say: no sunrise
        NP.NAN_DOMAIN[0] = True
        try:
            body(*args)
        finally:
            NP.NAN_DOMAIN[0] = False
    zones = tuple(ZONES) if tier == 'thorough' else ('naive', 'region (zoneinfo)', 'fixed (pytz)')
    vs = variants(tier, zones)
    if tier != 'thorough':
        vs = [v for v in vs if v[5] == 'naive' or v[1:4] == ('psa', 'numexpr', True)]
    return tasks_for(vs, guarded)


@check('C17',
       'Value numbering of true_solar_time and local_standard_time of results, and of the helper functions true_solar_time() and '
       'universal_time_coordinated() over the containers they take, against UTC + 4 min per degree + equation of time.',
       minimum={'definition': 50, 'times': 50, 'forwards': 8, 'backwards': 8}, anchors=['_base.py', 'datetime.py'])
def c17(tier):
    def body(it, rep, r, uc, tz):
        dims = dims_of(uc, 'time', 'longitude')
        da = got(it, r, 'true_solar_time')
        if not da.arr.dtype.startswith('M8'):
            raise Violation('type', 'true_solar_time is not an array of times')
        t = value(da, 'true_solar_time', dims)
        want = S.call(it, 'derived', 'true_solar_time', utc_of(it, r), val(it, r, 'longitude'), val(it, r, 'eot'))
        same_term(rep, 'definition', 'true_solar_time', seconds(t, da.arr.dtype), want)
        rep.check(A.unit(da.arr.dtype) not in ('s', 'm', 'h', 'D'), 'precision', f'true_solar_time is truncated to {da.arr.dtype}', t.prov)
        coords_like(rep, 'true_solar_time', da, got(it, r, 'zenith'), dims, aux=False)
        check_index(rep, 'times', 'local_standard_time', it.getattr(r, 'local_standard_time'), tz or MT.utc(), None, False, it)
    zones = tuple(ZONES) if tier == 'thorough' else ('naive', 'region (zoneinfo)', 'fixed (pytz)')
    vs = variants(tier, zones)
    if tier != 'thorough':
        vs = [v for v in vs if v[5] == 'naive' or v[1:4] == ('psa', 'numexpr', True)]
    out = tasks_for(vs, body)
    for fn_name, sign, rule in (('true_solar_time', 1, 'forwards'), ('universal_time_coordinated', -1, 'backwards')):
        for tk in ('M8[s]', 'M8[ns]', 'M8[m]', 'scalar', 'datetime', 'list', 'index'):
            for lk in ('array', 'pyscalar', 'list'):
                def fn(it, rep, fn_name=fn_name, sign=sign, rule=rule, tk=tk, lk=lk):
                    declare()
                    tax, jax, iax = W.axes_for(it, 'sites', 'distinct')
                    one_time = tk in ('scalar', 'datetime')
                    n_times = 1 if one_time else 2 if tk == 'list' else None
                    kind = {'list': 'datetimes'}.get(tk, tk)
                    times = W.times_input(it, tax, kind)
                    lon = {'array': lambda: W.coord('lon', jax), 'pyscalar': lambda: A.pyfloat(T.atom('lon', (T.const(0),))),
                           'list': lambda: [A.pyfloat(T.atom('lon', (T.const(k),))) for k in range(2)]}[lk]()
                    n_lons = {'array': None, 'pyscalar': 1, 'list': 2}[lk]
                    f = it.load('sunwhere.utils.datetime').ns[fn_name]
                    v = it.call(f, [times, lon], {})
                    if not isinstance(v, Arr):
                        raise Violation('type', f'{fn_name} returns {it.tname(v)}')
                    if not v.dtype.startswith('M8'):
                        raise Violation('type', f'{fn_name} returns {v.dtype}')
                    ref = W.simple(it, 'sites', 'psa', 'numexpr', True)
                    eot = T.subst(val(it, ref, 'eot'), {'@time': T.idxvar('T')})
                    if kind == 'M8[ns]':
                        un = T.atom('un', (T.idxvar('T'),))
                        u = T.scale(un, {0: 1/NS})
                        e2 = T.replace(eot, {T.atom('u', (T.idxvar('T'),)).fp: T.floor(u)})
                        eots = [e2, T.replace(eot, {T.atom('u', (T.idxvar('T'),)).fp: u})]
                    else:
                        u = T.atom('u', (T.idxvar('T'),))
                        eots = [eot]
                    lont = T.atom('lon', (T.idxvar('J'),))
                    # squeezed dimensions: (time, longitude) without those of size one
                    shape = [n for n in ((tax if n_times is None else n_times), (jax if n_lons is None else n_lons)) if n != 1]
                    have = [(a.size.fp if isinstance(a, Ax) else a) for a in v.axes]
                    rep.check(have == [(a.size.fp if isinstance(a, Ax) else a) for a in shape], 'shape',
                              f'{fn_name} of {tk} times and {lk} longitudes has the wrong shape', v.cells[0].prov)
                    if have != [(a.size.fp if isinstance(a, Ax) else a) for a in shape]:
                        return
                    fixed = [n for n in shape if not isinstance(n, Ax)]
                    names = [a.name if isinstance(a, Ax) else None for a in v.axes]
                    pos = 0
                    for k, c in enumerate(v.cells):
                        p = {}
                        rem = k
                        idx = []
                        for n in reversed(fixed):
                            idx.insert(0, rem % n)
                            rem //= n
                        q = list(idx)
                        m = {}
                        ai = 0
                        for which, n in (('T', n_times), ('J', n_lons)):
                            if n == 1:
                                m[which] = T.const(0)
                                continue
                            m[which] = T.idxvar(names[ai]) if names[ai] is not None else T.const(q.pop(0))
                            ai += 1
                        sec = seconds(c, v.dtype)
                        wants = [T.subst(T.add(u, T.scale(T.add(T.scale(lont, {0: Fraction(4)}), e), {0: Fraction(60*sign)})), m) for e in eots]
                        rep.done(rule)
                        if not any(sec.fp == w.fp for w in wants):
                            loc, txt = W.show_mismatch(sec, wants[0])
                            rep.fail(rule, f'{fn_name} of {tk} times and {lk} longitudes is not the documented relation: {txt}', loc or c.prov)
                            break
                        rep.check(c.valid is T.TRUE, rule, f'{fn_name} may be NaT', c.prov)
                out.append(Task(f'{fn_name}/{tk}/{lk}', fn))
    return out


def expect_value_error(it, rep, rule, what, fn):
    rep.done(rule)
    try:
        fn()
    except PyExc as e:
        rep.check(e.etype is ValueError, rule, f'{what} raises {e.name()} instead of ValueError', e.loc)
    else:
        rep.fail(rule, f'{what} does not raise ValueError')


AIRMASS = ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003')


def day_only(t, z):
    """t where the zenith angle z is at most 90 degrees."""
    ctx = T.assume(T.Ctx(), T.lt(T.const(90), z), False)
    ctx.over.setdefault(-1, (0, 0))
    # (the zenith itself is left as it is)
    return T.under(t, ctx, stop={T.direction(z)[0]} if T.direction(z) else ())


@check('C18',
       'Value numbering of eth() for a symbolic solar constant and the default one, without and with each air mass correction, against the '
       'formula on the ecf and zenith of the result and the air mass it documents.',
       minimum={'definition': 200, 'unknown': 40}, anchors=['_base.py'])
def c18(tier):
    def body(it, rep, r, uc, tz):
        T.declare('isc', lo=0, hi=1e5)
        zen = got(it, r, 'zenith')
        z = value(zen, 'zenith')
        ecf = val(it, r, 'ecf')
        isc = T.atom('isc')
        am = {k: value(W.method(it, r, 'airmass', k), k, zen.dims) for k in ('kasten_and_young_1989', 'gueymard_2003')}
        factor = {'none': (T.const(1), False),
                  'perez_1990': (S.call(it, 'derived', 'perez_1990', am['kasten_and_young_1989']), True),
                  'skarveith_1998': (S.call(it, 'derived', 'skarveith_1998', z), False),
                  'gonzalez_and_calbo_1999': (S.call(it, 'derived', 'gonzalez_and_calbo_1999', am['gueymard_2003']), True)}

        def one(name, da, i, corr):
            f, night = factor[corr]
            t = value(da, name, zen.dims)
            want = S.call(it, 'derived', 'eth', i, ecf, z, f)
            same_term(rep, 'definition', name, t, want)
            rep.done('definition')
            # where the air mass is undefined the corrected value may be missing or zero
            if t.valid is not T.TRUE and t.valid.fp != want.valid.fp:
                rep.fail('definition', f'{name} is defined where {T.show(t.valid, 4)}', t.prov)
            coords_like(rep, name, da, zen, zen.dims)
        default = T.const(Fraction('1361.1'))
        py = A.pyfloat(isc)
        one('eth()', W.method(it, r, 'eth'), default, 'none')
        one('eth(ISC)', W.method(it, r, 'eth', py), isc, 'none')
        for c in factor:
            one(f"eth(am_correction='{c}')", W.method(it, r, 'eth', am_correction=c), default, c)
            one(f"eth(ISC, '{c}')", W.method(it, r, 'eth', py, c), isc, c)
        for bad in ('perez', 'None', '', None):
            expect_value_error(it, rep, 'unknown', f'eth(am_correction={bad!r})', lambda: W.method(it, r, 'eth', am_correction=bad))
    return tasks_for(variants(tier), body)


@check('C19',
       'Value numbering of airmass() for each parameterization against its published formula for zenith angles up to 90 degrees, limited '
       'below by 1, and of where it is defined.',
       minimum={'definition': 150, 'night': 150, 'unknown': 40}, anchors=['_base.py'])
def c19(tier):
    def body(it, rep, r, uc, tz):
        zen = got(it, r, 'zenith')
        z = value(zen, 'zenith')
        one = T.const(1)
        day = [T.band(z.valid, T.le(z, T.const(90))), T.band(z.valid, T.lt(z, T.const(90)))]
        for name in AIRMASS + (None,):
            da = W.method(it, r, 'airmass', *([name] if name else []))
            what = f"airmass('{name}')" if name else 'airmass()'
            t = value(da, what, zen.dims)
            want = T.maximum(one, S.call(it, 'derived', name or 'gueymard_2003', z))
            rep.done('definition')
            if not (t.fp == want.fp or day_only(t, z).fp == day_only(want, z).fp):
                loc, txt = W.show_mismatch(day_only(t, z), day_only(want, z))
                rep.fail('definition', f'{what} is not its formula (at least 1) by day: {txt}', loc or t.prov)
            defined(rep, 'night', what, t, *day)
            coords_like(rep, what, da, zen, zen.dims)
        for bad in ('kasten', 'gueymard', '', None):
            expect_value_error(it, rep, 'unknown', f'airmass({bad!r})', lambda: W.method(it, r, 'airmass', bad))
    return tasks_for(variants(tier), body)


@check('C20',
       'Value numbering of incidence() for symbolic slope and azimuth against the scalar product of the unit vectors towards the sun '
       '(from latitude, declination and hour angle of the true solar time) and normal to the surface.',
       minimum={'definition': 40}, anchors=['_base.py'])
def c20(tier):
    def body(it, rep, r, uc, tz):
        T.declare('slope', lo=0, hi=180)
        T.declare('facing', lo=-360, hi=360)
        s, g = T.atom('slope'), T.atom('facing')
        lat, dec = val(it, r, 'latitude'), val(it, r, 'declination')
        tda = got(it, r, 'true_solar_time')
        tst = seconds(value(tda, 'true_solar_time'), tda.arr.dtype)
        dims = dims_of(uc, 'time', 'latitude', 'longitude')
        da = W.method(it, r, 'incidence', A.pyfloat(s), A.pyfloat(g))
        t = value(da, 'incidence()', dims)
        want = S.call(it, 'derived', 'incidence', s, g, lat, dec, tst)
        same_term(rep, 'definition', 'incidence()', t, want)
        rep.check(t.valid is T.TRUE, 'definition', f'incidence() may be missing: {T.show(t.valid, 4)}', t.prov)
        coords_like(rep, 'incidence()', da, got(it, r, 'zenith'), dims, aux=False)
    return tasks_for(variants(tier, ('naive', 'region (zoneinfo)')), body)
