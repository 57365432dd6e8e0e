"""Whole functions rewritten, keeping the behaviour (sixth set)."""
import ast

SRC = '/repo/src/sunwhere/'


def fn(file, name):
    """The source of a function of the repository."""
    s = open(SRC + file).read()
    for n in ast.walk(ast.parse(s)):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
            ls = s.splitlines(keepends=True)
            first = min([n.lineno] + [d.lineno for d in n.decorator_list])
            return ''.join(ls[first - 1:n.end_lineno])
    raise KeyError(name)


def sub(text, *pairs):
    for a, b in pairs:
        assert a in text, a
        text = text.replace(a, b)
    return text


def doc(text):
    """The def line(s) and the docstring of a function, to put another body below."""
    n = ast.parse(__import__('textwrap').dedent(text)).body[0]
    d = n.body[0].end_lineno
    return ''.join(text.splitlines(keepends=True)[:d])


EDITS = []


def edit(id, *edits):
    EDITS.append(dict(id=id, edits=list(edits)))


B = '_base.py'

# ---------------------------------------------------------------- _base.py
t = fn(B, 'sunrise')
edit('sunrise-pipeline', (B, t, doc(t) + '''        known = {'deg', 'rad', 'tst', 'utc', 'local'}
        if units not in known:
            raise ValueError(f'unknown units `{units}`')

        def to_timedelta(hours):
            return hours.copy(data=(hours*3600*1e9).astype('timedelta64[ns]'))

        phi, delta = (np.radians(angle) for angle in (self.latitude, self.declination))
        cos_omega = -np.tan(delta)*np.tan(phi)
        omega = np.arccos(cos_omega.where(abs(cos_omega) <= 1))

        def angle(in_degrees):
            return np.degrees(omega) if in_degrees else omega

        if units in {'deg', 'rad'}:
            wsr = angle(units == 'deg')
        else:
            tst = self.true_solar_time
            midnight = tst.copy(data=tst.values.astype('datetime64[D]').astype('datetime64[ns]'))
            wsr = to_timedelta(12. - angle(True)/15.) + midnight
            if units != 'tst':
                shift = self.eot + 4*self.longitude
                wsr = wsr - shift.copy(data=(shift*60*1e9).astype('timedelta64[ns]'))
            if units == 'local':
                offset = self._times.tz_localize(None) - self._times_utc.tz_localize(None)
                wsr = wsr + xr.DataArray(offset, coords=dict(time=wsr.coords['time']), dims=['time'])

        labels = dict(deg='degrees', rad='radians', tst='TST', utc='UTC', local=self.timezone)
        wsr = wsr.rename('wsr')
        return wsr.assign_attrs(dict(units=labels[units], description='sunrise'))
'''))

t = fn(B, 'sunset')
edit('sunset-branches', (B, t, doc(t) + '''        if units in ('deg', 'rad'):
            wss = self.sunrise(units) * -1
        elif units in ('tst', 'utc', 'local'):
            hours = self.daylight_length()
            length = hours.copy(data=(hours*3600*1e9).astype('timedelta64[ns]'))
            wss = self.sunrise(units) + length
        else:
            raise ValueError(f'unknown units `{units}`')

        label = {'deg': 'degrees', 'rad': 'radians'}.get(units)
        if label is None:
            label = self.timezone if units == 'local' else units.upper()
        return wss.rename('wss').assign_attrs(units=label, description='sunset')
'''))

t = fn(B, 'airmass')
edit('airmass-coefficients', (B, t, doc(t) + '''        coefficients = {
            'kasten_1965': (0.15, 0., 93.885, 1.253),
            'kasten_and_young_1989': (0.50572, 0., 96.07995, 1.6364),
            'gueymard_2001': (0.45665, 0.07, 96.4836, 1.697),
            'gueymard_2003': (0.48353, 0.095846, 96.741, 1.754),
        }
        try:
            a, b, c, d = coefficients[parameterization]
        except KeyError:
            raise ValueError(
                f'unknown airmass parameterization {parameterization}') from None

        sza = self.sza
        term = a*np.maximum(1e-4, c - sza)**-d
        if b > 0:
            term = term*sza**b
        rec_am = xr.where(sza <= 90., self.cosz + term, np.nan)

        return np.maximum(1., 1./rec_am).rename('airmass').assign_attrs(
            units='-',
            description='relative optical air mass'
        )
'''))

t = fn(B, 'eth')
edit('eth-dispatch', (B, t, doc(t) + '''        corrections = {
            'none': self._no_correction,
            'perez_1990': self._perez_1990,
            'skarveith_1998': self._skarveith_1998,
            'gonzalez_and_calbo_1999': self._gonzalez_and_calbo_1999,
        }
        correction = corrections.get(am_correction)
        if correction is None:
            raise ValueError(f'unknown am_correction {am_correction}')

        eth = self.ecf*self.cosz.clip(min=0.)*ISC*correction()
        eth.attrs = {'units': 'W m-2',
                     'description': 'extraterrestrial horizontal solar irradiance'}
        eth.name = 'eth'
        return eth

    @staticmethod
    def _no_correction():
        return 1.

    def _perez_1990(self):
        am = self.airmass('kasten_and_young_1989')
        return 0.1 + 1.031*np.exp(-1.4 / (0.9 + (9.4 / am)))

    def _skarveith_1998(self):
        return 0.83 - 0.56*np.exp(-0.06*self.elevation)

    def _gonzalez_and_calbo_1999(self):
        am = self.airmass('gueymard_2003')
        return 0.229 + 0.957*np.exp(-1.74*am*(0.124 - 0.0285*np.log(am)))
'''))

t = fn(B, 'incidence')
edit('incidence-regrouped', (B, t, doc(t) + '''        tst = self.true_solar_time
        since_midnight = tst.values - tst.values.astype('datetime64[D]')
        hour = tst.copy(data=since_midnight / np.timedelta64(3600, 's'))
        omega = np.deg2rad(180. - 15.*hour)
        phi = np.deg2rad(self.latitude)
        delta = np.deg2rad(self.declination)
        beta = np.deg2rad(sfc_slope)
        gamma = np.deg2rad(sfc_azimuth)

        # terms by the cosine and the sine of the slope
        horizontal = np.sin(phi)*np.sin(delta) + np.cos(phi)*np.cos(delta)*np.cos(omega)
        south = np.sin(phi)*np.cos(delta)*np.cos(omega) - np.cos(phi)*np.sin(delta)
        east = np.cos(delta)*np.sin(omega)
        coss = np.cos(beta)*horizontal + np.sin(beta)*(np.cos(gamma)*south + np.sin(gamma)*east)

        coss = coss.rename('incidence')
        coss.attrs.update(units='-', description='cosine of the angle of incidence')
        return coss
'''))

t = fn(B, 'true_solar_time')
edit('tst-array', (B, t, doc(t) + '''        time = np.asarray(self._times.tz_localize(None), dtype='datetime64[ns]')
        utc = self._times_utc.tz_localize(None).to_numpy()
        minutes = self.eot + 4*self.longitude
        utc_ns = xr.DataArray(utc.astype('datetime64[ns]').astype(float), coords=[('time', time)])
        tst = (utc_ns + minutes*60*1e9).astype('datetime64[ns]')
        tst.name = 'true_solar_time'
        tst.attrs['description'] = 'True solar time (a.k.a. local apparent time, LAT)'
        return tst
'''))

edit('labels-function', (B, '''class Sunpos:
''', '''def _label(array, name, **attrs):
    """Names an array and says what it holds."""
    out = array.rename(name)
    return out.assign_attrs(**attrs) if attrs else out


class Sunpos:
'''), (B, fn(B, 'zenith'), '''    @property
    def zenith(self):
        """DataArray: solar zenith angle, in degrees [0, 180]."""
        return _label(np.rad2deg(self._zenith), 'zenith', units='degrees', range='[0, 180]',
                      description='solar zenith angle')
'''), (B, fn(B, 'elevation'), '''    @property
    def elevation(self):
        """DataArray: solar elevation angle, in degrees [-90, 90]."""
        elevation = -(self.zenith - 90.)
        return _label(elevation, 'elevation', units='degrees', range='[-90, 90]',
                      description='solar elevation angle')
'''), (B, fn(B, 'sza'), '''    @property
    def sza(self):
        """DataArray: solar zenith angle, in degrees [0, 180]. Alias for `zenith`."""
        return _label(self.zenith, 'sza')
'''))

t = fn(B, '__init__')
i = t.index("        if self._usecase == 'sites':")
j = t.index("        self._algorithm = algorithm")
edit('init-dims', (B, t[i:j], '''        time_shape = (n_times,)
        full_dims, full_shape = {
            'sites': (('time', 'location'), (n_times, n_lats)),
            'regular_grid': (('time', 'latitude', 'longitude'), (n_times, n_lats, n_lons)),
            'transect': (('time',), (n_times,)),
        }[self._usecase]

        # sanity check
        if self._usecase == 'sites':
            assert n_lats == n_lons
        elif self._usecase == 'transect':
            assert n_times == n_lats == n_lons
        for values in (self._ecf, self._eot, self._declination):
            assert values.shape == time_shape
        for values in (self._zenith, self._azimuth):
            assert values.shape == full_shape

        time = np.array(self._times.tz_localize(None), dtype='datetime64[ns]')
        lats, lons = self._latitude, self._longitude
        full = {'time': time}
        if self._usecase == 'sites':
            full['location'] = np.arange(n_lats)
        if self._usecase == 'regular_grid':
            full['latitude'], full['longitude'] = lats, lons
            place = [(('latitude',), {'latitude': lats}), (('longitude',), {'longitude': lons})]
            on_time = {'time': time}
        else:
            where = full_dims[-1]
            full['latitude'] = (where, lats)
            full['longitude'] = (where, lons)
            if self._usecase == 'sites':
                on_time = {'time': time}
                place = [(('location',), {'location': full['location']})]*2
            else:
                on_time = full
                place = [(('time',), full)]*2

        def wrap(values, name, dims, coords):
            return xr.DataArray(values, coords=coords, dims=dims, name=name)

        self._latitude = wrap(lats, 'latitude', *place[0])
        self._longitude = wrap(lons, 'longitude', *place[1])
        for name in ('ecf', 'eot', 'declination'):
            private = '_' + name
            setattr(self, private, wrap(getattr(self, private), name, ('time',), on_time))
        for name in ('zenith', 'azimuth'):
            private = '_' + name
            setattr(self, private, wrap(getattr(self, private), name, full_dims, full))

'''))

edit('init-times', (B, '''        _times = pd.to_datetime(times)

        if isinstance(_times, pd.Timestamp):
            _times = pd.DatetimeIndex([_times])

        if _times.tz is None:
            _times = _times.tz_localize('UTC')
''', '''        _times = pd.to_datetime(times)
        _times = pd.DatetimeIndex([_times]) if isinstance(_times, pd.Timestamp) else _times
        is_naive = _times.tz is None
        _times = _times.tz_localize('UTC') if is_naive else _times
'''))

# ---------------------------------------------------------------- _core.py
C = '_core.py'
s = open(SRC + C).read()
i = s.index('    # validate inputs...\n')
edit('core-body', (C, s[i:], '''    # validate inputs...
    ndim = validate.check_ndim(ndim)
    times_utc, latitude, longitude = validate.check_timelatlon(
        times, latitude, longitude, ndim, np.float64)

    # only the valid times are computed...
    valid, = np.nonzero(~np.isnat(times_utc))
    places = (longitude, latitude)
    if ndim == 0:
        places = tuple(place[valid] for place in places)

    spa_func = getattr(__ALGORITHMS__[algorithm][engine], 'sunpos')
    logger.debug(f'running simulation with funtion {spa_func.__module__}.{spa_func.__name__}')
    result = spa_func(times_utc[valid], *places, ndim=ndim, with_refraction=bool(refraction))

    # ... and the others are missing
    time_shape = times_utc.shape
    space_shape = ((), latitude.shape, latitude.shape + longitude.shape)[ndim]

    def fill(name, shape):
        output = np.full(shape, np.nan)
        output[valid] = result[name]
        return output

    output = dict(times=times, latitude=latitude, longitude=longitude,
                  algorithm=algorithm, engine=engine, refraction=refraction)
    output.update((name, fill(name, time_shape)) for name in ('ecf', 'eot', 'declination'))
    output.update((name, fill(name, time_shape + space_shape)) for name in ('zenith', 'azimuth'))
    return output
'''))

edit('core-loader', (C, s[s.index('__ALGORITHMS__ = {'):s.index('logger.disable')], '''__ENGINES__ = {'numpy': 'py', 'numexpr': 'ne'}

__AVAILABLE__ = {
    'psa': ('numpy', 'numexpr'),
    'soltrack': ('numpy', 'numexpr'),
    'iqbal': ('numpy', 'numexpr'),
    'nrel': ('numexpr',),
}


def _load(algorithm, engine):
    module = f'.{__ENGINES__[engine]}_{algorithm}'
    return safe_import(module, package='sunwhere.libspa')


__ALGORITHMS__ = {
    algorithm: {engine: _load(algorithm, engine) for engine in engines}
    for algorithm, engines in __AVAILABLE__.items()
}

'''))

# ---------------------------------------------------------------- usecases.py
U = 'usecases.py'
s = open(SRC + U).read()
pre = '''def _as_utc(times):
    """Naive UTC times, to the second."""
    utc = pd.to_datetime(times, utc=True)
    return np.array(utc.tz_localize(None), ndmin=1, dtype='datetime64[s]')


def _as_degrees(values):
    return np.array(values, ndmin=1, dtype=np.float64)


def _run(usecase, ndim, times, instants, lats, lons, **options):
    solpos = evaluate(instants, lats, lons, options['algorithm'], ndim=ndim,
                      refraction=options['refraction'], engine=options['engine'])
    quantities = {k: solpos.get(k) for k in ('ecf', 'eot', 'declination', 'zenith', 'azimuth')}
    return Sunpos(times=times, latitude=lats, longitude=lons, usecase=usecase,
                  **options, **quantities)


def sites('''
ed = [(U, 'def sites(', pre)]
for name, ndim, pref, inst in (('sites', 1, 'sites', 'times_utc'), ('regular_grid', 2, 'grid', 'times'), ('transect', 0, 'transect', 'times')):
    f = fn(U, name)
    i = f.index('    # I use ndmin=1')
    j = f.index('    check_dimensions(')
    ed.append((U, f[i:j].rstrip() + '\n\n    check_dimensions(times_utc.ndim, ' + pref, f'''    times_utc = _as_utc(times)
    {pref}_lats, {pref}_lons = map(_as_degrees, (latitude, longitude))

    check_dimensions(times_utc.ndim, {pref}'''))
    i = f.index('    solpos = evaluate')
    ed.append((U, f[i:], f'''    return _run('{name}', {ndim}, times, {inst}, {pref}_lats, {pref}_lons,
                algorithm=algorithm, refraction=refraction, engine=engine)
'''))
edit('usecases-run', *ed[1:], ed[0])

# ---------------------------------------------------------------- utils
D = 'utils/datetime.py'
edit('datetime-shift', (D, open(SRC + D).read(), '''
import numpy as np

from .._core import evaluate


def _shift(times, longitude, sign):
    """Adds (sign=1) or subtracts (-1) the difference of solar time and UTC."""
    times = np.array(times, ndmin=1)
    longitude = np.array(longitude, ndmin=1, dtype=np.float64)
    eot = evaluate(times, 0., 0.)['eot']  # eot, minutes
    column = eot.shape + (1,)*longitude.ndim
    start = np.array(times, dtype='datetime64[ns]').astype(np.float128).reshape(column)
    seconds = sign*60*(4*longitude[np.newaxis, ...] + eot.reshape(column))
    return np.squeeze(np.array(start + 1e9*seconds, dtype='datetime64[ns]'))


def true_solar_time(times_utc, longitude):
    return _shift(times_utc, longitude, 1)


def universal_time_coordinated(times_tst, longitude):
    return _shift(times_tst, longitude, -1)
'''))

V = 'utils/validate.py'
t = fn(V, 'check_timelatlon')
i = t.index('    # validate longitudes...')
edit('validate-bounds', (V, t[i:], '''    def check_coordinate(values, name, in_bounds, bounds):
        values = np.array(values, ndmin=1, dtype=dtype)
        if values.ndim > 1:
            raise ValueError(
                'illegal shape: expected a 0-dim or 1-dim array of '
                f'{name}s but got a {values.ndim}-dim array')
        given = values[~np.isnan(values)]
        if not in_bounds(given).all():
            raise ValueError(f'{name} out of bounds: expected {bounds} but got values beyond')
        return values

    longitude = check_coordinate(
        longitude, 'longitude', lambda x: (x >= -180) & (x < 180.), '-180 <= longitude < 180')
    latitude = check_coordinate(
        latitude, 'latitude', lambda x: np.abs(x) <= 90., '-90 <= latitude <= 90')

    # validate consistency against ndim...
    same_place = longitude.shape == latitude.shape
    consistent = {0: same_place and times.shape == longitude.shape, 1: same_place}
    if not consistent.get(ndim, True):
        raise ValueError(
            f'shape mismatch: got {times.shape} for times, {longitude.shape} for '
            f'longitude and {latitude.shape} for latitude')

    return times, latitude, longitude
'''))

edit('validate-dims-zip', (V, fn(V, 'check_dimensions'), '''def check_dimensions(times_dim, lats_dim, lons_dim, required_dims):
    got = (times_dim, lats_dim, lons_dim)
    names = ('times_utc', 'latitude', 'longitude')
    problems = [f'expected {r}-dim {n}, got {g}-dim'
                for n, g, r in zip(names, got, required_dims) if g != r]
    if problems:
        raise ValueError('wrong dimensions: ' + '; '.join(problems))
'''))

# ---------------------------------------------------------------- libspa
P = 'libspa/py_psa.py'
t1, t2, t3 = (fn(P, f'_sunpos_{k}_dimensional') for k in ('one', 'two', 'three'))
edit('psa-local-function', (P, t1 + '\n\n' + t2 + '\n\n' + t3, '''def _local_position(gmst, ra, delta, longitude, latitude, with_refraction):
    # all inputs can be broadcast together
    hour_angle = np.radians(gmst*15 + longitude) - ra
    latrad = np.radians(latitude)
    sinlat, coslat = np.sin(latrad), np.cos(latrad)
    sindec, cosdec, tandec = np.sin(delta), np.cos(delta), np.tan(delta)
    sinhour, coshour = np.sin(hour_angle), np.cos(hour_angle)

    zenith = np.arccos(np.clip(coslat*coshour*cosdec + sindec*sinlat, -1., 1.))
    zenith += EMRAU*np.sin(zenith)
    if with_refraction is True:
        elevation = HALFPI - zenith
        zenith = zenith - np.where(elevation >= -1.4545e-2, _refraction(elevation), 0.)

    azimuth = np.arctan2(-sinhour, tandec*coslat - sinlat*coshour)
    azimuth += np.where(azimuth < 0., PI, -PI)
    return zenith, azimuth


def _refraction(elevation):
    return 1.7802e-2/(60*np.tan(elevation + 3.1376e-3 / (elevation + 8.9186e-2)))


def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
    gmst, ra, delta, ecf, eot = time_dependent_calculations(unixtime)
    zenith, azimuth = _local_position(gmst, ra, delta, longitude, latitude, with_refraction)
    return zenith, azimuth, ecf, delta, eot


def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
    gmst, ra, delta, ecf, eot = time_dependent_calculations(unixtime)
    zenith, azimuth = _local_position(
        *(x[:, None] for x in (gmst, ra, delta)), longitude[None], latitude[None], with_refraction)
    return zenith, azimuth, ecf, delta, eot


def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
    gmst, ra, delta, ecf, eot = time_dependent_calculations(unixtime)
    zenith, azimuth = _local_position(
        *(x.reshape(-1, 1, 1) for x in (gmst, ra, delta)),
        longitude.reshape(1, 1, -1), latitude.reshape(1, -1, 1), with_refraction)
    return zenith, azimuth, ecf, delta, eot
'''))

t = fn(P, 'sunpos')
i = t.index('    if ndim == 0:')
edit('psa-dispatch', (P, t[i:], '''    if ndim != 2:
        sizes = {longitude.size, latitude.size} | ({unixtime.size} if ndim == 0 else set())
        assert len(sizes) == 1, 'inputs must have same shape'

    kernels = (_sunpos_one_dimensional, _sunpos_two_dimensional, _sunpos_three_dimensional)
    values = kernels[ndim](unixtime, longitude, latitude, with_refraction)
    return dict(zip(('zenith', 'azimuth', 'ecf', 'declination', 'eot'), values))
'''))

I = 'libspa/py_iqbal.py'
edit('iqbal-series', (I, fn(I, 'equation_of_time'), '''def _fourier(dayangl, constant, cosines, sines):
    total = constant
    for n, (c, s) in enumerate(zip(cosines, sines), start=1):
        total = total + c*np.cos(n*dayangl) + s*np.sin(n*dayangl)
    return total


def equation_of_time(dayangl):
    # equation of time, hours, refit to match NREL's eot
    return _fourier(
        dayangl, 0.00986571,
        (0.58688718, -3.31493999, -0.08151750, -0.13532889),
        (-7.34538133, -9.35366541, -0.30892409, -0.17336220))/60.
'''), (I, fn(I, 'solar_declination'), '''def solar_declination(dayangl):
    # sun declination, radians, Eq (1.3.1), Iqbal
    coefs = np.array([[-0.399912, 0.070257], [-0.006758, 0.000907], [-0.002697, 0.001480]])
    n = np.arange(1, len(coefs) + 1)[:, None]
    return 0.006918 + np.sum(coefs[:, :1]*np.cos(n*dayangl) + coefs[:, 1:]*np.sin(n*dayangl), axis=0)
'''))

f = fn(I, '_sunpos_two_dimensional')
cal = f[f.index("    times = unixtime.astype"):f.index('    Nt = len(year)')]
edit('iqbal-calendar', dict and (I, fn(I, '_sunpos_one_dimensional'), sub(fn(I, '_sunpos_one_dimensional'), (cal, '''    std_time, ecf, eot, declination = _time_dependent(unixtime)
''',), ('    Nr = len(year)\n', '    Nr = len(unixtime)\n'))),
     (I, f, sub(f, (cal, '''    std_time, ecf, eot, declination = _time_dependent(unixtime)
'''), ('    Nt = len(year)\n', '    Nt = len(unixtime)\n'))),
     (I, 'def _sunpos_three_dimensional(', '''def _time_dependent(unixtime):
    """Hour of the day, eccentricity factor, equation of time (hours) and declination."""
    times = unixtime.astype('datetime64[s]')
    days = times.astype('M8[D]')
    months = times.astype('M8[M]')
    years = times.astype('M8[Y]')
    year = 1970 + years.astype(np.int32)
    month = 1 + (months - years).astype(np.int32)
    day = 1 + (days - months).astype(np.int32)
    seconds = (times - days).astype(np.int64)
    hour, rest = np.divmod(seconds, 3600)
    minute, second = np.divmod(rest, 60)
    std_time = hour + (minute + second / 60.) / 60.
    dayangl = day_angle(year, month, day, std_time)
    return (std_time, eccentricity_correction_factor(dayangl),
            equation_of_time(dayangl), solar_declination(dayangl))


def _sunpos_three_dimensional('''))

edit('iqbal-day-number', (I, fn(I, 'day_angle'), '''def day_angle(year, month, day, std_time):
    # day of year (1 for 1st January) and day angle
    lengths = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    before = np.concatenate([[0], np.cumsum(lengths)])
    is_leap = np.logical_or(np.logical_and(year % 4 == 0, year % 100 != 0), year % 400 == 0)
    doy = day + before[month - 1] + np.logical_and(is_leap, month > 2)
    return TWOPI/365. * (doy + std_time/24.)
'''))

S = 'libspa/ne_soltrack.py'
t = fn(S, '_sunpos_two_dimensional')
u = fn(S, '_sunpos_three_dimensional')
tail = t[t.index("    sin_alt = nex("):t.index("    zenith = HALFPI - alt")]
call = '''    alt, azimuth = _horizontal(sin_lat, cos_lat, sin_dec, cos_dec, tan_dec, sin_ha, cos_ha, with_refraction)

'''
edit('soltrack-horizontal', (S, t, '''REFRACTED = 'where(alt >= -1.4545e-2, alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))), alt)'


def _horizontal(sin_lat, cos_lat, sin_dec, cos_dec, tan_dec, sin_ha, cos_ha, with_refraction):
    """Altitude and azimuth, radians."""
    names = dict(sin_lat=sin_lat, cos_lat=cos_lat, sin_dec=sin_dec, cos_dec=cos_dec,
                 tan_dec=tan_dec, sin_ha=sin_ha, cos_ha=cos_ha)
    sin_alt = ne.evaluate('sin_lat*sin_dec + cos_lat*cos_dec*cos_ha', local_dict=names)
    azimuth = ne.evaluate('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)', names)
    alt = np.arcsin(np.clip(sin_alt, -1., 1.))
    alt = ne.evaluate('alt - 4.2635e-5*cos(alt)', {'alt': alt})
    if with_refraction is not True:
        return alt, azimuth
    return ne.evaluate(REFRACTED, {'alt': alt}), azimuth


''' + t.replace(tail, call)), (S, u, u.replace(u[u.index("    sin_alt = nex("):u.index("    zenith = HALFPI - alt")], call)))

N = 'libspa/ne_nrel.py'
s = open(SRC + N).read()
edit('nrel-eot-python', (N, '''    # equation of time, minutes
    eot = nex('((m - 0.0057183 - alpha + delta_psi*cos(epsilon)) % 360)*4')
    eot = nex('where(eot < -20., eot + 1440, eot)')
    eot = nex('where(eot > 20., eot - 1440, eot)')
''', '''    # equation of time, minutes
    eot = np.mod(m - 0.0057183 - alpha + delta_psi*np.cos(epsilon), 360)*4
    eot[eot < -20.] += 1440
    eot[eot > 20.] -= 1440
'''), (N, '''    # mean ecliptic obliquity
    epsilon0 = nex(
        '84381.448 - 4680.93*(jme/10.) - 1.55*(jme/10.)**2 + 1999.25*(jme/10.)**3 - '
        '51.38*(jme/10.)**4 - 249.67*(jme/10.)**5 - 39.05*(jme/10.)**6 + 7.12*(jme/10.)**7 + '
        '27.87*(jme/10.)**8 + 5.79*(jme/10.)**9 + 2.45*(jme/10.)**10')
''', '''    # mean ecliptic obliquity
    coefs = (2.45, 5.79, 27.87, 7.12, -39.05, -249.67, -51.38, 1999.25, -1.55, -4680.93, 84381.448)
    epsilon0 = np.polyval(coefs, jme/10.)
'''))

# ---------------------------------------------------------------- JPL reader and CLI
J = 'utils/jpl_horizons.py'
t = fn(J, 'read_jpl_ephemeris_file')
edit('jpl-dataframe', (J, t, '''FIELDS = {'azimuth': slice(43, 54), 'elevation': slice(55, 66), 'distance': slice(67, 84)}


def _table(filename):
    with open(filename) as f:
        lines = f.read().splitlines(keepends=True)
    start = lines.index('$$SOE\\n') + 1
    stop = lines.index('$$EOE\\n', start)
    return lines[start:stop]


def read_jpl_ephemeris_file(filename):
    lines = _table(filename)
    instants = [dtparser.parse(line[1:21]) for line in lines]
    for line in lines:
        float(line[22:39])  # the julian day
    values = {name: np.array([float(line[part]) for line in lines]) for name, part in FIELDS.items()}
    index = pd.DatetimeIndex(instants, tz='UTC', name='time_utc')
    return pd.DataFrame({
        'azimuth': values['azimuth'] - 180,
        'zenith': 90. - values['elevation'],
        'ecf': 1/values['distance']**2}, index=index)
'''))

t = fn(J, 'load_jpl_ephemeris')
edit('jpl-months', (J, t, '''def _month_limits(year, month):
    first = pd.Timestamp(year=year, month=month, day=1)
    return first, first + pd.offsets.MonthBegin(1) - pd.Timedelta(minutes=1)


def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
    out_dir = Path('data')
    out_dir.mkdir(parents=True, exist_ok=True)

    whole_data_filename = out_dir / f'jpl_ephemeris_highres_{year}.parquet'
    if whole_data_filename.exists():
        return pd.read_parquet(whole_data_filename)

    monthly = [out_dir / f'jpl_ephemeris_highres_{year}-{month:02d}.txt' for month in range(1, 13)]
    downloaded = []
    tables = []
    for month, filename in enumerate(monthly, start=1):
        if not filename.exists():
            logger.info(f'downloading high-res ephemeris to file {filename}')
            get_jpl_ephemeris(filename, *_month_limits(year, month), site_lon, site_lat, step_size=12)
            downloaded.append(filename)
            logger.success('data downloaded')
        logger.info(f'loading high-res ephemeris from file {filename}')
        tables.append(read_jpl_ephemeris_file(filename))

    df = pd.concat(tables)
    df.insert(0, 'site_lat', site_lat)
    df.insert(0, 'site_lon', site_lon)
    df.to_parquet(whole_data_filename)

    for filename in downloaded:
        filename.unlink()

    return pd.read_parquet(whole_data_filename)
'''))

L = '_cli/position.py'
t = fn(L, 'calculate_position')
i = t.index('    sr_utc =')
j = t.index('    print(tabulate')
edit('cli-rows', (L, t[i:j], '''    here = dict(time=0, location=0)

    def event(method, units):
        return clock(pd.Timestamp(method(units=units).isel(here).item()))

    def angle(quantity):
        return f'{quantity.item():.4f}\\u00b0'

    eot = float(sw.eot[0])
    minutes, fraction = divmod(abs(eot), 1)
    sign = '-' if eot < 0 else ''

    rows = {}
    rows['Day of week'] = ts.strftime("%A").capitalize()
    rows['Date'] = ' '.join(word.capitalize() for word in ts.strftime("%d %B %Y").split())
    rows['Time'] = ts.strftime("%H:%M:%S(%Z)")
    rows['Latitude'] = f'{lat:.4f}\\u00b0'
    rows['Longitude'] = f'{lon:.4f}\\u00b0'
    rows['Declination'] = angle(sw.dec.isel(time=0))
    rows['Sun-Earth distance'] = f'{sw.ecf.isel(time=0).item()**-0.5:.4f} AU'
    rows['Zenith'] = angle(sw.sza.isel(here))
    rows['Elevation'] = angle(sw.elevation.isel(here))
    rows['Azimuth (0\\u00b0 south)'] = angle(sw.saa.isel(here))
    for zone, units in (('UTC', 'utc'), (timezone, 'local')):
        rows[f'Sunrise({zone})'] = event(sw.sunrise, units)
        rows[f'Sunset({zone})'] = event(sw.sunset, units)
    rows['Equation of time'] = f'{sign}{int(minutes)}:{60*fraction:.1f} min'

    s = pd.Series(rows).to_frame('ephemeris')

'''))

M = '_cli/main.py'
edit('cli-coordinates', (M, fn(M, 'parse_latitude') + '\n\n' + fn(M, 'parse_longitude'), '''def parse_coordinate(text, signs):
    number, hemisphere = text[:-1], text[-1].casefold()
    assert hemisphere in signs, f'unknown hemisphere {hemisphere}'
    return signs[hemisphere]*float(number)


def parse_latitude(lat_str):
    latitude = parse_coordinate(lat_str, {'n': 1, 's': -1})
    assert abs(latitude) <= 90
    return latitude


def parse_longitude(lon_str):
    longitude = parse_coordinate(lon_str, {'e': 1, 'w': -1})
    assert longitude >= -180 and longitude < 180
    return longitude
'''))
