import re
SRC = '/repo/src/sunwhere/'


def fn(path, name, new):
    """Replaces the whole function or method."""
    import ast
    s = open(SRC + path).read()
    for n in ast.walk(ast.parse(s)):
        if isinstance(n, ast.FunctionDef) and n.name == name:
            lines = s.splitlines(True)
            start = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
            return (path, ''.join(lines[start:n.end_lineno]), new.strip('\n') + '\n')


EDITS = [
dict(id='core-helpers', edits=[
    ('_core.py', """    # dimensions...
    n_times = times_nonat.size
    n_lats = lats_nonat.size
    n_lons = lons_nonat.size
    out_shape = {
        0: (n_times,),                # n_times == n_lats == n_lons
        1: (n_times, n_lats),         # n_lats == n_lons
        2: (n_times, n_lats, n_lons)
    }[ndim]

""", ""),
    ('_core.py', """    nonat = ~np.isnat(times_utc)
    n_times = times_utc.size
    n_lats = latitude.size
    n_lons = longitude.size
    out_shape = {
        0: (n_times,),                # n_times == n_lats == n_lons
        1: (n_times, n_lats),         # n_lats == n_lons
        2: (n_times, n_lats, n_lons)
    }[ndim]

    def reshape(variable):
        if (values := result.get(variable, None)) is None:
            return None

        if variable in ('ecf', 'eot', 'declination'):
            output = np.full((n_times,), np.nan)
            output[nonat] = values
            return output

        output = np.full(out_shape, np.nan)
        output[nonat, ...] = values
        return output
""", """    out_shape = _output_shape(ndim, len(times_utc), len(latitude), len(longitude))

    def reshape(variable):
        values = result.get(variable)
        if values is None:
            return None
        shape = out_shape[:1] if variable in ('ecf', 'eot', 'declination') else out_shape
        output = np.empty(shape)
        output.fill(np.nan)
        output[nonat] = values
        return output
"""),
    ('_core.py', "def evaluate(times,", """def _output_shape(ndim, n_times, n_lats, n_lons):
    if ndim == 0:
        return (n_times,)
    if ndim == 1:
        return (n_times, n_lats)
    return (n_times, n_lats, n_lons)


def evaluate(times,"""),
]),
dict(id='core-dict', edits=[
    ('_core.py', """    return {
        'times': times,
        'latitude': latitude,
        'longitude': longitude,
        'algorithm': algorithm,
        'engine': engine,
        'refraction': refraction,
        'ecf': reshape("ecf"),
        'eot': reshape("eot"),
        'declination': reshape("declination"),
        'zenith': reshape("zenith"),
        'azimuth': reshape("azimuth")
    }""", """    output = dict(times=times, latitude=latitude, longitude=longitude,
                  algorithm=algorithm, engine=engine, refraction=refraction)
    output.update((name, reshape(name)) for name in ('ecf', 'eot', 'declination', 'zenith', 'azimuth'))
    return output"""),
    ('_core.py', "    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)", "    result = spa_func(unixtime=times_nonat, longitude=lons_nonat, latitude=lats_nonat,\n                      ndim=ndim, with_refraction=bool(refraction))"),
    ('_core.py', """    if engine not in __ALGORITHMS__.get(algorithm):
        raise ValueError(f'missing engine""", """    engines = __ALGORITHMS__[algorithm]
    try:
        module = engines[engine]
    except KeyError:
        raise ValueError(f'missing engine"""),
    ('_core.py', "    spa_func = __ALGORITHMS__.get(algorithm).get(engine).sunpos\n", "    spa_func = module.sunpos\n"),
]),
dict(id='validate-helper', edits=[
    ('utils/validate.py', """    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and
            np.all(longitude[~np.isnan(longitude)] < +180.)):
        raise""", """    if _out_of_bounds(longitude, -180., 180., closed=False):
        raise"""),
    ('utils/validate.py', """    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and
            np.all(latitude[~np.isnan(latitude)] <= +90.)):
        raise""", """    if _out_of_bounds(latitude, -90., 90.):
        raise"""),
    ('utils/validate.py', "def check_timelatlon(", """def _out_of_bounds(values, lower, upper, closed=True):
    # NaN compares false with everything
    beyond = values > upper if closed else values >= upper
    return bool(np.any((values < lower) | beyond))


def check_timelatlon("""),
]),
dict(id='usecases-helper', edits=[
    ('usecases.py', """    solpos = evaluate(times_utc, sites_lats, sites_lons, algorithm,
                      ndim=1, refraction=refraction, engine=engine)

    return Sunpos(
        times=times,
        latitude=sites_lats,
        longitude=sites_lons,
        algorithm=algorithm,
        engine=engine,
        refraction=refraction,
        usecase='sites',
        ecf=solpos.get('ecf'),
        eot=solpos.get('eot'),
        declination=solpos.get('declination'),
        zenith=solpos.get('zenith'),
        azimuth=solpos.get('azimuth')
    )""", """    return _solve('sites', times, times_utc, sites_lats, sites_lons, algorithm, refraction, engine)"""),
    ('usecases.py', """    solpos = evaluate(times, grid_lats, grid_lons, algorithm,
                      ndim=2, refraction=refraction, engine=engine)

    return Sunpos(
        times=times,
        latitude=grid_lats,
        longitude=grid_lons,
        algorithm=algorithm,
        engine=engine,
        refraction=refraction,
        usecase='regular_grid',
        ecf=solpos.get('ecf'),
        eot=solpos.get('eot'),
        declination=solpos.get('declination'),
        zenith=solpos.get('zenith'),
        azimuth=solpos.get('azimuth')
    )""", """    return _solve('regular_grid', times, times_utc, grid_lats, grid_lons, algorithm, refraction, engine)"""),
    ('usecases.py', """    solpos = evaluate(times, transect_lats, transect_lons, algorithm,
                      ndim=0, refraction=refraction, engine=engine)

    return Sunpos(
        times=times,
        latitude=transect_lats,
        longitude=transect_lons,
        algorithm=algorithm,
        engine=engine,
        refraction=refraction,
        usecase='transect',
        ecf=solpos.get('ecf'),
        eot=solpos.get('eot'),
        declination=solpos.get('declination'),
        zenith=solpos.get('zenith'),
        azimuth=solpos.get('azimuth')
    )""", """    return _solve('transect', times, times_utc, transect_lats, transect_lons, algorithm, refraction, engine)"""),
    ('usecases.py', "def sites(times,", """_NDIM = {'transect': 0, 'sites': 1, 'regular_grid': 2}


def _solve(usecase, times, times_utc, lats, lons, algorithm, refraction, engine):
    solpos = evaluate(times_utc, lats, lons, algorithm, ndim=_NDIM[usecase],
                      refraction=refraction, engine=engine)
    wanted = ('ecf', 'eot', 'declination', 'zenith', 'azimuth')
    return Sunpos(times=times, latitude=lats, longitude=lons, algorithm=algorithm,
                  engine=engine, refraction=refraction, usecase=usecase,
                  **{name: solpos[name] for name in wanted})


def sites(times,"""),
]),
dict(id='datetime-helper', edits=[
    fn('utils/datetime.py', 'true_solar_time', '''
def _shift(times, longitude, sign):
    times = np.atleast_1d(np.array(times))
    longitude = np.atleast_1d(np.array(longitude))
    eot = evaluate(times, 0., 0.)['eot']  # minutes
    base = times.astype('datetime64[ns]').astype(np.float128)
    minutes = eot[:, None] + 4 * longitude[None, :]
    shifted = base[:, None] + sign * 6e10 * minutes
    return np.squeeze(shifted.astype('datetime64[ns]'))


def true_solar_time(times_utc, longitude):
    return _shift(times_utc, longitude, 1)
'''),
    fn('utils/datetime.py', 'universal_time_coordinated', '''
def universal_time_coordinated(times_tst, longitude):
    return _shift(times_tst, longitude, -1)
'''),
]),
dict(id='airmass-table', edits=[
    ('_base.py', """        if parameterization == 'kasten_1965':
            Da = np.maximum(1e-4, 93.885 - self.sza)
            rec_am = self.cosz + 0.15*Da**(-1.253)

        elif parameterization == 'kasten_and_young_1989':
            Da = np.maximum(1e-4, 96.07995 - self.sza)
            rec_am = self.cosz + 0.50572*Da**(-1.6364)

        elif parameterization == 'gueymard_2001':
            Da = np.maximum(1e-4, 96.4836 - self.sza)
            rec_am = self.cosz + 0.45665*(self.sza**0.07)*(Da**(-1.697))

        elif parameterization == 'gueymard_2003':
            Da = np.maximum(1e-4, 96.741 - self.sza)
            rec_am = self.cosz + 0.48353*(self.sza**0.095846)*(Da**(-1.754))

        else:
            raise ValueError(
                f'unknown airmass parameterization {parameterization}')

        am = 1./rec_am.where(self.sza <= 90., other=np.nan)
""", """        table = {
            'kasten_1965': (93.885, 0.15, 0., 1.253),
            'kasten_and_young_1989': (96.07995, 0.50572, 0., 1.6364),
            'gueymard_2001': (96.4836, 0.45665, 0.07, 1.697),
            'gueymard_2003': (96.741, 0.48353, 0.095846, 1.754),
        }
        if parameterization not in table:
            raise ValueError(
                f'unknown airmass parameterization {parameterization}')
        limit, factor, power, decay = table[parameterization]

        sza = self.sza
        term = factor / np.maximum(1e-4, limit - sza)**decay
        if power:
            term = term * sza**power
        am = (1. / (self.cosz + term)).where(sza <= 90.)
"""),
]),
dict(id='sunrise-split', edits=[
    ('_base.py', """        tanlat = np.tan(np.radians(self.latitude))
        tandec = np.tan(np.radians(self.declination))
        tantan = -tandec*tanlat

        domain = (tantan >= -1) & (tantan <= 1)
        wsr = np.arccos(tantan.where(domain, other=np.nan))  # radians

        if units == 'deg':
            wsr = np.degrees(wsr)

        if units in ('tst', 'utc', 'local'):
            wsr = 12. - (np.degrees(wsr)/15.)
            delta_ns = wsr.copy(
                data=(wsr*3600*1e9).astype('timedelta64[ns]'))
""", """        wsr = self._sunrise_angle()

        if units == 'deg':
            wsr = np.degrees(wsr)
        elif units != 'rad':
            hours = 12. - np.degrees(wsr)/15.
            delta_ns = (hours*3.6e12).astype('timedelta64[ns]')
"""),
    ('_base.py', "    def sunrise(self, units='deg'):", """    def _sunrise_angle(self):
        tantan = -np.tan(self._declination)*np.tan(np.radians(self.latitude))
        # there is neither sunrise nor sunset in polar day and polar night
        return np.arccos(tantan.where(np.abs(tantan) <= 1))

    def sunrise(self, units='deg'):"""),
]),
dict(id='sunset-rewrite', edits=[
    ('_base.py', "            dl_hr = self.daylight_length()", "            sr_tst = self.sunrise('tst')\n            dl_hr = 2*(12. - (sr_tst - sr_tst.dt.floor('D')) / np.timedelta64(1, 'h'))"),
]),
dict(id='incidence-vectors', edits=[
    ('_base.py', """        coss = ((sinlat*cosbeta - coslat*sinbeta*cosgamma)*sindec +
                (coslat*cosbeta + sinlat*sinbeta*cosgamma)*cosdec*coshour +
                cosdec*sinhour*sinbeta*singamma)
""", """        # sun vector in the horizon system: east, south and up
        east = cosdec*sinhour
        south = sinlat*cosdec*coshour - coslat*sindec
        up = sinlat*sindec + coslat*cosdec*coshour
        coss = up*cosbeta + (south*cosgamma + east*singamma)*sinbeta
"""),
    ('_base.py', """        tst = self.true_solar_time.to_numpy()
        hour = self.true_solar_time.copy(
            data=tst - tst.astype('datetime64[D]')
        ).astype('float64') * 1e-9 / 3600
        ha = hour.copy(data=15*(12-hour))
""", """        tst = self.true_solar_time
        hour = (tst - tst.dt.floor('D')) / np.timedelta64(1, 'h')
        ha = 15. * (12. - hour)
"""),
]),
dict(id='eth-functions', edits=[
    ('_base.py', """        if am_correction == 'none':
            corr = 1.
        elif am_correction == 'perez_1990':
            am = self.airmass('kasten_and_young_1989')
            corr = 0.1 + 1.031*np.exp(-1.4 / (0.9 + (9.4 / am)))
        elif am_correction == 'skarveith_1998':
            corr = 0.83 - 0.56*np.exp(-0.06*(90.-self.sza))
        elif am_correction == 'gonzalez_and_calbo_1999':
            am = self.airmass('gueymard_2003')
            dCDA = 0.124 - 0.0285*np.log(am)
            corr = 0.229 + 0.957*np.exp(-1.74*am*dCDA)
        else:
            raise ValueError(f'unknown am_correction {am_correction}')

        return (eth*corr)""", """        def perez():
            am = self.airmass('kasten_and_young_1989')
            return 0.1 + 1.031*np.exp(-1.4*am / (0.9*am + 9.4))

        def gonzalez():
            am = self.airmass('gueymard_2003')
            return 0.229 + 0.957*np.exp(-1.74*am*(0.124 - 0.0285*np.log(am)))

        corrections = {
            'none': lambda: 1.,
            'perez_1990': perez,
            'skarveith_1998': lambda: 0.83 - 0.56*np.exp(-0.06*self.elevation),
            'gonzalez_and_calbo_1999': gonzalez,
        }
        if am_correction not in corrections:
            raise ValueError(f'unknown am_correction {am_correction}')

        return (eth*corrections[am_correction]())"""),
    ('_base.py', "        eth = ISC*self.ecf*np.maximum(0., self.cosz)", "        eth = (ISC*self.ecf)*self.cosz.clip(min=0.)"),
]),
dict(id='tst-timedelta', edits=[
    ('_base.py', """        dt64 = np.datetime64(1, 'ns')

        utc_f = xr.DataArray(
            np.array(self._times_utc.tz_localize(None), dtype=dt64).astype('float64'),
            coords={'time': np.array(self._times.tz_localize(None), dtype=dt64)},
            dims=['time'])

        tst_f = utc_f + (self.eot + 4*self.longitude) * 60 * 1e9  # nano-seconds
        return tst_f.astype(dt64).rename""", """        utc = xr.DataArray(
            self._times_utc.tz_localize(None).to_numpy(),
            coords={'time': self._times.tz_localize(None).to_numpy()},
            dims=['time'])

        minutes = self.eot + 4*self.longitude
        return (utc + (minutes*6e10).astype('timedelta64[ns]')).rename"""),
]),
dict(id='properties', edits=[
    ('_base.py', "        return (90. - self.zenith).rename('elevation')", "        return (-(self.zenith - 90.)).rename('elevation')"),
    ('_base.py', "        return np.cos(self._zenith).rename('cosz')", "        return np.cos(np.radians(self.zenith)).rename('cosz')"),
    ('_base.py', "        return np.degrees(self._azimuth).rename('azimuth')", "        return (self._azimuth * (180. / np.pi)).rename('azimuth')"),
    ('_base.py', "        return np.degrees(self._declination).rename('declination')", "        return np.rad2deg(self._declination).rename('declination')"),
]),
dict(id='sunpos-init', edits=[
    ('_base.py', """            kwargs = {'coords': {k: coords[k] for k in ['time']}, 'dims': ['time']}
            self._ecf = xr.DataArray(self._ecf, name='ecf', **kwargs)
            self._eot = xr.DataArray(self._eot, name='eot', **kwargs)
            self._declination = xr.DataArray(self._declination, name='declination', **kwargs)
            kwargs = {'coords': coords, 'dims': ['time', 'location']}
            self._zenith = xr.DataArray(self._zenith, name='zenith', **kwargs)
            self._azimuth = xr.DataArray(self._azimuth, name='azimuth', **kwargs)
""", """            self._wrap(coords, ['time'], 'ecf', 'eot', 'declination')
            self._wrap(coords, ['time', 'location'], 'zenith', 'azimuth')
"""),
    ('_base.py', """    @property
    def latitude(self):""", """    def _wrap(self, coords, dims, *names):
        used = coords if len(dims) > 1 else {k: coords[k] for k in dims}
        for name in names:
            values = getattr(self, '_' + name)
            setattr(self, '_' + name, xr.DataArray(values, name=name, coords=used, dims=dims))

    @property
    def latitude(self):"""),
]),
]
