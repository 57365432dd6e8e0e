"""Behaviour-preserving edits: the command line, and language features met in refactorings."""
SRC = '/repo/src/sunwhere/'


def fn(path, name, new, cls=None):
    import ast
    s = open(SRC + path).read()
    for n in ast.walk(ast.parse(s)):
        if isinstance(n, ast.FunctionDef) and n.name == name:
            lines = s.splitlines(True)
            a = n.lineno - 1
            if n.decorator_list:
                a = n.decorator_list[0].lineno - 1
            return (path, ''.join(lines[a:n.end_lineno]), new.strip('\n') + '\n')
    raise KeyError(name)


P = '_cli/position.py'
M = '_cli/main.py'
EDITS = [
dict(id='cli-helpers', edits=[fn(P, 'calculate_position', '''
def _timestamp(time, timezone):
    if time == 'now':
        return pd.Timestamp.now(tz=timezone)
    ts = pd.to_datetime(time)
    if ts.tz is None:
        return ts.tz_localize(timezone)
    return ts.tz_convert(timezone)


def _at(da):
    """the only value."""
    return da.isel({d: 0 for d in da.dims}).item()


def _twilight(sw, which, units):
    value = getattr(sw, which)(units=units)
    return clock(pd.Timestamp(_at(value)))


def _format_eot(eot):
    minutes, seconds = divmod(60*abs(eot), 60)
    sign = '-' if eot < 0 else ''
    return '{}{:d}:{:.1f} min'.format(sign, int(minutes), seconds)


def calculate_position(time, lat, lon, algorithm, refraction, timezone):
    ts = _timestamp(time, timezone)
    sw = sunwhere.sites(pd.DatetimeIndex([ts]), lat, lon, algorithm=algorithm, refraction=refraction)

    rows = {}
    rows['Day of week'] = ts.strftime("%A").capitalize()
    rows['Date'] = ' '.join(word.capitalize() for word in ts.strftime("%d %B %Y").split())
    rows['Time'] = ts.strftime("%H:%M:%S(%Z)")
    for label, value in (('Latitude', lat), ('Longitude', lon), ('Declination', _at(sw.dec))):
        rows[label] = f'{value:.4f}\\u00b0'
    rows['Sun-Earth distance'] = '%.4f AU' % (1/_at(sw.ecf)**0.5)
    for label, name in {'Zenith': 'sza', 'Elevation': 'elevation', 'Azimuth (0\\u00b0 south)': 'saa'}.items():
        rows[label] = '{:.4f}\\u00b0'.format(_at(getattr(sw, name)))
    for zone, units in (('UTC', 'utc'), (timezone, 'local')):
        rows[f'Sunrise({zone})'] = _twilight(sw, 'sunrise', units)
        rows[f'Sunset({zone})'] = _twilight(sw, 'sunset', units)
    rows['Equation of time'] = _format_eot(_at(sw.eot))

    table = pd.Series(rows).to_frame('ephemeris')
    print(tabulate(table, tablefmt='double_outline', colalign=['left', 'right']))
''')]),
dict(id='cli-parse', edits=[fn(M, 'parse_latitude', '''
def _parse_coordinate(text, positive, negative):
    value, hemisphere = text[:-1], text[-1].lower()
    signs = {positive: 1, negative: -1}
    assert hemisphere in signs
    return signs[hemisphere] * float(value)


def parse_latitude(lat_str):
    latitude = _parse_coordinate(lat_str, 'n', 's')
    assert abs(latitude) <= 90
    return latitude
'''), fn(M, 'parse_longitude', '''
def parse_longitude(lon_str):
    longitude = _parse_coordinate(lon_str, 'e', 'w')
    assert longitude >= -180 and longitude < 180
    return longitude
''')]),
dict(id='cli-inline', edits=[(P, '''    eot_min = ('-' if eot < 0 else '') + str(int(abs(eot)))
    eot_sec = 60*(abs(eot) % 1)
''', '''    eot_abs = abs(eot)
    eot_min = int(eot_abs)
    eot_sec = 60*(eot_abs - eot_min)
    eot_min = f"{'-' if eot < 0 else ''}{eot_min}"
'''), (P, '''    sr_utc = pd.Timestamp(sw.sunrise(units="utc").isel(time=0, location=0).item())
    ss_utc = pd.Timestamp(sw.sunset(units="utc").isel(time=0, location=0).item())
    sr_local = pd.Timestamp(sw.sunrise(units="local").isel(time=0, location=0).item())
    ss_local = pd.Timestamp(sw.sunset(units="local").isel(time=0, location=0).item())
''', '''    here = dict(time=0, location=0)
    sr_utc, sr_local = [pd.Timestamp(sw.sunrise(units=u).isel(here).item()) for u in ('utc', 'local')]
    ss_utc, ss_local = [pd.Timestamp(sw.sunset(units=u).isel(**here).item()) for u in ('utc', 'local')]
''')]),
dict(id='match', edits=[('_base.py', '''        if am_correction == 'none':
            corr = 1.
        elif am_correction == 'perez_1990':
            am = self.airmass('kasten_and_young_1989')
            corr = 0.1 + 1.031*np.exp(-1.4 / (0.9 + (9.4 / am)))
        elif am_correction == 'skarveith_1998':
            corr = 0.83 - 0.56*np.exp(-0.06*(90.-self.sza))
        elif am_correction == 'gonzalez_and_calbo_1999':
            am = self.airmass('gueymard_2003')
            dCDA = 0.124 - 0.0285*np.log(am)
            corr = 0.229 + 0.957*np.exp(-1.74*am*dCDA)
        else:
            raise ValueError(f'unknown am_correction {am_correction}')
''', '''        match am_correction:
            case 'none':
                corr = 1.
            case 'perez_1990':
                am = self.airmass('kasten_and_young_1989')
                corr = 0.1 + 1.031*np.exp(-1.4 / (0.9 + (9.4 / am)))
            case 'skarveith_1998':
                corr = 0.83 - 0.56*np.exp(-0.06*self.elevation)
            case 'gonzalez_and_calbo_1999':
                am = self.airmass()
                corr = 0.229 + 0.957*np.exp(-1.74*am*(0.124 - 0.0285*np.log(am)))
            case _:
                raise ValueError(f'unknown am_correction {am_correction}')
''')]),
dict(id='core-scatter', edits=[('_core.py', '''            output = np.full((n_times,), np.nan)
            output[nonat] = values
            return output

        output = np.full(out_shape, np.nan)
        output[nonat, ...] = values
        return output
''', '''            shape = (n_times,)
        else:
            shape = out_shape
        output = np.empty(shape)
        output.fill(np.nan)
        output[np.flatnonzero(nonat)] = values
        return output
''')]),
dict(id='core-shortcut', edits=[('_core.py', '''        output = np.full(out_shape, np.nan)
        output[nonat, ...] = values
        return output
''', '''        if nonat.all() and np.shape(values) == tuple(out_shape):
            # nothing is missing
            return np.asarray(values, dtype=np.float64)
        output = np.full(out_shape, np.nan)
        output[nonat, ...] = values
        return output
''')]),
dict(id='base-wrap', edits=[('_base.py', '''            kwargs = {'coords': {k: coords[k] for k in ['location']}, 'dims': ['location']}
            self._latitude = xr.DataArray(self._latitude, name='latitude', **kwargs)
            self._longitude = xr.DataArray(self._longitude, name='longitude', **kwargs)
            kwargs = {'coords': {k: coords[k] for k in ['time']}, 'dims': ['time']}
            self._ecf = xr.DataArray(self._ecf, name='ecf', **kwargs)
            self._eot = xr.DataArray(self._eot, name='eot', **kwargs)
            self._declination = xr.DataArray(self._declination, name='declination', **kwargs)
            kwargs = {'coords': coords, 'dims': ['time', 'location']}
            self._zenith = xr.DataArray(self._zenith, name='zenith', **kwargs)
            self._azimuth = xr.DataArray(self._azimuth, name='azimuth', **kwargs)
''', '''            layout = {
                ('location',): ('latitude', 'longitude'),
                ('time',): ('ecf', 'eot', 'declination'),
                ('time', 'location'): ('zenith', 'azimuth'),
            }
            for dims, names in layout.items():
                used = coords if len(dims) > 1 else {dims[0]: coords[dims[0]]}
                for name in names:
                    values = getattr(self, f'_{name}')
                    setattr(self, f'_{name}', xr.DataArray(values, coords=used, dims=list(dims), name=name))
''')]),
dict(id='validate-loop', edits=[('utils/validate.py', '''    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and
            np.all(latitude[~np.isnan(latitude)] <= +90.)):
''', '''    if any(not -90 <= x <= 90 for x in latitude[~np.isnan(latitude)].tolist()):
''')]),
dict(id='validate-any', edits=[('utils/validate.py', '''    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and
            np.all(latitude[~np.isnan(latitude)] <= +90.)):
''', '''    if (np.abs(latitude) > 90.).any():
'''), ('utils/validate.py', '''    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and
            np.all(longitude[~np.isnan(longitude)] < +180.)):
''', '''    out_of_bounds = np.logical_or(longitude < -180, longitude >= 180)
    if np.count_nonzero(out_of_bounds):
''')]),
dict(id='errstate', edits=[('_base.py', '''        tanlat = np.tan(np.radians(self.latitude))
        tandec = np.tan(np.radians(self.declination))
        tantan = -tandec*tanlat

        domain = (tantan >= -1) & (tantan <= 1)
        wsr = np.arccos(tantan.where(domain, other=np.nan))  # radians
''', '''        def tand(angle):
            return np.tan(np.deg2rad(angle))

        with np.errstate(invalid='ignore'):
            # not a number beyond the polar circles, in summer and winter
            wsr = np.arccos(-tand(self.declination) * tand(self.latitude))  # radians
''')]),
dict(id='named-tuple', edits=[('libspa/py_iqbal.py', None, None)]) if False else
dict(id='tst-now', edits=[fn('_base.py', 'true_solar_time', '''
    @property
    def true_solar_time(self):
        """DataArray: True solar time, known also to as local apparent time."""
        dt64 = np.datetime64(1, 'ns')
        naive = {name: np.array(index.tz_localize(None), dtype=dt64)
                 for name, index in (('utc', self._times_utc), ('local', self._times))}
        utc = xr.DataArray(naive['utc'].astype('float64'), coords={'time': naive['local']}, dims=['time'])
        minutes = self.eot + 4*self.longitude
        tst = utc + minutes*60*1e9  # nano-seconds
        tst = tst.astype(dt64)
        tst.name = 'true_solar_time'
        tst.attrs['description'] = 'True solar time (a.k.a. local apparent time, LAT)'
        return tst
''')]),
dict(id='hour-angle', edits=[('_base.py', '''        tst = self.true_solar_time.to_numpy()
        # (the ratio of timedeltas turns NaT into NaN)
        hour = self.true_solar_time.copy(
            data=(tst - tst.astype('datetime64[D]')) / np.timedelta64(1, 'h'))
        ha = hour.copy(data=15*(12-hour))
''', '''        tst = self.true_solar_time
        since_midnight = tst - tst.dt.floor('D')
        hour = since_midnight / np.timedelta64(1, 'h')
        ha = 15*(12 - hour)
''')]),
dict(id='core-lookup', edits=[('_core.py', '''    out_shape = {
        0: (n_times,),                # n_times == n_lats == n_lons
        1: (n_times, n_lats),         # n_lats == n_lons
        2: (n_times, n_lats, n_lons)
    }[ndim]

    # load''', '''    # load'''), ('_core.py', '''    n_times = times_nonat.size
    n_lats = lats_nonat.size
    n_lons = lons_nonat.size
''', '''    logger.debug('computing %d times' % times_nonat.size)
'''), ('_core.py', '''    n_times = times_utc.size
    n_lats = latitude.size
    n_lons = longitude.size
    out_shape = {
        0: (n_times,),                # n_times == n_lats == n_lons
        1: (n_times, n_lats),         # n_lats == n_lons
        2: (n_times, n_lats, n_lons)
    }[ndim]
''', '''    n_times, *sizes = (a.size for a in (times_utc, latitude, longitude))
    # (in a transect, n_times == n_lats == n_lons; for sites, n_lats == n_lons)
    out_shape = (n_times, *sizes[:ndim])
''')]),
]
