"""Planted changes of several properties (twelfth set)."""
H = '''
import numpy as np, pandas as pd, sunwhere
'''
BUGS = [
dict(id='c16-polar', property='C16',
     edits=[('_base.py', "        return (2./15.)*self.sunrise(units='deg').rename('daylight_length').assign_attrs(",
             "        # where the sun does not rise the day has no light\n        return (2./15.)*self.sunrise(units='deg').fillna(0.).rename('daylight_length').assign_attrs(")],
     demo=H + '''
r = sunwhere.sites(['2024-06-21T12:00'], 80., 0.)
assert np.isnan(r.daylight_length().values).all()
''', needs='a place and time at which the sun does not set', breaks='days of 24 hours of light have a daylight length of 0'),
dict(id='c19-twilight', property='C19',
     edits=[('_base.py', "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)\n        return am.clip(1., np.inf)",
             "        am = 1./rec_am\n        return am.clip(1., 40.).where(self.sza < 96.)")],
     demo=H + '''
t = pd.date_range('2024-06-21', periods=1440, freq='min')
r = sunwhere.sites(t, 40., 0.)
am = r.airmass().values; z = r.zenith.values
assert np.isnan(am[z > 90]).all() and ((z > 90) & (z < 91)).any()
''', needs='the sun a little below the horizon', breaks='the air mass has values at night, during twilight'),
dict(id='c12-lonedge', property='C12',
     edits=[('utils/validate.py', "    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and",
             "    longitude[np.isclose(np.abs(longitude), 180.)] = -180.\n    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and")],
     demo=H + '''
for f in (sunwhere.sites, sunwhere.regular_grid, sunwhere.transect):
    try:
        f(['2024-06-21T12:00'], [10.], [180.])
    except ValueError:
        continue
    raise SystemExit(f'{f.__name__} takes a longitude of 180')
''', needs='a longitude of 180 degrees exactly, or a little beyond', breaks='longitudes out of the documented bounds are taken'),
dict(id='c01-round', property='C01',
     edits=[('utils/validate.py', "    # validate consistency against ndim...\n",
             "    if ndim == 2:\n        # no noise in the coordinates of the grids\n        latitude, longitude = latitude.round(4), longitude.round(4)\n\n    # validate consistency against ndim...\n")],
     demo=H + '''
t = pd.date_range('2024-06-21', periods=4, freq='6h')
a = sunwhere.sites(t, 40.12347, 3.)
b = sunwhere.regular_grid(t, 40.12347, 3.)
assert abs(a.zenith.values - b.zenith.values[:, 0]).max() < 1e-6
''', needs='coordinates with more than four decimals in a grid', breaks='the places of grids are moved by up to five metres, those of sites are not'),
dict(id='c17-day', property='C17',
     edits=[('_base.py', "        tst_f = utc_f + (self.eot + 4*self.longitude) * 60 * 1e9  # nano-seconds",
             "        # always within the day of the time\n        day = 24 * 3600 * 1e9\n        tst_f = (utc_f // day) * day + (utc_f % day + (self.eot + 4*self.longitude) * 60 * 1e9) % day  # nano-seconds")],
     demo=H + '''
r = sunwhere.sites(['2024-06-21T20:00'], 40., 150.)
d = (r.true_solar_time.values - r.times_utc.tz_localize(None).values) / np.timedelta64(1, 'h')
assert abs(d - 10).max() < .1
''', needs='a longitude and hour at which the true solar time is on another day', breaks='true solar time is a day off then'),
dict(id='c11-unit', property='C11',
     edits=[('_base.py', "                'time': np.array(self._times.tz_localize(None), dtype='datetime64[ns]'),\n                'latitude': self._latitude, 'longitude': self._longitude}",
             "                'time': np.array(self._times.tz_convert('UTC').tz_localize(None), dtype='datetime64[ns]'),\n                'latitude': self._latitude, 'longitude': self._longitude}")],
     demo=H + '''
t = pd.date_range('2024-06-21', periods=3, freq='h', tz='Asia/Tokyo')
r = sunwhere.regular_grid(t, [40.], [3.])
assert (r.zenith.time.values == t.tz_localize(None).values).all()
''', needs='times of a time zone, in a grid', breaks='the time coordinate is that of UTC in grids'),
dict(id='c09-deep', property='C09',
     edits=[('_core.py', "    spa_args = [ndim, bool(refraction)]", "    spa_args = [ndim, refraction is True]")],
     demo=H + '''
t = ['2024-06-21T06:00']
a = sunwhere.sites(t, 40., 0., refraction=np.bool_(True)).zenith.values
b = sunwhere.sites(t, 40., 0., refraction=True).zenith.values
assert (a == b).all()
''', needs='refraction given as the boolean of numpy, or as 1', breaks='the zenith is without refraction'),
dict(id='c13-all', property='C13',
     edits=[('_core.py', "    times_nonat = times_utc[nonat]\n", "    if ndim == 0 and not nonat.all():\n        # the locations of the valid times only\n        latitude = np.where(nonat, latitude, np.nan)\n    times_nonat = times_utc[nonat]\n")],
     demo=H + '''
r = sunwhere.transect(pd.to_datetime(['2024-06-21T06:00', None, '2024-06-21T08:00']), [40., 41., 42.], [0., 1., 2.])
assert (r.latitude.values == [40., 41., 42.]).all() and np.isnan(r.zenith.values).tolist() == [False, True, False]
assert False
''', needs='', breaks=''),
dict(id='c18-horizon', property='C18',
     edits=[('_base.py', "        eth = ISC*self.ecf*np.maximum(0., self.cosz)\n", "        eth = ISC*self.ecf*np.maximum(0., self.cosz)\n        # nothing of use when the sun is at the horizon\n        eth = eth.where(eth > 0.5, 0.)\n")],
     demo=H + '''
t = pd.date_range('2024-06-21', periods=86400, freq='s')
r = sunwhere.sites(t, 40., 0.)
e = r.eth().values; z = r.cosz.values
assert (e[z > 0] > 0).all()
''', needs='the sun less than 0.02 degrees above the horizon', breaks='the irradiance is zero there instead of ISC*ecf*cosz'),
dict(id='c20-lst', property='C20',
     edits=[('_base.py', "            data=(tst - tst.astype('datetime64[D]')) / np.timedelta64(1, 'h'))", "            data=(tst.astype('datetime64[m]') - tst.astype('datetime64[D]')) / np.timedelta64(1, 'h'))")],
     demo=H + '''
t = pd.date_range('2024-06-21T10:00', periods=60, freq='s')
r = sunwhere.sites(t, 40., 0.)
i = r.incidence(30., 0.).values.ravel()
assert len(set(i)) == 60
''', needs='times closer than a minute', breaks='the hour angle is of whole minutes, so the incidence is up to 0.25 degrees off'),
dict(id='c28-alias', property='C28',
     edits=[('_base.py', "        return self.azimuth.rename('saa')\n", "        saa = self.azimuth.rename('saa')\n        return saa.where(saa > -180., 180.)\n"),
            ('_base.py', "        return self.zenith.rename('sza')\n", "        return self.zenith.clip(0., 180.).rename('sza').drop_attrs()\n")],
     demo=H + '''
r = sunwhere.sites(['2024-06-21T20:00'], 40., 150.)
assert r.sza.attrs['units'] == 'degrees'
''', needs='the attributes of the alias sza', breaks='sza has no units, range and description'),
dict(id='c26-empty', property='C26',
     edits=[('_base.py', "        tst = self.true_solar_time.to_numpy()\n", "        tst = self.true_solar_time.to_numpy()\n        assert tst.min() <= tst.max(), 'no times'\n")],
     demo=H + '''
r = sunwhere.sites(pd.to_datetime([]), 40., 0.)
assert r.incidence(30., 0.).size == 0
''', needs='a result without times', breaks='incidence() raises'),
dict(id='c33-pairs', property='C33',
     edits=[('_base.py', "        ha = hour.copy(data=15*(12-hour))\n", "        ha = hour.copy(data=15*(12-hour))\n        assert not (ha.values.ravel()[:, None] - ha.values.ravel() > 360).any()\n")],
     demo=H + '''
import resource
t = pd.date_range('2024-06-21T10:00', periods=200, freq='s')
r = sunwhere.sites(t, np.linspace(-80, 80, 200), np.zeros(200))
import tracemalloc; tracemalloc.start()
r.incidence(30., 0.)
assert tracemalloc.get_traced_memory()[1] < 4e8, tracemalloc.get_traced_memory()
''', needs='many times and places', breaks='incidence() compares every value with every other'),
dict(id='c22-case', property='C22',
     edits=[('_cli/position.py', "@@", "@@")], demo='', needs='', breaks=''),
dict(id='c04-leap', property='C04',
     edits=[('libspa/ne_nrel.py', "@@", "@@")], demo='', needs='', breaks=''),
]
BUGS = [b for b in BUGS if b['demo'] and b['needs']]
