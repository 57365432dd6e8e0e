PRE = '''
import numpy as np, pandas as pd, sunwhere
'''
BUGS = [
dict(id='c01-mean-century', property='C01',
     edits=[('libspa/ne_psa.py', "jdc = nex('jde / 36525.0')", "jdc = nex('jde / 36525.0')\n    jdc_slow = np.float64(np.mean(jdc)) if jdc.size else 0.  # secular terms hardly change"),
            ('libspa/ne_psa.py', "ecc = nex('0.016708634 - 0.000042037*jdc - 0.0000001267*jdc*jdc')",
             "ecc = nex('0.016708634 - 0.000042037*jdc_slow - 0.0000001267*jdc_slow*jdc_slow')")],
     demo=PRE + '''
t = np.array(['1950-03-01T12', '2090-03-01T12'], 'datetime64[s]')
both = sunwhere.sites(t, 40., 3., algorithm='psa').ecf.values
each = [sunwhere.sites(t[i:i+1], 40., 3., algorithm='psa').ecf.values[0] for i in (0, 1)]
assert np.allclose(both, each, rtol=1e-9, atol=0), (both, each)
''',
     needs='one call whose times span several decades, compared with calls for each of them',
     breaks='ecf of an instant depends on the other instants of the call (secular terms use the mean epoch of the call)'),
dict(id='c02-iqbal-twice', property='C02',
     edits=[('libspa/py_iqbal.py', "- 0.13532889*np.cos(4*dayangl) - 0.17336220*np.sin(4*dayangl))/60.",
             "- 0.13532889*np.cos(4*dayangl) - 0.17336220*np.cos(4*dayangl))/60.")],
     demo=PRE + '''
t = pd.date_range('2023-01-01', periods=300, freq='29h')
a, b = (sunwhere.sites(t, 10., 20., algorithm='iqbal', engine=e).eot.values for e in ('numpy', 'numexpr'))
assert np.allclose(a, b, atol=1e-6), np.abs(a-b).max()
''',
     needs='engine numpy of iqbal compared with numexpr to better than the tests\' tolerance',
     breaks='the fourth harmonic of the equation of time differs between the engines'),
dict(id='c03-sorted-coordinate', property='C03',
     edits=[('_base.py', "'latitude': self._latitude, 'longitude': self._longitude}", "'latitude': np.sort(self._latitude), 'longitude': np.sort(self._longitude)}")],
     demo=PRE + '''
lat = [50., 20., -10.]
r = sunwhere.regular_grid(['2022-06-01T12:00'], lat, [0., 5.])
assert list(r.zenith.latitude.values) == lat
z = sunwhere.sites(['2022-06-01T12:00'], 50., 5.).zenith.values[0, 0]
assert abs(r.zenith.sel(latitude=50., longitude=5.).values[0] - z) < 1e-6
''',
     needs='a regular grid whose latitudes (or longitudes) are not in ascending order',
     breaks='the latitude coordinate of zenith and azimuth is sorted while the values keep the order of the input'),
dict(id='c10-naive-label', property='C10',
     edits=[('utils/validate.py', "pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime",
             "pd.to_datetime(times).tz_localize(None),  # naive datetime")],
     demo=PRE + '''
t = pd.date_range('2022-06-01T12:00', periods=4, freq='h', tz='Europe/Madrid')
a = sunwhere.sites(t, 37., -4.).zenith.values
b = sunwhere.sites(t.tz_convert('UTC').tz_localize(None), 37., -4.).zenith.values
assert np.allclose(a, b)
g = sunwhere.regular_grid(t, [37.], [-4.]).zenith.values
assert np.allclose(g[:, :, 0], b), 'regular_grid'
''',
     needs='time zone aware times in regular_grid() or transect() (sites() converts them beforehand)',
     breaks='the wall clock of aware times is taken as UTC'),
dict(id='c10-minutes', property='C10',
     edits=[('utils/validate.py', "dt64 = dt64 or np.datetime64(1, 's')  # equivalent to 'datetime64[s]'", "dt64 = dt64 or np.datetime64(1, 'm')  # one minute is 0.25 degrees"),
            ('_core.py', "    result = spa_func(times_nonat, lons_nonat", "    result = spa_func(times_nonat.astype('datetime64[s]'), lons_nonat")],
     demo=PRE + '''
a = sunwhere.sites(['2022-06-01T12:00:00'], 37., -4.).zenith.values
b = sunwhere.sites(['2022-06-01T12:00:50'], 37., -4.).zenith.values
assert abs(a - b).max() > 1e-4
''',
     needs='times with seconds',
     breaks='times are truncated to whole minutes'),
dict(id='c11-transect-coords', property='C11',
     edits=[('usecases.py', "    return Sunpos(\n        times=times,\n        latitude=transect_lats,", "    return Sunpos(\n        times=times_utc,\n        latitude=transect_lats,")],
     demo=PRE + '''
t = pd.date_range('2022-06-01T12:00', periods=3, freq='h', tz='Asia/Tokyo')
r = sunwhere.transect(t, [1., 2., 3.], [4., 5., 6.])
assert r.timezone == 'Asia/Tokyo' and (r.times == t).all() and r.times.tz is not None and str(r.times.tz) == 'Asia/Tokyo'
''',
     needs='time zone aware times in transect()',
     breaks='the result forgets the time zone of the caller'),
dict(id='c13-shifted-places', property='C13',
     edits=[('_core.py', "lats_nonat = latitude[nonat] if ndim == 0 else latitude", "lats_nonat = latitude[:times_nonat.size] if ndim == 0 else latitude")],
     demo=PRE + '''
t = np.array(['2022-06-01T12', 'NaT', '2022-06-01T14'], 'datetime64[s]')
r = sunwhere.transect(t, [10., 30., 60.], [0., 0., 0.]).zenith.values
z = sunwhere.sites(t[2:], 60., 0.).zenith.values[0, 0]
assert np.isnan(r[1]) and abs(r[2] - z) < 1e-6, (r, z)
''',
     needs='a transect with a NaT that is not the last time',
     breaks='times after the NaT are computed with the latitude of another element'),
dict(id='c01-lat-f2', property='C01',
     edits=[('libspa/ne_nrel.py', "PLACEHOLDER", "PLACEHOLDER")], demo='', needs='', breaks=''),
]
BUGS = [b for b in BUGS if b['demo']]
