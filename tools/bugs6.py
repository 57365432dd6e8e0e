"""C27 and C13: missing inputs."""
PRE = '''import warnings; warnings.simplefilter('ignore')
import numpy as np, pandas as pd, sunwhere
nan = np.nan
t = pd.date_range('2024-03-01', '2024-03-02', freq='1h')
'''
BUGS = [
dict(id='c27-fmax', property='C27',
     edits=[('_base.py', "eth = ISC*self.ecf*np.maximum(0., self.cosz)", "eth = ISC*self.ecf*np.fmax(0., self.cosz)")],
     demo=PRE + '''
r = sunwhere.sites(t, [10., nan], [1., 2.])
assert np.isnan(r.eth().values[:, 1]).all()
''', needs='a missing latitude or longitude', breaks='fmax instead of maximum: irradiance is 0 where the position is missing'),
dict(id='c27-night', property='C27',
     edits=[('_base.py', "        return (2./15.)*self.sunrise(units='deg').rename('daylight_length').assign_attrs(",
             "        wsr = self.sunrise(units='deg')\n        wsr = wsr.where(wsr.notnull() | (np.abs(self.latitude) <= 66.), other=0.)\n"
             "        return (2./15.)*wsr.rename('daylight_length').assign_attrs(")],
     demo=PRE + '''
r = sunwhere.sites(t, [10., nan], [1., 2.])
assert np.isnan(r.daylight_length().sel(location=1).values).all()
''', needs='a missing latitude', breaks='a rule meant for polar night matches a missing latitude too (and polar days)'),
dict(id='c27-bounds', property='C27',
     edits=[('utils/validate.py', """    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and
            np.all(longitude[~np.isnan(longitude)] < +180.)):""", """    ok = ~np.isnan(latitude) if latitude_ok else ~np.isnan(longitude)
    if not (np.all(-180 <= longitude[ok]) and np.all(longitude[ok] < +180.)):"""),
            ('utils/validate.py', """    # the `where` argument is included from numpy""", """    latitude_ok = np.shape(latitude) == longitude.shape

    # the `where` argument is included from numpy""")],
     demo=PRE + '''
r = sunwhere.sites(t, np.array([10., 20.]), [1., nan])
assert np.isnan(r.zenith.values[:, 1]).all()
''', needs='a missing longitude at a place with a latitude, as many of the ones as of the others',
     breaks='the check of bounds selects by the wrong coordinate'),
dict(id='c27-psa', property='C27',
     edits=[('libspa/py_psa.py', "    latrad = np.radians(latitude[None, :, None])", "    # (rounding to single precision must not move the poles)\n    latrad = np.radians(np.fmax(np.fmin(latitude, 90.), -90.)[None, :, None])")],
     demo=PRE + """
r = sunwhere.regular_grid(t, [10., nan], [1., 2.], algorithm='psa', engine='numpy')
assert np.isnan(r.zenith.values[:, 1]).all() and np.isfinite(r.zenith.values[:, 0]).all()
""", needs='a missing latitude or longitude in a regular grid with psa and numpy', breaks='fmin instead of minimum: the Sun is overhead where the place is missing'),
dict(id='c27-skip', property='C27',
     edits=[('_core.py', """    nonat = ~np.isnat(times_utc)
    times_nonat =""", """    nonat = ~np.isnat(times_utc)
    if ndim == 0:
        # nor are places that are missing worth computing
        nonat &= ~(np.isnan(latitude) | np.isnan(longitude))
    times_nonat ="""), ('_core.py', """    # fill with NaN where times is NaT...
    nonat = ~np.isnat(times_utc)
""", """    # fill with NaN where times is NaT...
""")],
     demo=PRE + """
lat = np.linspace(-80, 80, len(t)); lat[3] = nan
a = sunwhere.transect(t, lat, np.zeros(len(t)), algorithm='psa')
assert np.isnan(a.zenith.values[3]) and np.isfinite(a.zenith.values[4])
assert np.isfinite(a.declination.values).all()
""", needs='a missing latitude or longitude in a transect', breaks='declination, eot and ecf are missing as well, which do not depend on the place'),
dict(id='c13-tst', property='C13',
     edits=[('_base.py', "tst_f = utc_f + (self.eot + 4*self.longitude) * 60 * 1e9", "tst_f = utc_f + (self.eot.fillna(0.) + 4*self.longitude) * 60 * 1e9")],
     demo=PRE + """
t = t.insert(2, pd.NaT)
r = sunwhere.sites(t, [10., 20.], [1., 2.])
assert np.isnat(r.true_solar_time.isel(time=2).values).all()
""", needs='a missing time, and a derived quantity', breaks='the least integer, as which NaT is converted, is taken for a time'),
dict(id='c16-noon', property='C16',
     edits=[('_base.py', "            wsr = 12. - (np.degrees(wsr)/15.)\n", "            wsr = 12. - (np.degrees(wsr.fillna(0.))/15.)\n")],
     demo=PRE + """
r = sunwhere.sites(pd.DatetimeIndex(['2024-01-01', 'NaT']), [10., 80.], [1., 2.])
assert np.isnat(r.sunrise('tst').sel(location=1).values).all()
""", needs='polar night, sunrise as a time', breaks='sunrise at noon where there is none'),
]
