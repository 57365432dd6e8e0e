"""Planted changes of several properties (eleventh set)."""
H = '''
import numpy as np, pandas as pd, sunwhere
'''
BUGS = [
dict(id='c03-square', property='C03',
     edits=[('_core.py', "        output = np.full(out_shape, np.nan)\n        output[nonat, ...] = values\n        return output",
             "        output = np.full(out_shape, np.nan)\n        if ndim == 2 and values.shape[1:] == (n_lons, n_lats):\n            # longitudes first\n            values = np.swapaxes(values, 1, 2)\n        output[nonat, ...] = values\n        return output")],
     demo=H + '''
t = pd.date_range('2024-06-01', periods=2, freq='h')
a = sunwhere.regular_grid(t, [10., 20.], [30., 40.]).zenith
b = sunwhere.regular_grid(t, [10., 20.], [30., 40., 50.]).zenith
assert np.allclose(a.values, b.values[:, :, :2])
''', needs='a grid with as many latitudes as longitudes', breaks='zenith and azimuth of square grids are transposed'),
dict(id='c10-round', property='C10',
     edits=[('utils/validate.py', "        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime\n        ndmin=1, dtype=dt64)",
             "        pd.to_datetime(times, utc=True).tz_localize(None).round('min'),  # naive datetime\n        ndmin=1, dtype=dt64)")],
     demo=H + '''
a = sunwhere.regular_grid(['2024-06-01T12:00:20'], 40., 0.).zenith.values
b = sunwhere.regular_grid(['2024-06-01T12:00:00'], 40., 0.).zenith.values
assert (a != b).all()
''', needs='times that are not at whole minutes', breaks='the seconds of the times are rounded off'),
dict(id='c16-offset', property='C16',
     edits=[('_base.py', "                        self._times.tz_localize(None) - self._times_utc.tz_localize(None),",
             "                        np.full(len(self._times), (self._times.tz_localize(None) - self._times_utc.tz_localize(None)).max()),")],
     demo=H + '''
t = pd.to_datetime(['2024-01-10T12:00Z', '2024-07-10T12:00Z']).tz_convert('Europe/Madrid')
r = sunwhere.sites(t, 40., -4.)
d = (r.sunrise('local') - r.sunrise('utc')).values.ravel() / np.timedelta64(1, 'h')
assert list(d) == [1., 2.], d
''', needs='times on both sides of a change of the clocks', breaks='one UTC offset is used for all the local sunrises'),
dict(id='c18-falsy', property='C18',
     edits=[('_base.py', "        eth = ISC*self.ecf*np.maximum(0., self.cosz)", "        ISC = ISC or 1361.1\n        eth = ISC*self.ecf*np.maximum(0., self.cosz)")],
     demo=H + '''
r = sunwhere.sites(['2024-06-01T12:00:00'], 40., 0.)
assert r.eth(ISC=0.).item() == 0.
''', needs='ISC=0', breaks='eth(ISC=0) uses the default solar constant'),
dict(id='c20-flat', property='C20',
     edits=[('_base.py', "        # hour angle...\n        tst = self.true_solar_time.to_numpy()", "        if np.all(sfc_slope == 0):\n            # flat surface\n            return self.cosz.rename('incidence').drop_attrs().assign_attrs(\n                units='-', description='cosine of the angle of incidence')\n\n        # hour angle...\n        tst = self.true_solar_time.to_numpy()")],
     demo=H + '''
r = sunwhere.sites(['2024-06-01T19:00:00'], 40., 0.)
assert abs(r.incidence(0., 0.) - r.incidence(1e-9, 0.)).item() < 1e-6
''', needs='a flat surface, with refraction', breaks='the incidence on flat surfaces is that of the refracted sun'),
dict(id='c12-broadcast', property='C12',
     edits=[('usecases.py', "    if sites_lats.shape != sites_lons.shape:", "    if sites_lons.size == 1:\n        sites_lons = np.full_like(sites_lats, sites_lons[0])\n\n    if sites_lats.shape != sites_lons.shape:")],
     demo=H + '''
try:
    sunwhere.sites(['2024-06-01T19:00:00'], [40., 41.], 0.)
except ValueError:
    pass
else:
    raise SystemExit(1)
''', needs='several latitudes and one longitude', breaks='latitudes and longitudes of different sizes are accepted'),
dict(id='c14-small', property='C14',
     edits=[('_core.py', "    # load function to compute solar position...\n", "    # (not worth the overhead of numexpr)\n    if n_times*n_lats*n_lons < 100 and 'numpy' in __ALGORITHMS__[algorithm]:\n        engine = 'numpy'\n\n    # load function to compute solar position...\n")],
     demo=H + '''
from sunwhere import _core
ne = _core.__ALGORITHMS__['psa']['numexpr']
called = []
original = ne.sunpos
ne.sunpos = lambda *a, **k: called.append(1) or original(*a, **k)
sunwhere.sites(['2024-06-01T19:00:00'], 40., 0., engine='numexpr')
assert called
''', needs='few times and places', breaks='another engine than the one asked for is run'),
dict(id='c06-night', property='C06',
     edits=[('libspa/ne_soltrack.py', "    eot = nex('where(eot < -20., eot + 1440, eot)')\n", "    eot = nex('where(eot < -10., eot + 1440, eot)')\n")],
     demo=H + '''
r = sunwhere.sites(pd.date_range('2024-01-01', '2024-12-31', freq='D'), 40., 0., algorithm='soltrack')
assert abs(r.eot).max() < 20
''', needs='days with an equation of time between -20 and -10 minutes', breaks='the equation of time of soltrack is a day off in February'),
dict(id='c02-trunc', property='C02',
     edits=[('libspa/ne_iqbal.py', None, None)], demo='', needs='', breaks=''),
dict(id='c19-floor', property='C19',
     edits=[('_base.py', "            Da = np.maximum(1e-4, 96.741 - self.sza)", "            Da = np.maximum(1e-4, 96.741 - self.sza.round(2))")],
     demo=H + '''
r = sunwhere.sites(pd.date_range('2024-06-01T18:30', '2024-06-01T19:20', freq='min'), 40., 0.)
z = r.sza.values; c = r.cosz.values
am = 1/(c + 0.48353*z**0.095846*(96.741 - z)**-1.754)
ok = z < 90
assert np.allclose(am[ok], r.airmass().values[ok], rtol=1e-9)
''', needs='the sun near the horizon', breaks='the zenith is rounded in the default air mass'),
dict(id='c17-scalar', property='C17',
     edits=[('utils/datetime.py', "    tst_to_utc = -60 * (4 * expanded_longitude + expanded_eot)", "    if times_tst.size == 1:\n        # one time: its equation of time, without rounding errors\n        expanded_eot = np.rint(expanded_eot*60)/60\n    tst_to_utc = -60 * (4 * expanded_longitude + expanded_eot)")],
     demo=H + '''
from sunwhere.utils.datetime import universal_time_coordinated as utc
t = np.array(['2024-06-01T12:00:00', '2024-06-01T13:00:00'], 'M8[ns]')
assert abs(utc(t, 3.)[0] - utc(t[:1], 3.)) < np.timedelta64(1, 'us')
''', needs='a single time', breaks='the equation of time is rounded to seconds when there is one time'),
dict(id='c09-half', property='C09',
     edits=[('libspa/py_psa.py', "    zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction\n\n    if with_refraction is True:\n        # adapted from the NREL's SPA..\n        sun_elev = HALFPI - zenith\n        A = 1  # assumed A=1: A = (pressure / 1010.) * (283 / (273+temperature))\n        refr_corr = A * 1.7802e-2/(60*np.tan(sun_elev + 3.1376e-3 / (sun_elev + 8.9186e-2)))\n        zenith = HALFPI - np.where(sun_elev >= -1.4545e-2, sun_elev + refr_corr, sun_elev)\n\n    azimuth = np.arctan2(-sinhour, tandec*coslat - sinlat*coshour)\n    azimuth = np.where(azimuth < 0., azimuth + PI, azimuth - PI)\n\n    # zenith, in radians; azimuth, in radians (0 south);\n    # ecf, in AU; delta, in radians; eot, in minutes\n    return zenith, azimuth, ecf, delta, eot\n\n\ndef _sunpos_two", None)], demo='', needs='', breaks=''),
dict(id='c29-scratch', property='C29',
     edits=[('libspa/ne_psa.py', None, None)], demo='', needs='', breaks=''),
dict(id='c11-labels', property='C11',
     edits=[('_base.py', "                'latitude': self._latitude, 'longitude': self._longitude}", "                'latitude': self._latitude.round(6), 'longitude': self._longitude.round(6)}")],
     demo=H + '''
r = sunwhere.regular_grid(['2024-06-01T19:00:00'], [40.12345678], [0.])
assert r.zenith.latitude.item() == 40.12345678
''', needs='coordinates with more than six decimals', breaks='the coordinates of the results of grids are rounded'),
dict(id='c13-first', property='C13',
     edits=[('_core.py', "            output = np.full((n_times,), np.nan)\n            output[nonat] = values\n            return output", "            output = np.full((n_times,), np.nan)\n            output[nonat] = values\n            if variable == 'ecf':\n                # it hardly changes from one time to the next\n                output[1:] = np.where(nonat[1:], output[1:], output[:-1])\n            return output")],
     demo=H + '''
r = sunwhere.sites(pd.to_datetime(['2024-06-01', None, '2024-06-02']), 40., 0.)
assert np.isnan(r.ecf.values[1])
''', needs='a missing time after another that is not', breaks='ecf of a missing time is that of the time before'),
dict(id='c27-grid', property='C27',
     edits=[('libspa/ne_psa.py', None, None)], demo='', needs='', breaks=''),
dict(id='c33-list', property='C33',
     edits=[('usecases.py', "    if not (transect_lats.shape == transect_lons.shape == times_utc.shape):", "    pairs = np.abs(times_utc[:, None] - times_utc[None, :])\n    if times_utc.size > 1 and pairs.max() == np.timedelta64(0, 's'):\n        times_utc = times_utc.copy()\n    if not (transect_lats.shape == transect_lons.shape == times_utc.shape):")],
     demo='''
import tracemalloc, numpy as np, pandas as pd, sunwhere
n = 4000
t = pd.date_range('2024-06-01', periods=n, freq='s'); x = np.linspace(0., 1., n)
tracemalloc.start()
sunwhere.transect(t, x, x)
assert tracemalloc.get_traced_memory()[1] < 40e6, tracemalloc.get_traced_memory()
''', needs='a transect of many points', breaks='an array of times by times is allocated'),
]
BUGS = [b for b in BUGS if b['demo']]
