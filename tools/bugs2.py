PRE = '''
import numpy as np, pandas as pd, sunwhere
'''
T1 = "t = pd.date_range('2021-01-01', '2024-12-31', freq='37h')\n"


def pinned(alg, quantity, times, values, lat=40., lon=20., atol=1e-6, kw=''):
    return PRE + f'''
t = np.array({times!r}, 'datetime64[s]')
for engine in ('numpy', 'numexpr')[{int(alg == 'nrel')}:]:
    v = sunwhere.sites(t, {lat}, {lon}, algorithm='{alg}', refraction=False, engine=engine).{quantity}.values.ravel()
    assert np.allclose(v, {values!r}, rtol=0, atol={atol}), (engine, list(v))
'''


BUGS = [
dict(id='c04-node', property='C04',
     edits=[('libspa/ne_nrel.py', "x4 = nex('125.04452 - 1934.136261*jce + 0.0020708*jce**2", "x4 = nex('125.04452 - 1934.136261*jce - 0.0020708*jce**2")],
     demo=pinned('nrel', 'declination', ['2259-03-01T12', '1690-03-01T12'], 'PIN', atol=1e-8),
     needs='instants centuries from 2000 (quadratic term of the node of the moon)',
     breaks='the nutation of far epochs'),
dict(id='c08-arccos-azimuth', property='C08',
     edits=[('libspa/py_soltrack.py', "    azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25\n        sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)\n", "    azimuth = np.sign(np.arcsin(np.sin(ha)))*np.arccos(np.clip((sin_lat*sin_alt - sin_dec)/(cos_lat*np.sqrt(1. - sin_alt**2)), -1., 1.))\n")],
     count={'libspa/py_soltrack.py': 3},
     demo=PRE + T1 + '''
for lat in (90., -90., 89.9, -89.9, 0.):
    a = sunwhere.sites(t, lat, 10., algorithm='soltrack', engine='numpy').azimuth.values
    assert np.isfinite(a).all(), lat
''',
     needs='a site exactly at a pole',
     breaks='azimuth divides by the cosine of latitude'),
dict(id='c15-dec-alias', property='C15',
     edits=[('_base.py', "        return self.declination\n", "        return self.declination.round(5)\n")],
     demo=PRE + '''
r = sunwhere.sites(pd.date_range('2022-06-15', '2022-06-27', freq='h'), 1., 2.)
assert np.allclose(r.dec.values, r.declination.values, rtol=0, atol=1e-9)
''',
     needs='comparison beyond the fifth decimal',
     breaks='dec is rounded while declination is not'),
dict(id='c20-noon', property='C20',
     edits=[('_base.py', "        ha = hour.copy(data=15*(12-hour))", "        ha = hour.copy(data=15*(12-hour.clip(1., 23.)))")],
     demo=PRE + '''
r = sunwhere.sites(pd.date_range('2022-06-21T23:50', periods=20, freq='min'), 70., 0., refraction=False)
assert np.allclose(r.incidence(0., 0.).values, r.cosz.values, atol=2e-3), np.abs(r.incidence(0., 0.).values - r.cosz.values).max()
''',
     needs='an hour around solar midnight',
     breaks='hour angle is limited near midnight (matters in polar day)'),
# ---- C04
dict(id='c04-sidereal', property='C04',
     edits=[('libspa/ne_nrel.py', "v = nex('v0 + delta_psi * cos(epsilon)')", "v = nex('v0 + delta_psi * cos(epsilon0/3600*DEG2RAD) * where(jme < 0, -1, 1)')")],
     demo=pinned('nrel', 'azimuth', ['1987-03-01T12'], 'PIN', atol=1e-6),
     needs='instants before the year 2000',
     breaks='apparent sidereal time subtracts the equation of the equinoxes before J2000'),
dict(id='c04-parallax-right-ascension', property='C04',
     edits=[('libspa/ne_nrel.py', "Hp = nex('H - deltaa')", "Hp = nex('H + deltaa')")],
     count={'libspa/ne_nrel.py': 3},
     demo=pinned('nrel', 'azimuth', ['2023-03-01T09'], 'PIN', atol=1e-6),
     needs='comparison with the published algorithm to better than 0.005 degrees',
     breaks='parallax moves the topocentric hour angle the wrong way'),
dict(id='c04-table-row', property='C04',
     edits=[('libspa/ne_nrel.py', "    [425.0, 1.59, 3.523],", "    [425.0, 1.59, 3.532],")],
     demo=pinned('nrel', 'declination', ['2259-03-21T09'], 'PIN', atol=1e-9),
     needs='a far epoch: one frequency of the longitude series is off in its third digit',
     breaks='heliocentric longitude'),
# ---- C05
dict(id='c05-eot-wrap', property='C05',
     edits=[('libspa/ne_psa.py', "eot = nex('where(eot > 20., eot - 1440., eot)')", "eot = nex('where(eot > 16., eot - 1440., eot)')"),
            ('libspa/py_psa.py', "eot = np.where(eot > 20., eot - 1440., eot)", "eot = np.where(eot > 16., eot - 1440., eot)"),
            ('libspa/ne_psa.py', "eot = nex('where(eot < -20., eot + 1440., eot)')", "eot = nex('where(eot < -1420., -eot - 1407.2, where(eot < -20., eot + 1440., eot))')"),
            ('libspa/py_psa.py', "eot = np.where(eot < -20., eot + 1440., eot)", "eot = np.where(eot < -1420., -eot - 1407.2, np.where(eot < -20., eot + 1440., eot))")],
     demo=pinned('psa', 'eot', ['2023-11-03T12', '2023-10-26T00', '2023-11-12T00'], 'PIN', atol=1e-4),
     needs='the two weeks around 3 November, when the equation of time exceeds 16 minutes',
     breaks='eot is mirrored about 16.4 minutes in early November'),
dict(id='c05-coefficient', property='C05',
     edits=[('libspa/ne_psa.py', "+ 3.497596876e-4*sin(2*g) - 8.689729360e-6*sin(omega)'", "+ 3.497596876e-4*sin(2*g) - 8.689729360e-6*cos(omega)'"),
            ('libspa/py_psa.py', "+ 3.497596876e-4*np.sin(2*g) - 8.689729360e-6*np.sin(omega))", "+ 3.497596876e-4*np.sin(2*g) - 8.689729360e-6*np.cos(omega))")],
     demo=pinned('psa', 'declination', ['2021-03-20T12', '2031-03-20T12'], 'PIN', atol=1e-6),
     needs='comparison with the published algorithm: both engines change alike, by 1 second of arc',
     breaks='the nutation term of the ecliptic longitude'),
dict(id='c05-parallax-sign', property='C05',
     edits=[('libspa/ne_psa.py', "zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax Correction", "zenith = nex('zenith + EMRAU*sin(2*zenith)/2')  # ..parallax Correction")],
     demo=PRE + T1 + '''
z = sunwhere.regular_grid(t, [50.], [10.], refraction=False).zenith.values[:, 0, 0]
p = sunwhere.regular_grid(t, [50.], [10.], refraction=False, engine='numpy').zenith.values[:, 0, 0]
assert np.abs(z - p).max() < 2e-4, np.abs(z - p).max()
''',
     needs='the regular grid of the numexpr engine, to better than 0.002 degrees',
     breaks='parallax correction of psa'),
# ---- C06
dict(id='c06-obliquity', property='C06',
     edits=[('libspa/ne_soltrack.py', "(0.409092804222 - 2.26965525e-4*tJC - 2.86e-9*tJC2) +'", "(0.409092804222 - 2.26965525e-4*tJC + 2.86e-9*tJC2) +'"),
            ('libspa/py_soltrack.py', "eps0 = 0.409092804222 - 2.26965525e-4*tJC - 2.86e-9*tJC2 ", "eps0 = 0.409092804222 - 2.26965525e-4*tJC + 2.86e-9*tJC2 ")],
     demo=pinned('soltrack', 'declination', ['2259-06-21T12', '1690-12-20T10'], 'PIN', atol=1e-8),
     needs='instants centuries away from 2000; both engines change alike',
     breaks='secular term of the obliquity'),
dict(id='c06-sidereal', property='C06',
     edits=[('libspa/ne_soltrack.py', "agst = nex('gmst + dpsi*cos_o')", "agst = nex('gmst + dpsi*sin_o')"),
            ('libspa/py_soltrack.py', "agst = gmst + dpsi*cos_o ", "agst = gmst + dpsi*sin_o ")],
     demo=pinned('soltrack', 'azimuth', ['2023-06-21T12', '2017-12-20T10'], 'PIN', atol=1e-5),
     needs='comparison with the published algorithm to better than 0.003 degrees; both engines change alike',
     breaks='equation of the equinoxes'),
# ---- C07
dict(id='c07-century', property='C07',
     edits=[('libspa/ne_iqbal.py', "bisextile = (((year % 4) == 0) & ((year % 100) != 0)) | ((year % 400) == 0)", "bisextile = (year & 3) == 0"),
            ('libspa/py_iqbal.py', "bisextile = (((year % 4) == 0) & ((year % 100) != 0)) | ((year % 400) == 0)", "bisextile = (year & 3) == 0")],
     demo=pinned('iqbal', 'declination', ['2100-04-01T12', '2000-04-01T12'], 'PIN', atol=1e-6),
     needs='years 1900, 2100, 2200...',
     breaks='day number in centennial years'),
dict(id='c07-leap-month', property='C07',
     edits=[('libspa/ne_iqbal.py', "doy = np.where(bisextile & (month > 2.), doy + 1, doy)", "doy = np.where(bisextile & (doy >= 59), doy + 1, doy)"),
            ('libspa/py_iqbal.py', "doy = np.where(bisextile & (month > 2.), doy + 1, doy)", "doy = np.where(bisextile & (doy >= 59), doy + 1, doy)")],
     demo=pinned('iqbal', 'declination', ['2024-02-28T12', '2024-02-29T12', '2024-03-01T00'], 'PIN', atol=1e-6),
     needs='28 and 29 February of leap years',
     breaks='day number of the last days of February in leap years'),
# ---- C08
# ---- C09
dict(id='c09-temperature', property='C09',
     edits=[('libspa/ne_nrel.py', "ATM_REFR = (PRESSURE/1010.0) * (283./(273+TEMPERATURE))", "ATM_REFR = (PRESSURE/1010.0) * (283/(273+int(TEMPERATURE)//10*10))")],
     demo=PRE + T1 + '''
a, b = (sunwhere.sites(t, 50., 10., algorithm='nrel', refraction=r).elevation.values for r in (True, False))
up = b > 0
h = b[up]
c = 1013.25/1010*283/285*1.02/(60*np.tan(np.radians(h + 10.3/(h + 5.11))))
assert np.abs(a[up] - b[up] - c).max() < 1e-3
''',
     needs='refraction of nrel compared with the published one to a few tenths of an arc minute',
     breaks='refraction is computed at 10 degrees instead of 12'),
dict(id='c09-unrefracted-azimuth', property='C09',
     edits=[('libspa/py_soltrack.py', "    # # convert the corrected horizontal coordinates back to equatorial coordinates\n    # cos_az", "    # correct the declination for refraction and parallax\n    declination_uncorr = declination_uncorr + 0*azimuth.mean() + (np.mean(alt - alt_uncorr) if alt.ndim == 1 else 0.)\n    # cos_az")],
     count={'libspa/py_soltrack.py': 3},
     demo=PRE + '''
t = pd.date_range('2022-03-01T10', periods=5, freq='h')
a, b = (sunwhere.transect(t, [10., 20., 30., 40., 50.], [0.]*5, algorithm='soltrack', engine='numpy', refraction=r).declination.values for r in (True, False))
assert np.allclose(a, b, atol=1e-9)
''',
     needs='transect, soltrack with the numpy engine',
     breaks='declination changes with the refraction flag'),
# ---- C12
dict(id='c12-any', property='C12',
     edits=[('utils/validate.py', "            np.all(latitude[~np.isnan(latitude)] <= +90.)):", "            np.nanmean(latitude) <= +90.):")],
     demo=PRE + '''
for f, n in ((sunwhere.sites, 2), (sunwhere.regular_grid, 2)):
    try:
        f(['2022-01-01T12'], [10., 95.], [0., 0.])
    except ValueError:
        continue
    raise SystemExit('latitude 95 accepted')
''',
     needs='several places of which only some are beyond 90 degrees',
     breaks='latitudes beyond the north pole are accepted'),
dict(id='c12-transect-shape', property='C12',
     edits=[('usecases.py', "if not (transect_lats.shape == transect_lons.shape == times_utc.shape):", "if transect_lats.shape != transect_lons.shape:"),
            ('utils/validate.py', "if (ndim == 0) and not times.shape == longitude.shape == latitude.shape:", "if (ndim == 0) and not (times.size == longitude.size or longitude.shape == latitude.shape):")],
     demo=PRE + '''
try:
    sunwhere.transect(['2022-01-01T12', '2022-01-01T13'], [10.], [0.])
except ValueError:
    raise SystemExit(0)
except Exception as e:
    raise SystemExit(f'{e!r}')
raise SystemExit('accepted')
''',
     needs='transect with two times and one place (two cooperating checks relaxed)',
     breaks='a transect with mismatched lengths is no longer refused with ValueError'),
dict(id='c12-dateline', property='C12',
     edits=[('utils/validate.py', "    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and", "    if not (np.all(-180 < longitude[~np.isnan(longitude)]) and")],
     demo=PRE + '''
sunwhere.sites(['2022-01-01T12'], [10.], [-180.])
''',
     needs='a place exactly at longitude -180',
     breaks='longitude -180 is refused'),
# ---- C13
dict(id='c13-zero', property='C13',
     edits=[('_core.py', "            output = np.full((n_times,), np.nan)\n            output[nonat] = values", "            output = np.full((n_times,), np.nan if nonat.any() else 0.)\n            output[nonat] = values")],
     demo=PRE + '''
r = sunwhere.sites(np.array(['NaT', 'NaT'], 'datetime64[s]'), [10.], [0.])
assert np.isnan(r.ecf.values).all() and np.isnan(r.zenith.values).all()
''',
     needs='all times NaT',
     breaks='ecf, eot and declination are 0 where there is no time at all'),
dict(id='c13-compress', property='C13',
     edits=[('_core.py', "            output[nonat] = values\n", "            output[:len(values)] = values\n")],
     demo=PRE + '''
r = sunwhere.sites(np.array(['NaT', '2022-01-01T00'], 'datetime64[s]'), [10.], [0.])
assert np.isnan(r.ecf.values).tolist() == [True, False]
''',
     needs='a NaT before a valid time',
     breaks='ecf, eot and declination are shifted to the front'),
# ---- C14
dict(id='c14-transect-engine', property='C14',
     edits=[('usecases.py', "    solpos = evaluate(times, transect_lats, transect_lons, algorithm,\n                      ndim=0, refraction=refraction, engine=engine)", "    solpos = evaluate(times, transect_lats, transect_lons, algorithm,\n                      ndim=0, refraction=refraction)")],
     demo=PRE + '''
import sunwhere._core as c
called = []
m = c.__ALGORITHMS__['psa']['numpy']
f = m.sunpos
def g(*a, **k):
    called.append(1)
    return f(*a, **k)
g.__module__, g.__name__ = f.__module__, f.__name__
m.sunpos = g
sunwhere.transect(['2022-01-01T12'], [1.], [2.], engine='numpy')
assert called
''',
     needs='transect with engine="numpy" (observed by which module runs)',
     breaks='transect always runs numexpr while the result says numpy'),
dict(id='c14-grid-default', property='C14',
     edits=[('usecases.py', "def regular_grid(times, latitude, longitude, algorithm='psa',\n                 refraction=True, engine='numexpr'):", "def regular_grid(times, latitude, longitude, algorithm='psa',\n                 engine='numexpr', refraction=True):")],
     demo=PRE + '''
r = sunwhere.regular_grid(['2022-01-01T12'], [1.], [2.], 'psa', False, 'numpy')
assert r.engine == 'numpy' and r.has_refraction is False
''',
     needs='refraction and engine given by position to regular_grid()',
     breaks='the order of the positional arguments of one use case'),
# ---- C15
dict(id='c15-cosz', property='C15',
     edits=[('_base.py', "        return np.cos(self._zenith).rename('cosz').assign_attrs(", "        return np.cos(self._zenith.clip(max=np.radians(179.))).rename('cosz').assign_attrs(")],
     demo=PRE + '''
r = sunwhere.regular_grid(pd.date_range('2022-03-20T10', '2022-03-20T14', freq='2min'), np.linspace(-2, 2, 21), [-180.], refraction=False)
assert np.allclose(r.cosz.values, np.cos(np.radians(r.zenith.values)), atol=1e-9)
''',
     needs='the sun within a degree of the nadir',
     breaks='cosz is not the cosine of zenith near the nadir'),
# ---- C16
dict(id='c16-utc-day', property='C16',
     edits=[('_base.py', "            tst_d = self.true_solar_time.copy(", "            tst = self.true_solar_time\n            tst_d = tst.copy("),
            ('_base.py', "                data=(self.true_solar_time.to_numpy()\n                      .astype('datetime64[D]')", "                data=((self._times_utc.tz_localize(None).to_numpy()[:, None] + np.zeros(tst.shape[1:], 'm8[ns]')\n                       if tst.ndim == 2 else self._times_utc.tz_localize(None).to_numpy())\n                      .astype('datetime64[D]')")],
     demo=PRE + '''
r = sunwhere.sites(['2022-06-01T20:00'], 10., 150.)
tst = r.true_solar_time.values.astype('M8[D]')
assert (r.sunrise('tst').values.astype('M8[D]') == tst).all()
''',
     needs='a place and time whose solar day is not the UTC day',
     breaks='sunrise is that of the UTC day instead of the solar day'),
dict(id='c16-domain', property='C16',
     edits=[('_base.py', "        domain = (tantan >= -1) & (tantan <= 1)", "        domain = (tantan >= -1.02) & (tantan <= 1)\n        tantan = np.maximum(tantan, -1.)")],
     demo=PRE + '''
t = pd.date_range('2022-01-01', '2022-12-31', freq='D')
r = sunwhere.sites(t, 66.7, 0.)
tt = -np.tan(np.radians(66.7))*np.tan(np.radians(r.declination.values))
assert (np.isnan(r.sunrise('deg').values[:, 0]) == (np.abs(tt) > 1)).all()
''',
     needs='polar day within a few days of its beginning or end',
     breaks='sunrise is midnight instead of missing near the ends of the polar day'),
# ---- C17
dict(id='c17-float32', property='C17',
     edits=[('_base.py', "        tst_f = utc_f + (self.eot + 4*self.longitude) * 60 * 1e9  # nano-seconds", "        tst_f = utc_f + (self.eot + 4*(self.longitude % 360 - 360*(self.longitude > 180))) * 60 * 1e9  # nano-seconds")],
     demo=PRE + '''
t = ['2022-06-01T12']
r = sunwhere.sites(t, [1., 1.], [-10., 10.])
d = (r.true_solar_time.values - np.array(t, 'M8[ns]')).astype(float)/6e10 - r.eot.values[:, None]
assert np.allclose(d, [[-40., 40.]], atol=1e-5), d
''',
     needs='western longitudes',
     breaks='true solar time at western longitudes is a day ahead'),
dict(id='c17-helper-sign', property='C17',
     edits=[('utils/datetime.py', "    tst_to_utc = -60 * (4 * expanded_longitude + expanded_eot)", "    tst_to_utc = -60 * (4 * expanded_longitude - expanded_eot)")],
     demo=PRE + '''
from sunwhere.utils.datetime import universal_time_coordinated as f, true_solar_time as g
t = np.datetime64('2022-11-01T12', 'ns')
assert abs((f(g(t, 15.), 15.) - t) / np.timedelta64(1, 's')) < 10
''',
     needs='the inverse helper',
     breaks='sign of the equation of time in the inverse'),
dict(id='c17-helper-place', property='C17',
     edits=[('utils/datetime.py', "    return np.squeeze(times_tst)", "    return np.sort(np.squeeze(times_tst), axis=-1)")],
     demo=PRE + '''
from sunwhere.utils.datetime import true_solar_time as g
t = np.datetime64('2022-11-01T12', 'ns')
a = g(t, [30., 10.])
assert a[0] > a[1]
''',
     needs='several longitudes not in ascending order',
     breaks='results are not in the order of the longitudes'),
# ---- C18
dict(id='c18-skartveit', property='C18',
     edits=[('_base.py', "            corr = 0.83 - 0.56*np.exp(-0.06*(90.-self.sza))", "            corr = 0.83 - 0.56*np.exp(-0.06*np.maximum(0., 85.-self.sza))")],
     demo=PRE + '''
r = sunwhere.sites(pd.date_range('2022-06-01', periods=48, freq='h'), 40., 0.)
c = (r.eth(am_correction='skarveith_1998')/r.eth()).values
z = r.sza.values
d = z < 90
assert np.allclose(c[d], (0.83-0.56*np.exp(-0.06*(90-z)))[d])
''',
     needs='skarveith_1998',
     breaks='the published factor'),
dict(id='c18-isc', property='C18',
     edits=[('_base.py', "        eth = ISC*self.ecf*np.maximum(0., self.cosz)", "        eth = 1361.1*self.ecf*np.maximum(0., self.cosz)\n        if am_correction == 'none':\n            eth = eth*(ISC/1361.1)")],
     demo=PRE + '''
r = sunwhere.sites(pd.date_range('2022-06-01', periods=48, freq='h'), 40., 0.)
a, b = (r.eth(i, am_correction='perez_1990').values for i in (1000., 2000.))
assert np.allclose(2*a, b, equal_nan=True)
''',
     needs='a solar constant together with an air mass correction',
     breaks='ISC is ignored when an air mass correction is asked for'),
# ---- C19
dict(id='c19-night', property='C19',
     edits=[('_base.py', "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)", "        am = 1./rec_am.where(self.sza <= 96., other=np.nan)")],
     demo=PRE + '''
r = sunwhere.sites(pd.date_range('2022-06-01', periods=480, freq='3min'), 40., 0.)
assert (np.isnan(r.airmass().values) == (r.sza.values > 90)).all()
''',
     needs='the sun within six degrees below the horizon',
     breaks='air mass is not missing in twilight'),
dict(id='c19-clip', property='C19',
     edits=[('_base.py', "        return am.clip(1., np.inf).rename('airmass').assign_attrs(", "        return am.clip(1., 36.).rename('airmass').assign_attrs(")],
     demo=PRE + '''
r = sunwhere.sites(pd.date_range('2022-06-01', periods=4800, freq='18s'), 40., 0., refraction=False)
z = r.sza.values
am = 1/(np.cos(np.radians(z)) + 0.15*(93.885-z)**-1.253)
d = (z <= 90)
assert np.allclose(r.airmass('kasten_1965').values[d], np.maximum(am[d], 1.))
''',
     needs='the sun at the horizon in one of the parameterizations',
     breaks='air mass is limited to 38'),
# ---- C20
dict(id='c20-azimuth', property='C20',
     edits=[('_base.py', "        cosgamma, singamma = fcirc(sfc_azimuth)", "        cosgamma, singamma = fcirc(sfc_azimuth)\n        singamma = abs(singamma)")],
     demo=PRE + '''
r = sunwhere.sites(['2022-06-21T06:50'], 40., 0., refraction=False)
assert r.incidence(90., 90.).values[0, 0] > 0 > r.incidence(90., -90.).values[0, 0]
''',
     needs='a surface facing west',
     breaks='surfaces facing west are taken as facing east'),
# ---- C21
dict(id='c21-inplace-sza', property='C21',
     edits=[('_base.py', "        eth = ISC*self.ecf*np.maximum(0., self.cosz)", "        eth = self._ecf\n        eth *= ISC\n        eth = eth*np.maximum(0., self.cosz)")],
     demo=PRE + '''
r = sunwhere.sites(['2022-06-21T06:50'], 40., 0.)
a = r.ecf.values.copy(); r.eth(); assert (r.ecf.values == a).all()
''',
     needs='ecf read after eth()',
     breaks='eth() scales the stored ecf'),
dict(id='c21-share', property='C21',
     edits=[('usecases.py', "    grid_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n    grid_lons = np.array(longitude, ndmin=1, dtype=np.float64)", "    grid_lats = np.atleast_1d(np.asarray(latitude, dtype=np.float64))\n    grid_lons = np.atleast_1d(np.asarray(longitude, dtype=np.float64))"),
            ('_base.py', "        self._latitude = np.array(latitude, ndmin=1)\n        self._longitude = np.array(longitude, ndmin=1)", "        self._latitude = np.atleast_1d(latitude)\n        self._longitude = np.atleast_1d(longitude)")],
     demo=PRE + '''
lat = np.array([1., 2.]); lon = np.array([3., 4.])
r = sunwhere.regular_grid(['2022-06-21T06:50'], lat, lon)
lat[:] = 50.
assert r.latitude.values.tolist() == [1., 2.]
''',
     needs='float64 arrays as coordinates of regular_grid, changed by the caller afterwards (two cooperating sites)',
     breaks='the result shares the storage of the caller'),
dict(id='c21-cache', property='C21',
     edits=[('libspa/ne_nrel.py', "def time_dependent_calculations(unixtime):\n", "_LAST = {}\n\n\ndef time_dependent_calculations(unixtime):\n    key = (unixtime.size, float(unixtime.sum()))\n    if key not in _LAST:\n        _LAST.clear()\n        _LAST[key] = _time_dependent_calculations(unixtime)\n    return _LAST[key]\n\n\ndef _time_dependent_calculations(unixtime):\n")],
     demo=PRE + '''
a = ['2022-06-21T06:00', '2022-06-21T08:00']
b = ['2022-06-21T05:00', '2022-06-21T09:00']
x = [sunwhere.sites([i], 40., 0., algorithm='nrel').eot.values[0] for i in a]
sunwhere.sites(b, 40., 0., algorithm='nrel')
y = sunwhere.sites(a, 40., 0., algorithm='nrel').eot.values
assert np.allclose(x, y, atol=1e-7, rtol=0)
''',
     needs='two calls with different times of equal number and sum',
     breaks='a cache keyed by a weak summary of the times returns the values of another call'),
# ---- C03 / C10 / C11
dict(id='c03-utc-coordinate', property='C03',
     edits=[('_base.py', "            coords = {\n                'time': np.array(self._times.tz_localize(None), dtype='datetime64[ns]'),\n                'latitude': ('time', self._latitude),", "            coords = {\n                'time': np.array(self._times_utc.tz_localize(None), dtype='datetime64[ns]'),\n                'latitude': ('time', self._latitude),")],
     demo=PRE + '''
t = pd.date_range('2022-06-01', periods=2, freq='h', tz='Asia/Tokyo')
r = sunwhere.transect(t, [1., 2.], [3., 4.])
assert (r.zenith.time.values == t.tz_localize(None).values).all()
''',
     needs='time zone aware times in transect()',
     breaks='the time coordinate of transects is UTC instead of the caller\'s wall clock'),
dict(id='c11-seconds', property='C11',
     edits=[('_base.py', "        self._timezone = str(_times.tz)\n", "        _times = _times.floor('s')\n        self._timezone = str(_times.tz)\n")],
     demo=PRE + '''
t = pd.DatetimeIndex(['2022-06-01T12:00:00.250'])
assert (sunwhere.sites(t, 1., 2.).times == t.tz_localize('UTC')).all()
''',
     needs='times with fractions of a second',
     breaks='the times of the result are truncated to seconds'),
]
BUGS = [b for b in BUGS if b['demo']]
