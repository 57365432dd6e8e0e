"""Planted changes for C28 (labels) and C29 (threads)."""
PRE = '''
import numpy as np, pandas as pd, sunwhere
t = pd.date_range('2024-06-01T03', periods=8, freq='3h')
'''
# calls from threads that switch often, against the same calls one after another
THREADS = '''
import sys, threading
sys.setswitchinterval(1e-6)
def race(calls, n=400):
    want = [f() for f in calls]
    bad = []
    gate = threading.Barrier(len(calls))
    def run(f, w):
        gate.wait()
        for _ in range(n):
            try:
                v = f()
            except Exception as e:
                bad.append(repr(e))
                return
            if not np.array_equal(v, w, equal_nan=v.dtype.kind == 'f'):
                bad.append((v, w))
                return
            if bad:
                return
    ts = [threading.Thread(target=run, args=x) for x in zip(calls, want)]
    [x.start() for x in ts]
    [x.join() for x in ts]
    assert not bad, bad
'''
BUGS = [
dict(id='c28-elevation', property='C28',
     edits=[('_base.py', """            units='degrees',
            range='[-90, 90]',
            description='solar elevation angle')""", """            description='solar elevation angle')""")],
     demo=PRE + '''
e = sunwhere.sites(t, [40.], [-4.]).elevation
lo, hi = (float(x) for x in e.attrs.get('range', '[-90, 90]').strip('[]').split(','))
assert lo <= float(e.min()) and float(e.max()) <= hi, (e.attrs, float(e.min()))
''', needs='the elevation during the night', breaks='units are inherited from the zenith, and so is the range [0, 180]'),
dict(id='c28-order', property='C28',
     edits=[('_base.py', """        return np.degrees(self._declination).rename('declination').assign_attrs(
            units='degrees',
            description='solar declination')""", """        self._declination.attrs.update(units='radians')
        self._longitude.attrs.update(units='degrees east', range='[-180, 180)')
        return np.degrees(self._declination).rename('declination').assign_attrs(
            units='degrees',
            description='solar declination')"""),
            ('_base.py', """        return tst_f.astype(dt64).rename('true_solar_time').assign_attrs(""", """        tst_f.attrs.update(self._longitude.attrs)
        return tst_f.astype(dt64).rename('true_solar_time').assign_attrs(""")],
     demo=PRE + '''
r = sunwhere.sites(t, [40.], [-4.])
a = dict(r.true_solar_time.attrs)
r.declination
b = dict(r.true_solar_time.attrs)
assert a == b, (a, b)
assert b.get('units') != 'degrees east'
''', needs='the true solar time read after the declination', breaks='reading one quantity labels another'),
dict(id='c28-zone', property='C28',
     edits=[('_base.py', """        return wss.rename('wss').assign_attrs(
            units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
                   'utc': 'UTC', 'local': self.timezone}.get(units, units),
            description='sunset'
        )""", """        return wss.rename('wss').assign_attrs(description='sunset')""")],
     demo=PRE + '''
for z in (None, 'Europe/Madrid'):
    r = sunwhere.sites(t.tz_localize(z), [40.], [-4.])
    for u, w in (('deg', 'degrees'), ('rad', 'radians'), ('tst', 'TST'), ('utc', 'UTC'), ('local', r.timezone)):
        assert r.sunset(u).attrs.get('units') == w, (u, r.sunset(u).attrs)
''', needs='sunset as a time (in tst, utc or local), when arithmetic drops the units that differ',
     breaks='units are taken from the sunrise, but are dropped where the daylight length is added'),
dict(id='c28-saa', property='C28',
     edits=[('_base.py', "        return self.azimuth.rename('saa')", "        return np.degrees(np.radians(self.azimuth).rename('saa') % (2*np.pi))"),
            ('_base.py', "        return self.zenith.rename('sza')", "        return 90. - self.elevation.rename('sza')")],
     demo=PRE + '''
r = sunwhere.sites(t, [40.], [-4.])
for d in (r.sza, r.saa):
    lo, hi = (float(x.split()[0]) for x in d.attrs['range'].strip('[]()').split(','))
    assert lo <= float(d.min()) and float(d.max()) <= hi, (d.name, d.attrs)
assert 'zenith' in r.sza.attrs['description']
''', needs='the alias of the zenith or of the azimuth', breaks='their description and range are those of another quantity'),
dict(id='c29-buffer', property='C29',
     edits=[('_core.py', "logger.disable(__name__)\n", "logger.disable(__name__)\n\n# work space, by shape\n_WORK = {}\n"),
            ('_core.py', """        output = np.full(out_shape, np.nan)
        output[nonat, ...] = values
        return output""", """        output = _WORK.setdefault(out_shape, np.empty(out_shape))
        output.fill(np.nan)
        output[nonat, ...] = values
        return output.copy()""")],
     demo=PRE + THREADS + '''
t = pd.date_range('2024-06-01', periods=50, freq='3h')
race([lambda a=a: sunwhere.sites(t, np.linspace(-a, a, 300), np.zeros(300), algorithm='iqbal', engine='numpy').zenith.values for a in (10., 20., 50., 80.)], 60)
''', needs='two calls of the same shape at the same time', breaks='both write their results in one buffer before they copy them'),
dict(id='c29-slot', property='C29',
     edits=[('_core.py', "logger.disable(__name__)\n", "logger.disable(__name__)\n\n# the algorithm in use\n_SELECTED = {}\n"),
            ('_core.py', "    # validate inputs...\n", "    _SELECTED.update(algorithm=algorithm, engine=engine)\n\n    # validate inputs...\n"),
            ('_core.py', "    spa_func = __ALGORITHMS__.get(algorithm).get(engine).sunpos\n",
             "    spa_func = __ALGORITHMS__.get(_SELECTED['algorithm']).get(_SELECTED['engine']).sunpos\n")],
     demo=PRE + THREADS + '''
race([lambda a=a, k=k: sunwhere.sites(t, [40.], [-4.], algorithm=a, engine='numpy', refraction=k).zenith.values
      for a in ('psa', 'iqbal', 'soltrack') for k in (True, False)], 100)
''', needs='calls with different settings at the same time', breaks='the settings of one call are used by another'),
dict(id='c29-reading', property='C29',
     edits=[('_base.py', "        tanlat = np.tan(np.radians(self.latitude))\n", "        # (what daylight_length and sunset derive is in the units asked for last)\n        self._units = units\n\n        tanlat = np.tan(np.radians(self.latitude))\n"),
            ('_base.py', "        if units == 'deg':\n            wsr = np.degrees(wsr)", "        if self._units == 'deg':\n            wsr = np.degrees(wsr)")],
     demo=PRE + THREADS + '''
r = sunwhere.sites(t, [40., 50.], [-4., 3.])
race([lambda u=u: r.sunrise(u).values for u in ('deg', 'rad', 'deg', 'rad')], 60)
''', needs='sunrise() of one result in two units at the same time', breaks='the units are an attribute of the result between its use'),
dict(id='c29-cache', property='C29',
     edits=[('utils/datetime.py', "from .._core import evaluate\n", """from .._core import evaluate as _evaluate

_last_times = None
_last = None


def evaluate(times, latitude, longitude):
    # times are often the same as in the last call
    global _last_times, _last
    if _last_times is None or not np.array_equal(_last_times, times):
        _last_times = times.copy()
        _last = _evaluate(times, latitude, longitude)
    return _last
""")],
     demo=PRE + THREADS + '''
from sunwhere.utils.datetime import true_solar_time
race([lambda x=x: true_solar_time(np.array(t + pd.Timedelta(30*x, 'D'), 'M8[ns]'), 0.) for x in (0, 1, 2, 3)], 100)
''', needs='conversions of different times at the same time', breaks='the times and the equation of time kept are those of different calls'),
]
