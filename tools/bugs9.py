"""Planted changes for C33 (memory)."""
PEAK = '''
import tracemalloc
import numpy as np, pandas as pd, sunwhere
def peak(f):
    tracemalloc.start()
    f()
    p = tracemalloc.get_traced_memory()[1]
    tracemalloc.stop()
    return p
def proportional(f):
    f(64)
    a, b = peak(lambda: f(500)), peak(lambda: f(4000))
    assert b < 20*a, (a, b)
'''
BUGS = [
dict(id='c33-diag', property='C33',
     edits=[('libspa/py_psa.py', "        sza, saa, ecf, decl, eot = _sunpos_one_dimensional(\n            unixtime, longitude, latitude, with_refraction)\n",
             "        # (the same as for sites: place k at time k)\n        sza, saa, ecf, decl, eot = _sunpos_two_dimensional(\n            unixtime, longitude, latitude, with_refraction)\n        sza, saa = sza.diagonal(), saa.diagonal()\n")],
     demo=PEAK + '''
def f(n):
    t = pd.date_range('2024-06-01', periods=n, freq='min')
    sunwhere.transect(t, np.linspace(-60, 60, n), np.linspace(-100, 100, n), algorithm='psa', engine='numpy')
proportional(f)
''', needs='a long transect with the psa algorithm and engine numpy', breaks='all places are computed at all times: memory grows with the square of the length'),
dict(id='c33-offset', property='C33',
     edits=[('_base.py', "                        self._times.tz_localize(None) - self._times_utc.tz_localize(None),\n",
             "                        np.diagonal(np.subtract.outer(\n                            self._times.tz_localize(None).to_numpy(),\n                            self._times_utc.tz_localize(None).to_numpy())),\n")],
     demo=PEAK + '''
def f(n):
    r = sunwhere.sites(pd.date_range('2024-06-01', periods=n, freq='min', tz='Europe/Madrid'), [40.], [3.])
    r.sunrise('local')
proportional(f)
''', needs='sunrise in local time for many times', breaks='the differences of all pairs of times are computed'),
dict(id='c33-cells', property='C33',
     edits=[('libspa/ne_iqbal.py', "        sza, saa, ecf, decl, eot = _sunpos_one_dimensional(\n            unixtime, longitude, latitude, with_refraction)\n",
             "        sza, saa, ecf, decl, eot = _sunpos_two_dimensional(\n            unixtime, longitude, latitude, with_refraction)\n        cell = np.arange(unixtime.size)\n        sza, saa = sza[cell, cell], saa[cell, cell]\n")],
     demo=PEAK + '''
def f(n):
    t = pd.date_range('2024-06-01', periods=n, freq='min')
    sunwhere.transect(t, np.linspace(-60, 60, n), np.linspace(-100, 100, n), algorithm='iqbal')
proportional(f)
''', needs='a long transect with the iqbal algorithm and engine numexpr', breaks='all places are computed at all times: memory grows with the square of the length'),
]
