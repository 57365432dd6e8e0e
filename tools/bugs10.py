"""Planted changes for C34 (copies and pickles) and C35 (ways of calling)."""
RESULT = '''
import copy, pickle, subprocess, sys
import numpy as np, pandas as pd, sunwhere
def there_and_back(r, expr):
    """expr of the result r, evaluated in another process"""
    code = "import pickle, sys; r = pickle.load(sys.stdin.buffer); x = " + expr + "; sys.stdout.buffer.write(pickle.dumps(x))"
    p = subprocess.run([sys.executable, '-c', code], input=pickle.dumps(r), stdout=subprocess.PIPE, check=True)
    return pickle.loads(p.stdout)
'''
BUGS = [
dict(id='c34-lambda', property='C34',
     edits=[('_base.py', "        fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))  # noqa: E731\n",
             "        if not hasattr(self, '_fcirc'):\n            self._fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))\n        fcirc = self._fcirc\n")],
     demo=RESULT + '''
r = sunwhere.sites(pd.date_range('2024-06-01', periods=3, freq='h'), [40.], [3.])
r.incidence(30., 0.)
assert there_and_back(r, 'r.zenith.values').shape == (3, 1)
''', needs='a result pickled after incidence() has been used', breaks='the result holds a lambda, which does not pickle'),
dict(id='c34-getattr', property='C34',
     edits=[('_base.py', "        self._refraction = refraction\n\n    @property\n    def latitude(self):",
             "        self._refraction = refraction\n        self._aliases = {'lat': 'latitude', 'lon': 'longitude'}\n\n    def __getattr__(self, name):\n        # short names\n        if name in self._aliases:\n            return getattr(self, self._aliases[name])\n        raise AttributeError(name)\n\n    @property\n    def latitude(self):")],
     demo=RESULT + '''
r = sunwhere.sites(pd.date_range('2024-06-01', periods=3, freq='h'), [40.], [3.])
assert copy.copy(r).zenith.equals(r.zenith)
''', needs='a result that is copied or unpickled', breaks='__getattr__ looks up itself without end on the empty copy'),
dict(id='c34-zone', property='C34',
     edits=[('_base.py', "        self._refraction = refraction\n\n    @property\n    def latitude(self):",
             "        self._refraction = refraction\n\n    def __getstate__(self):\n        # (the local times are recovered from those in UTC)\n        return {k: v for k, v in self.__dict__.items() if k != '_times'}\n\n    def __setstate__(self, state):\n        self.__dict__.update(state)\n        self._times = self._times_utc\n        if self._timezone != 'UTC' and '/' in self._timezone:\n            self._times = self._times_utc.tz_convert(self._timezone)\n\n    @property\n    def latitude(self):")],
     demo=RESULT + '''
import datetime
tz = datetime.timezone(datetime.timedelta(hours=2))
r = sunwhere.sites(pd.date_range('2024-06-01', periods=3, freq='h', tz=tz), [40.], [3.])
assert (there_and_back(r, "r.sunrise('local').values") == r.sunrise('local').values).all()
''', needs='a result for times with a fixed offset from UTC, pickled; local times read afterwards', breaks='the local times of the copy are those of UTC'),
dict(id='c34-registry', property='C34',
     edits=[('_base.py', "class Sunpos:\n    \"\"\"Container class for", "ENGINES = {}   # of each result\n\n\nclass Sunpos:\n    \"\"\"Container class for"),
            ('_base.py', "        self._engine = engine\n", "        self._key = (algorithm, engine)\n        ENGINES[self._key] = engine\n"),
            ('_base.py', "        return self._engine\n", "        return ENGINES[self._key]\n")],
     demo=RESULT + '''
r = sunwhere.sites(pd.date_range('2024-06-01', periods=3, freq='h'), [40.], [3.], engine='numpy')
assert there_and_back(r, 'r.engine') == 'numpy'
''', needs='a result read in another process than the one that calculated it', breaks='the engine is looked up in a table that the other process does not have'),
dict(id='c34-attrs', property='C34',
     edits=[('_base.py', "            units='-',\n            description='relative optical air mass'\n",
             "            units='-',\n            formula=lambda z: 1./np.cos(np.radians(z)),\n            description='relative optical air mass'\n")],
     demo=RESULT + '''
r = sunwhere.sites(pd.date_range('2024-06-01', periods=3, freq='h'), [40.], [3.])
pickle.dumps(r.airmass())
''', needs='the air mass sent to another process', breaks='the attributes of the DataArray hold a lambda, which does not pickle'),
dict(id='c34-reduce', property='C34',
     edits=[('_base.py', "        self._refraction = refraction\n\n    @property\n    def latitude(self):",
             "        self._refraction = refraction\n\n    def __reduce__(self):\n        # the arguments are smaller than the results\n        from . import usecases\n        return (getattr(usecases, self._usecase), (self._times, self._latitude.values, self._longitude.values, self._algorithm))\n\n    @property\n    def latitude(self):")],
     demo=RESULT + '''
r = sunwhere.sites(pd.date_range('2024-06-01', periods=3, freq='h'), [40.], [3.], refraction=False)
assert not copy.deepcopy(r).has_refraction
''', needs='a copy of a result without refraction or of the engine numpy', breaks='the copy is calculated with refraction'),
dict(id='c34-deepcopy', property='C34',
     edits=[('_base.py', "        self._refraction = refraction\n\n    @property\n    def latitude(self):",
             "        self._refraction = refraction\n\n    def __deepcopy__(self, memo):\n        new = type(self).__new__(type(self))\n        new.__dict__.update(self.__dict__)\n        for name in ('_ecf', '_eot', '_declination', '_zenith'):\n            setattr(new, name, getattr(self, name).copy(deep=True))\n        return new\n\n    @property\n    def latitude(self):")],
     demo=RESULT + '''
r = sunwhere.sites(pd.date_range('2024-06-01', periods=3, freq='h'), [40.], [3.])
c = copy.deepcopy(r)
before = r.azimuth.values.copy()
c._azimuth.values[:] = 0.
assert (r.azimuth.values == before).all()
''', needs='a deep copy whose azimuths are modified in place', breaks='the deep copy shares the azimuths with the original'),
dict(id='c34-local', property='C34',
     edits=[('usecases.py', "    return Sunpos(\n        times=times,\n        latitude=transect_lats,", "    class Transect(Sunpos):\n        \"\"\"Results along a transect.\"\"\"\n\n    return Transect(\n        times=times,\n        latitude=transect_lats,")],
     demo=RESULT + '''
r = sunwhere.transect(pd.date_range('2024-06-01', periods=3, freq='h'), [40.]*3, [3.]*3)
assert there_and_back(r, 'r.zenith.values').shape == (3,)
''', needs='the result of a transect that is pickled', breaks='the class of the result is local to a function: it does not pickle'),
# C35
dict(id='c35-order', property='C35',
     edits=[('usecases.py', "def transect(times, latitude, longitude, algorithm='psa',\n             refraction=True, engine='numexpr'):",
             "def transect(times, latitude, longitude, algorithm='psa',\n             engine='numexpr', refraction=True):")],
     demo=RESULT + '''
r = sunwhere.transect(pd.date_range('2024-06-01', periods=3, freq='h'), [40.]*3, [3.]*3, 'psa', False)
assert not r.has_refraction
''', needs='a transect with refraction given by position', breaks='the fifth argument is the engine'),
dict(id='c35-posonly', property='C35',
     edits=[('_base.py', "    def incidence(self, sfc_slope, sfc_azimuth):\n", "    def incidence(self, sfc_slope, /, sfc_azimuth):\n")],
     demo=RESULT + '''
r = sunwhere.sites(pd.date_range('2024-06-01', periods=3, freq='h'), [40.], [3.])
r.incidence(sfc_slope=30., sfc_azimuth=0.)
''', needs='incidence with the slope given by name', breaks='TypeError'),
dict(id='c35-ignored', property='C35',
     edits=[('usecases.py', "def regular_grid(times, latitude, longitude, algorithm='psa',\n                 refraction=True, engine='numexpr'):",
             "def regular_grid(times, latitude, longitude, algorithm='psa',\n                 refraction=True, engine='numexpr', **kwargs):")],
     demo=RESULT + '''
try:
    sunwhere.regular_grid(pd.date_range('2024-06-01', periods=3, freq='h'), [40.], [3.], algoritm='nrel')
except TypeError:
    pass
else:
    raise AssertionError('a misspelt argument is ignored')
''', needs='a misspelt argument', breaks='it is ignored, and the calculation is that of the default'),
dict(id='c35-sunset', property='C35',
     edits=[('_base.py', "    def sunset(self, units='deg'):\n", "    def sunset(self, *args, units='deg'):\n"),
            ('_base.py', "            `local` for local time sunset\n\n        Returns:\n            A xarray's DataArray\n\n        Raises:\n            ValueError: if units are unknown\n\n        References:\n\n            [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,\n            Academic Press, 1983.\n        \"\"\"\n",
             "            `local` for local time sunset\n\n        Returns:\n            A xarray's DataArray\n\n        Raises:\n            ValueError: if units are unknown\n\n        References:\n\n            [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,\n            Academic Press, 1983.\n        \"\"\"\n        if len(args) == 2:\n            units = args[0]\n")],
     demo=RESULT + '''
r = sunwhere.sites(pd.date_range('2024-06-01', periods=3, freq='h'), [40.], [3.])
assert r.sunset('rad').equals(r.sunset(units='rad'))
''', needs='the units of sunset by position', breaks='units given by position are ignored'),
dict(id='c35-names', property='C35',
     edits=[('__init__.py', '__all__ = ["sites", "regular_grid", "transect", "universal_time_coordinated",', '__all__ = ["sites", "regular_grid", "transect", "true_solar_time", "universal_time_coordinated",')],
     demo=RESULT + '''
from sunwhere import *
assert sites
''', needs='from sunwhere import *', breaks='AttributeError'),
dict(id='c35-lon', property='C35',
     edits=[('utils/datetime.py', "def universal_time_coordinated(times_tst, longitude):\n    dt64 = 'datetime64[ns]'\n    times_tst = np.array(times_tst, ndmin=1)\n",
             "def universal_time_coordinated(times, longitude):\n    dt64 = 'datetime64[ns]'\n    times_tst = np.array(times, ndmin=1)\n")],
     demo=RESULT + '''
sunwhere.universal_time_coordinated(times_tst=np.array(['2024-06-01T12'], 'M8[s]'), longitude=3.)
''', needs='the times of universal_time_coordinated by name', breaks='TypeError'),
dict(id='c35-engine', property='C35',
     edits=[('usecases.py', "def sites(times, latitude, longitude, algorithm='psa',\n          refraction=True, engine='numexpr'):",
             "def _grouped(f):\n    def wrapped(times, *place, **options):\n        return f(times, *place[:4], **{'engine': 'numexpr', **options})\n    wrapped.__doc__ = f.__doc__\n    return wrapped\n\n\n@_grouped\ndef sites(times, latitude, longitude, algorithm='psa',\n          refraction=True, engine='numexpr'):")],
     demo=RESULT + '''
r = sunwhere.sites(pd.date_range('2024-06-01', periods=3, freq='h'), [40.], [3.], 'psa', True, 'numpy')
assert r.engine == 'numpy'
''', needs='the engine of sites() by position', breaks='the engine given by position is ignored'),
]
