"""Planted changes for C30 (types of coordinates), C31 (what is needed to run) and C32 (what is left behind)."""
PRE = '''
import numpy as np, pandas as pd, sunwhere
t = pd.date_range('2024-06-01T03', periods=8, freq='3h')
'''
STATE = '''
import io, contextlib, logging, os, sys, warnings
import numpy as np, pandas as pd, xarray as xr, numexpr
def threads():
    n = numexpr.set_num_threads(1)
    numexpr.set_num_threads(n)
    return n
def state():
    return (np.geterr(), np.get_printoptions(), xr.get_options(), list(warnings.filters), threads(), pd.get_option('display.precision'),
            dict(os.environ), logging.getLogger().level)
before = state()
err, out = io.StringIO(), io.StringIO()
import loguru
loguru.logger.remove()
loguru.logger.add(err)
def unchanged():
    assert state() == before
    assert not err.getvalue() and not out.getvalue(), (err.getvalue(), out.getvalue())
with contextlib.redirect_stdout(out):
    import sunwhere
t = pd.date_range('2024-06-01T03', periods=8, freq='3h')
unchanged()
'''
BUGS = [
dict(id='c30-int8', property='C30',
     edits=[('usecases.py', "    sites_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n", "    sites_lons = np.array(longitude, ndmin=1)\n")],
     demo=PRE + '''
for k in (np.int8, np.uint8, np.int16):
    lon = np.array([0, 70, 120], k)
    a, b = sunwhere.sites(t, [40., 50., 60.], lon), sunwhere.sites(t, [40., 50., 60.], lon.astype(float))
    assert (a.true_solar_time.values == b.true_solar_time.values).all(), k
    assert np.allclose(a.incidence(30., 10.).values, b.incidence(30., 10.).values), k
''', needs='longitudes in an integer type of 8 bits, beyond 31 degrees', breaks='four times the longitude wraps in the true solar time, in the times of sunrise and sunset and in the incidence'),
dict(id='c30-float32', property='C30',
     edits=[('usecases.py', "    transect_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n    transect_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n",
             "    transect_lats = np.array(latitude, ndmin=1)\n    transect_lons = np.array(longitude, ndmin=1)\n    # both in the same type\n    transect_lons = transect_lons.astype(np.result_type(transect_lats.dtype, np.float32))\n")],
     demo=PRE + '''
lon = np.linspace(-179, 179, 8) + 1/3
for k in (np.float32, np.int8, np.int16):
    lat = np.linspace(-60, 60, 8).round().astype(k)
    a, b = sunwhere.transect(t, lat, lon), sunwhere.transect(t, lat.astype(float), lon)
    assert (a.longitude.values == b.longitude.values).all(), k
''', needs='a transect whose latitudes are float32 or small integers', breaks='the longitudes are rounded to the precision of the latitudes'),
dict(id='c31-fstring', property='C31',
     edits=[('_core.py', """f'are: {", ".join(__ALGORITHMS__.get(algorithm))}')""", """f'are: {', '.join(__ALGORITHMS__.get(algorithm))}')""")],
     demo='''
import glob, json, subprocess
fs = sorted(glob.glob('src/sunwhere/*.py') + glob.glob('src/sunwhere/libspa/*.py') + glob.glob('src/sunwhere/utils/*.py'))
n = []
for v in ('3.11', '3.12'):
    d = json.loads(subprocess.run(['pyright', '--outputjson', '--pythonversion', v, *fs], capture_output=True, text=True).stdout)
    n.append(sum(x['severity'] == 'error' for x in d['generalDiagnostics']))
assert n[0] == n[1], n
''', needs='Python 3.11, which is the oldest that the package declares', breaks='the module is not valid Python there: a quote is used again inside an f-string'),
dict(id='c31-type', property='C31',
     edits=[('usecases.py', "# TYPES OF TIME GRIDS:\n", "type Coordinates = float | list[float] | np.ndarray\n\n\n# TYPES OF TIME GRIDS:\n"),
            ('usecases.py', "def sites(times, latitude, longitude, algorithm='psa',", "def sites(times, latitude: Coordinates, longitude: Coordinates, algorithm='psa',")],
     demo='''
import ast, glob
for f in glob.glob('src/sunwhere/**/*.py', recursive=True):
    ast.parse(open(f).read(), feature_version=(3, 11))
''', needs='Python 3.11', breaks='the package cannot be imported: type statements are of 3.12'),
dict(id='c31-batched', property='C31',
     edits=[('_core.py', "from loguru import logger\n", "from itertools import batched\nfrom loguru import logger\n"),
            ('_core.py', "    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n",
             "    args, = batched((times_nonat, lons_nonat, lats_nonat), 3)\n    result = spa_func(*args, *spa_args)\n")],
     demo='''
import itertools, types, sys
# the names that the standard library has since 3.12
import typing, math, pathlib, inspect
for m, n in ((itertools, 'batched'), (typing, 'override'), (typing, 'TypeAliasType'), (math, 'sumprod'), (pathlib.Path, 'walk')):
    if hasattr(m, n) and m is itertools:
        delattr(m, n)
import sunwhere, pandas as pd
sunwhere.sites(pd.date_range('2024', periods=3), [40.], [3.])
''', needs='Python 3.11', breaks='itertools.batched is of 3.12'),
dict(id='c31-hidden', property='C31',
     edits=[('libspa/py_soltrack.py', "PI = np.pi\n", "from scipy.constants import pi as PI\n")],
     demo='''
import sys
sys.modules['scipy'] = None
import pandas as pd, sunwhere
for a in sunwhere.SPA_ALGORITHMS:
    for e in ('numpy', 'numexpr'):
        if (a, e) != ('nrel', 'numpy'):
            sunwhere.sites(pd.date_range('2024', periods=3), [40.], [3.], algorithm=a, engine=e)
''', needs='scipy, which the package does not declare, missing; the algorithm soltrack with engine numpy', breaks='the import fails silently and the engine cannot be used'),
dict(id='c31-lazy', property='C31',
     edits=[('_base.py', "                if units == 'local':\n                    utcoffset = xr.DataArray(\n                        self._times.tz_localize(None) - self._times_utc.tz_localize(None),",
             "                if units == 'local':\n                    from pytz import utc\n                    utcoffset = xr.DataArray(\n                        self._times.tz_localize(None) - self._times.tz_convert(utc).tz_localize(None),")],
     demo='''
import sys
sys.modules['pytz'] = None
import pandas as pd, sunwhere
r = sunwhere.sites(pd.date_range('2024', periods=3, tz='Europe/Madrid'), [40.], [3.])
for u in ('deg', 'rad', 'tst', 'utc', 'local'):
    r.sunrise(u), r.sunset(u)
''', needs='pytz, which neither the package nor pandas 3 requires, missing; sunrise or sunset in local time', breaks='ModuleNotFoundError'),
dict(id='c32-seterr', property='C32',
     edits=[('_base.py', "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)\n",
             "        np.seterr(divide='ignore', invalid='ignore')\n        am = 1./rec_am.where(self.sza <= 90., other=np.nan)\n")],
     demo=STATE + '''
r = sunwhere.sites(t, [40.], [3.])
r.airmass()
unchanged()
''', needs='the air mass is read', breaks='the error handling of numpy is changed for the whole process'),
dict(id='c32-unwound', property='C32',
     edits=[('_core.py', "    # validate inputs...\n", "    # (comparisons with missing coordinates)\n    olderr = np.seterr(invalid='ignore')\n\n    # validate inputs...\n"),
            ('_core.py', "    # NOTE: times_utc is a naive datetime64[ns], in UTC\n", "    np.seterr(**olderr)\n\n    # NOTE: times_utc is a naive datetime64[ns], in UTC\n")],
     demo=STATE + '''
sunwhere.sites(t, [40.], [3.])
unchanged()
try:
    sunwhere.sites(t, [95.], [3.])
except ValueError:
    pass
unchanged()
''', needs='a call that is refused because of a coordinate out of range', breaks='the error handling of numpy is not restored when the call raises'),
dict(id='c32-attrs', property='C32',
     edits=[('_base.py', "import xarray as xr\n", "import xarray as xr\n\nxr.set_options(keep_attrs=True)\n"),
            ('_base.py', "        return (90. - self.zenith).rename('elevation').assign_attrs(",
             "        return (90. - self.zenith.drop_attrs()).rename('elevation').assign_attrs(")],
     demo=STATE, needs='an import of the package in a process that relies on the defaults of xarray', breaks='xarray keeps attributes everywhere'),
dict(id='c32-log', property='C32',
     edits=[('_core.py', "logger.disable(__name__)\n", "logger.disable(__name__.rpartition('.')[0] + '.core')\n")],
     demo=STATE + '''
sunwhere.sites(t, [40.], [3.])
unchanged()
''', needs='a call with the outputs of loguru as they are by default', breaks='messages of the log are written to the terminal in every call'),
dict(id='c32-filters', property='C32',
     edits=[('libspa/ne_iqbal.py', "import numpy as np\n", "import warnings\n\nimport numpy as np\n\nwarnings.simplefilter('ignore', category=RuntimeWarning)\n")],
     demo=STATE + '''
unchanged()
''', needs='warnings in the code of the caller', breaks='the import hides the warnings of the whole process'),
dict(id='c32-threads', property='C32',
     edits=[('libspa/ne_nrel.py', "    # unixtime: seconds since 1970-01-01T00\n", "    # unixtime: seconds since 1970-01-01T00\n\n    if ndim == 0:\n        # (a single dimension is too short for threads)\n        ne.set_num_threads(1)\n")],
     demo=STATE + '''
numexpr.set_num_threads(3)
before = state()
for a in ('psa', 'soltrack', 'iqbal', 'nrel'):
    sunwhere.transect(t[:2], [40., 50.], [3., 4.], algorithm=a)
unchanged()
''', needs='a transect with the nrel algorithm', breaks='numexpr is left with one thread'),
]
