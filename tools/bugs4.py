PRE = '''
import os, sys, tempfile, warnings, re, urllib.parse, gc
import numpy as np, pandas as pd
warnings.simplefilter('error', ResourceWarning)
from sunwhere.utils import jpl_horizons as J
from loguru import logger
logger.remove()
tmp = tempfile.TemporaryDirectory()
os.chdir(tmp.name)
# no parquet engine is installed: tables are kept as pickles
pd.DataFrame.to_parquet = lambda self, path, *a, **k: self.to_pickle(path)
pd.read_parquet = lambda path, *a, **k: pd.read_pickle(path)


def line(t, k):
    mark = ('  ', '* ', ' m', '*m')[k % 4]
    az, el, r = 100.123456 + k, 10.654321 - k % 100, 0.98331234567891 + k*1e-6
    s = f" {t:%Y-%b-%d %H:%M:%S} {t.to_julian_date():17.9f} {mark}  {az:10.6f}  {el:10.6f} {r:17.14f}"
    return s, (t, az, el, r)


def text(times):
    rows = [line(t, k) for k, t in enumerate(times)]
    head = '*****\\n Date__(UT)__HR:MN:SS Date_________JDUT     Azi____(a-app)___Elev            delta\\n*****\\n'
    return head + '$$SOE\\n' + ''.join(s + '\\n' for s, _ in rows) + '$$EOE\\n*****\\nColumn meaning:\\n', [v for _, v in rows]


class Pool:
    def __init__(self, *a, **k):
        pass

    def request(self, method, url):
        o = dict(re.findall("([A-Z_]+)='([^']*)'", urllib.parse.unquote_plus(url)))
        asked.append(o)
        body = text(pd.date_range(o['START_TIME'], o['STOP_TIME'], freq='360min'))[0]
        return type('R', (), {'data': body.encode()})()

    def clear(self):
        pass


asked = []
J.urllib3.PoolManager = Pool


def compare(df, rows):
    assert len(df) == len(rows), (len(df), len(rows))
    t, az, el, r = zip(*rows)
    assert (df.index == pd.DatetimeIndex(t).tz_localize('UTC')).all()
    assert np.abs(df['azimuth'] - (np.array(az) - 180)).max() < 1e-9
    assert np.abs(df['zenith'] - (90 - np.array(el))).max() < 1e-9
    assert np.abs(df['ecf'] - 1/np.array(r)**2).max() < 1e-9
'''
BUGS = [
dict(id='c23-seconds', property='C23',
     edits=[('utils/jpl_horizons.py', 'dtparser.parse(line[1:21])', 'dtparser.parse(line[1:18])')],
     demo=PRE + '''
s, rows = text(pd.date_range('2024-01-01T00:00:30', periods=5, freq='90s'))
open('f.txt', 'w').write(s)
compare(J.read_jpl_ephemeris_file('f.txt'), rows)
''',
     needs='an ephemeris at times with seconds', breaks='the seconds of the times are dropped'),
dict(id='c23-mark', property='C23',
     edits=[('utils/jpl_horizons.py', 'az = float(line[43:54])', 'az = float(line[41:54])')],
     demo=PRE + '''
s, rows = text(pd.date_range('2024-01-01', periods=5, freq='720s'))
open('f.txt', 'w').write(s)
compare(J.read_jpl_ephemeris_file('f.txt'), rows)
''',
     needs='a line with the mark of the moon', breaks='the reader fails on lines with the mark of the moon'),
dict(id='c23-month', property='C23',
     edits=[('utils/jpl_horizons.py', "pd.Timedelta('35days')", "pd.Timedelta('59days')")],
     demo=PRE + '''
for year in (2024, 2023):
    df = J.load_jpl_ephemeris(year)
    assert df.index.is_unique and len(df) == (365 + (year == 2024))*4, len(df)
''',
     needs='a year that is not a leap year', breaks='in common years January is asked for together with February'),
dict(id='c23-leak', property='C23',
     edits=[('utils/jpl_horizons.py', '''    with open(filename, 'r') as f:
        lines = f.readlines()
    first_data_line = lines.index('$$SOE\\n')+1
    last_data_line = lines.index('$$EOE\\n', first_data_line)
''', '''    f = open(filename, 'r')
    lines = f.readlines()
    first_data_line = lines.index('$$SOE\\n')+1
    last_data_line = lines.index('$$EOE\\n', first_data_line)
    f.close()
''')],
     demo=PRE + '''
import builtins
opened = []
real = builtins.open
def spy(*a, **k):
    f = real(*a, **k)
    opened.append(f)
    return f
with open('f.txt', 'w') as f:
    f.write('No ephemeris for target "Sun"\\\\n')
J.open = spy
try:
    J.read_jpl_ephemeris_file('f.txt')
    assert False
except ValueError:
    pass
assert opened and all(f.closed for f in opened)
''',
     needs='a file without ephemeris', breaks='the file is left open when there is no ephemeris in it'),
dict(id='c23-last', property='C23',
     edits=[('utils/jpl_horizons.py', "lines[first_data_line: last_data_line]]", "lines[first_data_line: last_data_line - (last_data_line - first_data_line > 4)]]")],
     demo=PRE + '''
for n in (1, 4, 5, 30):
    s, rows = text(pd.date_range('2024-01-01', periods=n, freq='720s'))
    open('f.txt', 'w').write(s)
    compare(J.read_jpl_ephemeris_file('f.txt'), rows)
''',
     needs='more than four lines', breaks='the last line is lost'),
dict(id='c23-site', property='C23',
     edits=[('utils/jpl_horizons.py', "get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon, site_lat, step_size=12)",
             "get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon % 360, site_lat % 360, step_size=12)")],
     demo=PRE + '''
df = J.load_jpl_ephemeris(2024, site_lon=10., site_lat=-20.)
for o in asked:
    lon, lat, _ = map(float, o['SITE_COORD'].split(','))
    assert (lon, lat) == (10., -20.), o
''',
     needs='a site in the southern hemisphere', breaks='the latitude asked for is not the one in the table'),
dict(id='c23-some', property='C23',
     edits=[('utils/jpl_horizons.py', '''            if not out_filename.exists():
                logger.info(f'downloading''', '''            if not filenames and not out_filename.exists() or len(filenames) == month - 1:
                logger.info(f'downloading''')],
     demo=PRE + '''
os.makedirs('data')
for m in (2,):
    open(f'data/jpl_ephemeris_highres_2024-{m:02d}.txt', 'w').write(text(pd.date_range(f'2024-{m:02d}-01', f'2024-{m:02d}-29T23:59', freq='360min'))[0])
df = J.load_jpl_ephemeris(2024)
assert len(df) == 366*4 and df.index.is_unique and len(asked) == 11
''',
     needs='a month already on disk', breaks='months that are missing after one that is on disk are not downloaded'),
dict(id='c23-ecf', property='C23',
     edits=[('utils/jpl_horizons.py', "float(line[67:84])  # in AU", "float(line[67:83])  # in AU")],
     demo=PRE + '''
s, rows = text(pd.date_range('2024-01-01', periods=5, freq='720s'))
open('f.txt', 'w').write(s)
df = J.read_jpl_ephemeris_file('f.txt')
assert np.abs(df['ecf'] - 1/np.array([r[3] for r in rows])**2).max() < 5e-15
''',
     needs='the fourteenth decimal of the distance', breaks='the distance is cut by one digit'),
]
