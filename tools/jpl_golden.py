"""The ephemeris reader against lines written here (development aid, no check uses it)."""
import os, sys, tempfile, warnings, re, urllib.parse, gc
import numpy as np, pandas as pd
from sunwhere.utils import jpl_horizons as J
from loguru import logger
logger.remove()
tmp = tempfile.TemporaryDirectory()
os.chdir(tmp.name)
# no parquet engine is installed: tables are kept as pickles
pd.DataFrame.to_parquet = lambda self, path, *a, **k: self.to_pickle(path)
pd.read_parquet = lambda path, *a, **k: pd.read_pickle(path)


def line(t, k):
    mark = ('  ', '* ', ' m', '*m')[k % 4]
    az, el, r = 100.123456 + k, 10.654321 - k % 100, 0.98331234567891 + k*1e-6
    s = f" {t:%Y-%b-%d %H:%M:%S} {t.to_julian_date():17.9f} {mark}  {az:10.6f}  {el:10.6f} {r:17.14f}"
    return s, (t, az, el, r)


def text(times):
    rows = [line(t, k) for k, t in enumerate(times)]
    head = '*****\n Date__(UT)__HR:MN:SS Date_________JDUT     Azi____(a-app)___Elev            delta\n*****\n'
    return head + '$$SOE\n' + ''.join(s + '\n' for s, _ in rows) + '$$EOE\n*****\nColumn meaning:\n', [v for _, v in rows]


class Pool:
    def __init__(self, *a, **k):
        pass

    def request(self, method, url):
        o = dict(re.findall("([A-Z_]+)='([^']*)'", urllib.parse.unquote_plus(url)))
        asked.append(o)
        body = text(pd.date_range(o['START_TIME'], o['STOP_TIME'], freq='360min'))[0]
        return type('R', (), {'data': body.encode()})()

    def clear(self):
        pass


asked = []
J.urllib3.PoolManager = Pool


def compare(df, rows):
    assert len(df) == len(rows), (len(df), len(rows))
    t, az, el, r = zip(*rows)
    assert (df.index == pd.DatetimeIndex(t).tz_localize('UTC')).all()
    assert np.abs(df['azimuth'] - (np.array(az) - 180)).max() < 1e-9
    assert np.abs(df['zenith'] - (90 - np.array(el))).max() < 1e-9
    assert np.abs(df['ecf'] - 1/np.array(r)**2).max() < 1e-9

for n in (1, 4, 5, 30):
    s, rows = text(pd.date_range('2024-01-01T00:00:30', periods=n, freq='720s'))
    open('f.txt', 'w').write(s)
    df = J.read_jpl_ephemeris_file('f.txt')
    compare(df, rows)
    assert list(df.columns) == ['azimuth', 'zenith', 'ecf'] and df.index.name == 'time_utc', df
for bad in ('nothing', s.replace('$$SOE', ''), s.replace('$$EOE', ''), s.replace('$$EOE', 'garbage\n$$EOE')):
    open('g.txt', 'w').write(bad)
    try:
        J.read_jpl_ephemeris_file('g.txt')
        assert False
    except (ValueError, IndexError):
        pass
for kw in ({'year': 2024}, {'year': 2023}, {'year': 2025, 'site_lon': 10., 'site_lat': -20.}):
    for _ in (1, 2):
        df = J.load_jpl_ephemeris(**kw)
        assert len(df) == (365 + (kw['year'] == 2024))*4 and df.index.is_unique and str(df.index.tz) == 'UTC'
        assert list(df.columns) == ['site_lon', 'site_lat', 'azimuth', 'zenith', 'ecf'], df
        assert (df.site_lon == kw.get('site_lon', -3.822)).all() and (df.site_lat == kw.get('site_lat', 36.949)).all()
assert len(asked) == 36
print('differences: 0 jpl ok')
