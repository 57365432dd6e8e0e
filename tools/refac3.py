"""Behaviour-preserving edits of the ephemeris reader."""
SRC = '/repo/src/sunwhere/'


def fn(path, name, new):
    import ast
    s = open(SRC + path).read()
    for n in ast.walk(ast.parse(s)):
        if isinstance(n, ast.FunctionDef) and n.name == name:
            lines = s.splitlines(True)
            return (path, ''.join(lines[n.lineno - 1:n.end_lineno]), new.strip('\n') + '\n')


J = 'utils/jpl_horizons.py'
TAIL = '''
    a = np.array(rows)
    return (pd.DataFrame(a)
            .set_index(pd.to_datetime(a[:, 0])).drop(columns=0)
            .set_axis(['julian_day', 'azimuth0-360', 'elevation', 'R'], axis=1)
            .rename_axis('time_utc', axis=0)
            .assign(
                azimuth=lambda df: df['azimuth0-360']-180,
                zenith=lambda df: 90.-df['elevation'],
                ecf=lambda df: 1/df['R']**2)
            .drop(columns=['julian_day', 'azimuth0-360', 'elevation', 'R'])
            .tz_localize('UTC'))
'''
EDITS = [
dict(id='jpl-state', edits=[fn(J, 'read_jpl_ephemeris_file', '''
def _parse_line(line):
    dt = np.datetime64(dtparser.parse(line[1:21])).astype('datetime64[ns]').astype('float64')
    return dt, float(line[22:39]), float(line[43:54]), float(line[55:66]), float(line[67:84])


def read_jpl_ephemeris_file(filename):
    rows = []
    inside = complete = False
    with open(filename, 'r') as f:
        for line in f:
            if line == '$$SOE\\n':
                inside = True
            elif inside and line == '$$EOE\\n':
                complete = True
                break
            elif inside:
                rows.append(_parse_line(line))
    if not complete:
        raise ValueError('no ephemeris in the file')
''' + TAIL)]),
dict(id='jpl-fields', edits=[fn(J, 'read_jpl_ephemeris_file', '''
FIELDS = {
    'julian_day': slice(22, 39),
    'azimuth0-360': slice(43, 54),
    'elevation': slice(55, 66),
    'R': slice(67, 84),
}


def read_jpl_ephemeris_file(filename):
    path = Path(filename)
    lines = path.read_text().splitlines()
    first = lines.index('$$SOE') + 1
    last = lines.index('$$EOE', first)
    lines = lines[first:last]
    times = pd.to_datetime([dtparser.parse(line[1:21]) for line in lines])
    data = {}
    for name, columns in FIELDS.items():
        data[name] = [float(line[columns]) for line in lines]
    df = pd.DataFrame(data, index=times.tz_localize('UTC'))
    df['azimuth'] = df['azimuth0-360'] - 180
    df['zenith'] = 90. - df['elevation']
    df['ecf'] = df['R']**-2
    df.index.name = 'time_utc'
    return df[['azimuth', 'zenith', 'ecf']]
''')]),
dict(id='jpl-split', edits=[fn(J, 'read_jpl_ephemeris_file', '''
def read_jpl_ephemeris_file(filename):
    with open(filename, 'r') as f:
        text = f.read()
    _, found, body = text.partition('$$SOE\\n')
    if not found:
        raise ValueError('no ephemeris')
    body, found, _ = body.partition('$$EOE\\n')
    if not found:
        raise ValueError('the ephemeris is not complete')
    times, azimuth, zenith, ecf = [], [], [], []
    for line in body.splitlines():
        words = line[:39].split()
        times.append(datetime.strptime(' '.join(words[:2]), '%Y-%b-%d %H:%M:%S'))
        az, el, r = (float(x) for x in line[43:].split())
        azimuth.append(az - 180)
        zenith.append(90 - el)
        ecf.append(1 / (r*r))
    index = pd.DatetimeIndex(times, name='time_utc').tz_localize('UTC')
    return pd.DataFrame({'azimuth': azimuth, 'zenith': zenith, 'ecf': ecf}, index=index)
'''), (J, 'from pathlib import Path\n', 'from datetime import datetime\nfrom pathlib import Path\n')]),
dict(id='jpl-gen', edits=[fn(J, 'read_jpl_ephemeris_file', '''
def _data_lines(stream):
    """Lines between the two markers."""
    for line in stream:
        if line.rstrip() == '$$SOE':
            break
    else:
        raise ValueError('$$SOE not found')
    for line in stream:
        if line.rstrip() == '$$EOE':
            return
        yield line
    raise ValueError('$$EOE not found')


def read_jpl_ephemeris_file(filename):
    def instant(line):
        return np.datetime64(dtparser.parse(line[1:21]), 'ns')

    with open(filename) as f:
        lines = list(_data_lines(f))
    time = np.array([instant(line) for line in lines])
    table = np.array([[float(line[i:j]) for i, j in ((43, 54), (55, 66), (67, 84))] for line in lines])
    azimuth, elevation, distance = table.T
    df = pd.DataFrame({'azimuth': azimuth - 180., 'zenith': 90. - elevation, 'ecf': 1. / distance**2})
    df.index = pd.to_datetime(time, utc=True)
    return df.rename_axis('time_utc')
''')]),
dict(id='jpl-regex', edits=[fn(J, 'read_jpl_ephemeris_file', '''
LINE = re.compile(r'^ (?P<time>\\S+ \\S+) +(?P<jd>[\\d.]+) .{2} +(?P<az>-?[\\d.]+) +(?P<el>-?[\\d.]+) +(?P<r>[\\d.]+)\\s*$')


def read_jpl_ephemeris_file(filename):
    f = open(filename, 'r')
    try:
        lines = f.readlines()
    finally:
        f.close()
    rows = []
    start = lines.index('$$SOE\\n') + 1
    for n in range(start, lines.index('$$EOE\\n', start)):
        m = LINE.match(lines[n])
        if m is None:
            raise ValueError(f'line {n + 1} is not an entry')
        rows.append((pd.Timestamp(dtparser.parse(m['time'])), float(m['az']), float(m['el']), float(m['r'])))
    df = pd.DataFrame(rows, columns=['time_utc', 'az', 'el', 'R']).set_index('time_utc')
    df.insert(0, 'azimuth', df.az - 180)
    df.insert(1, 'zenith', 90 - df.el)
    df.insert(2, 'ecf', 1 / df.R.pow(2))
    return df.drop(columns=['az', 'el', 'R']).tz_localize('UTC')
'''), (J, 'from pathlib import Path\n', 'import re\nfrom pathlib import Path\n')]),
dict(id='jpl-load', edits=[fn(J, 'load_jpl_ephemeris', '''
def _month_bounds(year, month):
    start = pd.Timestamp(year=year, month=month, day=1)
    stop = start + pd.DateOffset(months=1) - pd.Timedelta(minutes=1)
    return start, stop


def _month_file(out_dir, year, month):
    return out_dir / 'jpl_ephemeris_highres_{}-{:02d}.txt'.format(year, month)


def _download_missing(out_dir, year, site_lon, site_lat):
    new = []
    for month in range(1, 13):
        path = _month_file(out_dir, year, month)
        if path.exists():
            continue
        logger.info(f'downloading high-res ephemeris to file {path}')
        start, stop = _month_bounds(year, month)
        get_jpl_ephemeris(path, start, stop, site_lon, site_lat, step_size=12)
        new.append(path)
        logger.success('data downloaded')
    return new


def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
    out_dir = Path('data')
    out_dir.mkdir(parents=True, exist_ok=True)
    table = out_dir / ('jpl_ephemeris_highres_%d.parquet' % year)
    if table.exists():
        return pd.read_parquet(table)
    new = _download_missing(out_dir, year, site_lon, site_lat)
    df = pd.concat([read_jpl_ephemeris_file(_month_file(out_dir, year, m)) for m in range(1, 13)])
    df.insert(0, 'site_lon', site_lon)
    df.insert(1, 'site_lat', site_lat)
    df.to_parquet(table)
    for path in new:
        path.unlink()
    return pd.read_parquet(table)
''')]),
dict(id='jpl-load2', edits=[fn(J, 'load_jpl_ephemeris', '''
def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
    os.makedirs('data', exist_ok=True)
    base = os.path.join('data', f'jpl_ephemeris_highres_{year}')
    if not os.path.exists(base + '.parquet'):
        tables, downloaded = [], []
        for month in range(1, 13):
            name = f'{base}-{month:0>2}.txt'
            if not os.path.isfile(name):
                start_time = datetime.datetime(year, month, 1)
                days = calendar.monthrange(year, month)[1]
                stop_time = start_time + datetime.timedelta(days=days) - datetime.timedelta(minutes=1)
                get_jpl_ephemeris(name, start_time, stop_time, site_lon, site_lat, step_size=12)
                downloaded.append(name)
            tables.append(read_jpl_ephemeris_file(name))
        df = pd.concat(tables, axis='index').assign(site_lon=site_lon, site_lat=site_lat)
        columns = ['site_lon', 'site_lat'] + [c for c in df.columns if not c.startswith('site')]
        df[columns].to_parquet(base + '.parquet')
        for name in downloaded:
            os.remove(name)
    return pd.read_parquet(base + '.parquet')
'''), (J, 'from pathlib import Path\n', 'import os\nimport calendar\nimport datetime\nfrom pathlib import Path\n')]),
dict(id='jpl-get', edits=[fn(J, 'get_jpl_ephemeris', '''
SERVER = 'https://ssd.jpl.nasa.gov/api/horizons.api'
OPTIONS = {
    'COMMAND': '10',                # the Sun
    'OBJ_DATA': 'YES',
    'MAKE_EPHEM': 'YES',
    'EPHEM_TYPE': 'OBSERVER',
    'CENTER': 'coord@399',
    'QUANTITIES': '4,20',           # solar azimuth, elevation, and sun-earth distance (i.e., range)
    'COORD_TYPE': 'GEODETIC',       # to provide the location coordinates as lon and lat
    'REF_SYSTEM': 'ICRF',
    'CAL_FORMAT': 'BOTH',
    'CAL_TYPE': 'M',
    'TIME_DIGITS': 'SECONDS',
    'ANG_FORMAT': 'DEG',            # units for angles
    'APPARENT': 'AIRLESS',          # airless for NO atmospheric refraction
    'RANGE_UNITS': 'AU',            # units for the sun-earth distance
    'SUPPRESS_RANGE_RATE': 'YES',
    'SKIP_DAYLT': 'NO',
    'SOLAR_ELONG': '0,180',
    'EXTRA_PREC': 'NO',
    'R_T_S_ONLY': 'NO',
    'CSV_FORMAT': 'NO'
}
MAX_LINES = 90024                   # max. allowed request lines


def _check_request_size(start_time, stop_time, step_size):
    n_times = len(pd.date_range(start_time, stop_time, freq=f'{step_size:.0f}min'))
    if n_times > MAX_LINES:
        raise ValueError(f'your request involves {n_times} data lines, which '
                         f'exceeds the max. allowed request lines of {MAX_LINES}')


def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
                      site_lat, site_elev=0., step_size=1):
    # site_elev in km
    # step_size in minutes
    start_time, stop_time = map(pd.to_datetime, (start_time, stop_time))
    options = dict(OPTIONS)
    options.update(
        START_TIME=start_time.strftime('%Y-%m-%d %H:%M'),
        STOP_TIME=f'{stop_time:%Y-%m-%d %H:%M}',
        SITE_COORD=','.join([f'{site_lon:.6f}', f'{site_lat:.6f}', f'{site_elev:.3f}']),
        STEP_SIZE='%.0f MINUTES' % step_size,
    )
    _check_request_size(options['START_TIME'], options['STOP_TIME'], step_size)

    query = ['format=text']
    for k, v in options.items():
        query.append("{}='{}'".format(k, v))
    url = '?'.join([SERVER, '&'.join(query)])

    http = urllib3.PoolManager()
    try:
        data = http.request('GET', url).data.decode('utf-8')
    finally:
        http.clear()

    path = Path(out_filename)
    path.parent.mkdir(parents=True, exist_ok=True)
    with path.open('w') as f:
        f.write(data)
    return path
''')]),
]
