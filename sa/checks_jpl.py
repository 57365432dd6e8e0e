"""Rules on the reader of JPL Horizons ephemerides (C23)."""

import datetime as dt
import re
import urllib.parse
from fractions import Fraction

from . import arrays as A
from . import fixed as F
from . import m_files as MF
from . import m_frame as FR
from . import m_time as MT
from . import symstr
from . import terms as T
from . import world as W
from .arrays import Arr, PyExc
from .checks import check
from .framework import Task
from .terms import AnalysisGap
from .values import SymStr
from .world import Violation

MODULE = 'sunwhere.utils.jpl_horizons'

HEADER = ['*' * 78 + '\n', ' Revised: July 31, 2013                  Sun                                 10\n',
          ' Target body name: Sun (10)                        {source: DE441}\n',
          'Center-site name: (user defined site below)\n',
          'Start time      : A.D. 2024-Jan-01 00:00:00.0000 UT\n', 'Step-size       : 12 minutes\n', '\n',
          ' Date__(UT)__HR:MN:SS Date_________JDUT     Azi____(a-app)___Elev            delta\n', '*' * 81 + '\n']
FOOTER = ['*' * 81 + '\n', 'Column meaning:\n', '\n', '  Times PRIOR to 1962 are UT1, a mean-solar time closely related to the\n',
          ' 2024-Jan-01 00:00:00 is not an entry\n', '\n']
MARKS = ('  ', '* ', ' m', '*m', 'C ', 'N ')
FIELDS = (('year', 4, 'digits', ('2024', '2023', '2100')), ('mon', 3, 'letters', ('Jan', 'Dec', 'Jun')), ('day', 2, 'digits', ('01', '31', '15')),
          ('hh', 2, 'digits', ('00', '23', '12')), ('mm', 2, 'digits', ('00', '48', '36')), ('ss', 2, 'digits', ('00', '59', '07')))


def declare():
    W.declare()
    T.declare('jpl_t', lo=0, hi=7258118400, integer=True)
    T.declare('jpl_jd', lo=2440587, hi=2524594)
    T.declare('jpl_az', lo=0, hi=360)
    T.declare('jpl_el', lo=-90, hi=90)
    T.declare('jpl_R', lo=Fraction(97, 100), hi=Fraction(103, 100))


def at(name, row):
    return T.atom('jpl_' + name, (T.const(row),))


def data_line(row):
    """One line of an ephemeris, in the columns the service writes."""
    fx = {n: ('fx', (row, n), w, sample, kind) for n, w, kind, sample in FIELDS}

    def num(name, w):
        return ('numeral', Arr((), [at(name, row)], 'pyf', 'py'), w)
    return SymStr([' ', fx['year'], '-', fx['mon'], '-', fx['day'], ' ', fx['hh'], ':', fx['mm'], ':', fx['ss'], ' ', num('jd', 17), ' ',
                   MARKS[row % len(MARKS)], '  ', num('az', 10), '  ', num('el', 10), ' ', num('R', 17), '\n'])


def text(rows, header=len(HEADER), footer=len(FOOTER), change=None):
    lines = HEADER[:header] + ['$$SOE\n'] + [data_line(r) for r in rows] + ['$$EOE\n'] + FOOTER[:footer]
    if change is not None:
        lines = change(lines, header + 1)
    return symstr.join(lines)


def parse_time(it, s):
    """The time a text in the file is read as."""
    cs = F.build(F.chars(s))
    cs = F.strip(cs, 'strip')
    parts = cs.parts if isinstance(cs, SymStr) else (cs,)
    fields, row = [], None
    for p in parts:
        if isinstance(p, str):
            if p.strip(' -:T/,') != '':
                raise PyExc(ValueError, f'Unknown string format: {s.text()}')
            continue
        if p[0] != 'fx':
            raise PyExc(ValueError, f'Unknown string format: {s.text()}')
        if row not in (None, p[1][0]):
            raise PyExc(ValueError, 'parts of two lines')
        row = p[1][0]
        fields.append(p[1][1])
    names = [f[0] for f in FIELDS]
    if fields == names:
        t = at('t', row)
    else:
        n = 'jpl_t_of_' + '_'.join(fields)
        T.declare(n, lo=0, hi=7258118400, integer=True)
        t = T.atom(n, (T.const(row),))
    return MT.PdTimes(Arr((), [T.scale(t, {0: Fraction(10**6)})], 'M8[us]', 'sc'), None, 'stamp')


def strptime(it, s, fmt):
    r = F.strip(s, 'strip') if F.is_fixed(s) else s
    if not isinstance(r, SymStr):
        raise PyExc(ValueError, 'time data does not match format')
    sample = [''.join(p if isinstance(p, str) else F.sample(p, n) if p[0] != 'colpart' else F.sample(p[1], n)[p[2]:p[3]] for p in r.parts)
              for n in range(3)]
    for x in sample:
        try:
            v = dt.datetime.strptime(x, fmt)
        except ValueError as e:
            raise PyExc(ValueError, str(e))
        if x == sample[0] and len(x) == 20 and v != dt.datetime(2024, 1, 1):
            raise AnalysisGap('time format')
    res = parse_time(it, r)
    return MT.PdTimes(res.arr, None, 'datetime')


def parse_number(it, s, kind):
    if not F.is_fixed(s):
        return None
    r = F.strip(s, 'strip')
    ps = r.parts if isinstance(r, SymStr) else (r,)
    if len(ps) == 1 and isinstance(ps[0], tuple):
        p = ps[0]
        if p[0] == 'numeral':
            if kind == 'pyi':
                raise PyExc(ValueError, 'invalid literal for int()')
            return Arr((), [p[1].cells[0]], 'pyf', 'py')
        if p[0] == 'colpart':
            q = p[1]
            key = q[1] if q[0] == 'fx' else q[1].cells[0].fp
            n = f'part_{key}_{p[2]}_{p[3]}'
            T.declare(n, lo=-10**20, hi=10**20)
            return Arr((), [T.atom(n, ())], 'pyf', 'py')
        if p[0] == 'fx' and p[4] == 'digits':
            n = f'jpl_{p[1][1]}'
            T.declare(n, lo=0, hi=9999, integer=True)
            t = T.atom(n, (T.const(p[1][0]),))
            return Arr((), [t], 'pyi' if kind == 'pyi' else 'pyf', 'py')
    raise PyExc(ValueError, f'could not convert string to float: {s.text()!r}')


def prepare(it, fs):
    declare()
    it.env['fs'] = fs
    it.env['parse_time'] = parse_time
    it.env['strptime'] = strptime
    it.env['parse_number'] = parse_number
    return it.load(MODULE).ns


def function(ns, name):
    if name not in ns:
        raise Violation('works', f'there is no function {name} in {MODULE}')
    return ns[name]


VALUES = {
    'zenith': lambda r: T.sub(T.const(90), at('el', r)),
    'azimuth': lambda r: T.sub(at('az', r), T.const(180)),
    'ecf': lambda r: T.div(T.const(1), T.mul(at('R', r), at('R', r))),
    'elevation': lambda r: at('el', r),
    'R': lambda r: at('R', r),
    'julian_day': lambda r: at('jd', r),
    'azimuth0-360': lambda r: at('az', r),
}


def check_table(rep, df, rows, extra=None):
    """df has one row per line, in order, each column holding what its name says."""
    if not isinstance(df, FR.Frame):
        rep.fail('table', f'the result is a {type(df).__name__}, not a DataFrame')
        return
    rep.done('table')
    n = df.ax
    if not rep.check(isinstance(n, int) and n == len(rows), 'rows', f'{n} row(s) for {len(rows)} line(s)'):
        return
    i = df.index
    if not rep.check(isinstance(i, MT.PdTimes) and i.tz is not None, 'index', 'the index has no time zone'):
        return
    rep.check(i.tz.key() == MT.utc().key() or i.tz.offset(T.const(0)) is T.const(0), 'index', f'the index is in zone {i.tz.name}')
    s = MT.secs(i.arr)
    for k, r in enumerate(rows):
        rep.done('instant')
        if T.sub(s.cells[k], at('t', r)) is not T.const(0):
            rep.fail('instant', f'the index of row {k} is {T.show(s.cells[k])}, not the instant of its line', s.cells[k].prov)
    need = ['zenith', 'azimuth', 'ecf'] + list(extra or ())
    for c in need:
        rep.check(c in df.cols, 'columns', f'there is no column {c!r}')
    for c, v in df.cols.items():
        want = VALUES.get(c)
        if want is None and extra and c in extra:
            want = (lambda x: lambda r: T.const(x) if not isinstance(x, T.Term) else x)(extra[c])
        if want is None or not isinstance(v, Arr):
            continue
        rep.check(v.dtype in ('f8', 'pyf', 'i8', 'pyi'), 'precision', f'column {c!r} has type {v.dtype}')
        for k, r in enumerate(rows):
            rep.done('value')
            x, y = v.cells[k], want(r)
            if x.fp != y.fp or x.valid is not T.TRUE:
                loc = x.prov
                rep.fail('value', f'{c!r} in row {k} is {T.show(x)}, not {T.show(y)}', loc)
                break


def check_closed(it, rep, when):
    for f in it.opened:
        rep.done('closed')
        if not f.closed:
            rep.fail('closed', f'a file is left open {when}', f.loc)


# what the reader must refuse
def garbage(lines, k):
    return lines[:k + 1] + ['>..... Prior to A.D. 1962-JAN-20 no data .....\n'] + lines[k + 2:]


def cut_line(lines, k):
    x = lines[k + 1]
    return lines[:k + 1] + [F.build(F.chars(x)[:48] + ['\n'])] + lines[k + 2:]


def without(marker):
    return lambda lines, k: [x for x in lines if not (isinstance(x, str) and x.startswith(marker))]


def error_page(lines, k):
    return ['API VERSION: 1.2\n', 'API SOURCE: NASA/JPL Horizons API\n', '\n', 'No ephemeris for target "Sun" prior to B.C. 9999\n']


FAULTS = {'a line that is not an entry': garbage, 'a line cut short': cut_line, 'no $$SOE line': without('$$SOE'),
          'no $$EOE line': without('$$EOE'), 'an error message of the service': error_page}
SHAPES = {'one line': (2, [3], 1), 'four lines': (9, [0, 1, 2, 3], 6), 'seven lines, no footer': (5, [4, 5, 6, 7, 8, 9, 10], 0)}

REQUEST = {'COMMAND': '10', 'EPHEM_TYPE': 'OBSERVER', 'QUANTITIES': '4,20', 'COORD_TYPE': 'GEODETIC', 'CENTER': 'coord@399', 'CAL_FORMAT': 'BOTH',
           'CAL_TYPE': 'M', 'ANG_FORMAT': 'DEG', 'APPARENT': 'AIRLESS', 'RANGE_UNITS': 'AU', 'MAKE_EPHEM': 'YES'}
OPTIONAL = {'TIME_DIGITS': 'SECONDS', 'SUPPRESS_RANGE_RATE': 'YES', 'SKIP_DAYLT': 'NO', 'EXTRA_PREC': 'NO', 'R_T_S_ONLY': 'NO', 'CSV_FORMAT': 'NO',
            'SOLAR_ELONG': '0,180', 'REF_SYSTEM': 'ICRF'}
NEEDED = ('TIME_DIGITS', 'SUPPRESS_RANGE_RATE')


def month_of_request(rep, url, year, lon, lat):
    """Month asked for; the options that decide what the file holds are compared."""
    if not isinstance(url, str):
        raise AnalysisGap('a request that is not constant')
    o = dict(re.findall(r"([A-Z_]+)='?([^'&]*)'?", urllib.parse.unquote_plus(url.split('?', 1)[-1])))
    for k, v in {**REQUEST, **OPTIONAL}.items():
        if k in o or k in REQUEST or k in NEEDED:
            rep.check(o.get(k) == v, 'request', f'the request has {k}={o.get(k)!r}: the file would not hold the columns that are read')
    rep.check('TIME_ZONE' not in o, 'request', 'the request changes the time zone')
    c = o.get('SITE_COORD', '').split(',')
    try:
        ok = len(c) == 3 and abs(float(c[0]) - lon) < 1e-6 and abs(float(c[1]) - lat) < 1e-6
    except ValueError:
        ok = False
    rep.check(ok, 'request', f'the request is for the site {o.get("SITE_COORD")}, not longitude {lon} and latitude {lat}')
    try:
        a = dt.datetime.fromisoformat(o['START_TIME'])
        b = dt.datetime.fromisoformat(o['STOP_TIME'])
        step = dt.timedelta(minutes=float(o['STEP_SIZE'].split()[0]))
    except (KeyError, ValueError) as e:
        raise Violation('request', f'no period in the request: {e}')
    end = dt.datetime(a.year + a.month // 12, a.month % 12 + 1, 1)
    rep.check(a.year == year and a == dt.datetime(a.year, a.month, 1) and end - step <= b < end, 'request',
              f'the request covers {a} to {b} in steps of {step}, not one month of {year}')
    return a.month


@check('C23',
       'The reader is followed over files whose lines are symbolic: every field of a line is a value of its own at the columns the service '
       'writes, and the slices, splits and searches of the code are applied to them; the cells of the table returned must be those values, '
       'one row per line and in order, with aware times in UTC. The public loader is followed from an empty disk, with every month on disk, '
       'with some of them, with the table of the year and after calls (completed or interrupted) for other sites and years, with the requests it makes compared; on each path, also those that raise, '
       'every file opened has been closed.',
       minimum={'rows': 10, 'value': 100, 'instant': 50, 'closed': 20, 'refused': 5, 'request': 100, 'columns': 20, 'reuse': 12},
       anchors=['jpl_horizons.py'],
       assumptions=['lines have the columns of the service for the options requested (see data_line in sa/checks_jpl.py)',
                    'files of 1, 4 and 7 lines stand for those of any length, and 2 lines per month for a year',
                    'dateutil reads the date and time of a line; pandas and urllib3 behave as modelled in m_frame.py and m_files.py'])
def c23(tier):
    tasks = []
    for shape, (h, rows, f) in SHAPES.items():
        for how in ('a string', 'a Path'):
            def fn(it, rep, h=h, rows=rows, f=f, how=how):
                ns = prepare(it, MF.Fs({'eph/file.txt': text(rows, h, f)}))
                p = 'eph/file.txt' if how == 'a string' else MF.PathObj('eph/file.txt')
                try:
                    df = it.call(function(ns, 'read_jpl_ephemeris_file'), [p])
                finally:
                    check_closed(it, rep, 'by the reader')
                check_table(rep, df, rows)
            tasks.append(Task(f'reader, {shape}, {how}', fn))
    for name, change in FAULTS.items():
        for shape in ('four lines', 'seven lines, no footer'):
            def fn(it, rep, change=change, shape=shape, name=name):
                h, rows, f = SHAPES[shape]
                ns = prepare(it, MF.Fs({'eph/file.txt': text(rows, h, f, change)}))
                rep.done('refused')
                try:
                    it.call(function(ns, 'read_jpl_ephemeris_file'), ['eph/file.txt'])
                    rep.fail('refused', f'a table is returned for a file with {name}')
                except PyExc:
                    pass
                check_closed(it, rep, f'by the reader of a file with {name}')
            tasks.append(Task(f'reader, {shape}, {name}', fn))

    def rows_of(month):
        return [100 * month, 100 * month + 1]

    class Disk(dict):
        """Files, with the order in which they are written."""
        def __init__(self, *a):
            super().__init__(*a)
            self.written = []

        def __setitem__(self, k, v):
            super().__setitem__(k, v)
            self.written.append((k, v))

    def names(it, rep, year, kw):
        """The file of each month and the one of the table of the year, as the loader writes them: month -> path (0: the table)."""
        fs = MF.Fs()
        fs.files = disk = Disk()
        ns = prepare(it, fs)
        found, at_ = {}, []

        def download(it_, url):
            note()
            at_.append((month_of_request(rep, url, year, *site_of(kw)), len(disk.written)))
            return text(rows_of(at_[-1][0]))

        def note():
            for path, v in disk.written[at_[-1][1]:] if at_ else ():
                found.setdefault(0 if isinstance(v, FR.Frame) else at_[-1][0], path)
        it.env['download'] = download
        it.call(function(ns, 'load_jpl_ephemeris'), [], dict(kw, year=year))
        note()
        return found

    def on_disk(it, rep, year, months, kw={}, change=None):
        found = names(it, rep, year, kw)
        return {found[m]: text(rows_of(m), **({'change': change[m]} if change and m in change else {})) for m in months if m in found}, \
            [m for m in range(1, 13) if m not in months or m not in found]

    def site_of(kw):
        return kw.get('site_lon', -3.822), kw.get('site_lat', 36.949)

    def load(it, rep, files, year, kw, dirs=(), given=range(1, 13), table=None, twice=False, shift=0, fs=None):
        lon, lat = site_of(kw)
        ns = prepare(it, fs or MF.Fs(files, dirs))
        asked = []

        def download(it_, url):
            m = month_of_request(rep, url, year, lon, lat)
            asked.append(m)
            return text([r + shift for r in rows_of(m)])
        it.env['download'] = download
        args = dict(kw, **({} if year == 2024 and not kw else {'year': year}))
        f = function(ns, 'load_jpl_ephemeris')
        want = table if table is not None else [r + shift for m in range(1, 13) for r in rows_of(m)]
        extra = {'site_lon': T.number(lon), 'site_lat': T.number(lat)}
        for n in (1, 2) if twice else (1,):
            try:
                df = it.call(f, [], args)
            finally:
                check_closed(it, rep, 'by the loader')
            check_table(rep, df, want, extra)
        rep.check(set(asked) >= set(given), 'request', f'the months asked for are {asked}, those needed {list(given)}')

    def present(months, year, kw={}, **k):
        def fn(it, rep):
            files, missing = on_disk(it, rep, year, months)
            load(it, rep, files, year, kw, given=missing, **k)
        return fn

    for year in (2024, 2023) + ((2100, 1999) if tier == 'thorough' else ()):
        tasks.append(Task(f'loader, {year}, nothing on disk', lambda it, rep, year=year: load(it, rep, {}, year, {}, twice=True), weight=5))
        tasks.append(Task(f'loader, {year}, every month on disk', present(range(1, 13), year), weight=8))
    tasks.append(Task('loader, another site', lambda it, rep: load(it, rep, {}, 2024, {'site_lon': 10.5, 'site_lat': -20.25}, dirs=['data']), weight=5))
    tasks.append(Task('loader, a site at zero', lambda it, rep: load(it, rep, {}, 2023, {'site_lon': 0., 'site_lat': 0.}, dirs=['data']), weight=5))
    tasks.append(Task('loader, some months on disk', present((1, 2, 7, 12), 2024, twice=True), weight=8))

    def stored(it, rep):
        found = names(it, rep, 2024, {})
        if 0 not in found:
            return
        declare()
        rows = [5, 9, 7]
        cols = {n: Arr((3,), [T.number(-3.822) if n == 'site_lon' else T.number(36.949) if n == 'site_lat' else VALUES[n](r) for r in rows], 'f8')
                for n in ('site_lon', 'site_lat', 'azimuth', 'zenith', 'ecf')}
        index = MT.PdTimes(Arr((3,), [T.scale(at('t', r), {0: Fraction(10**6)}) for r in rows], 'M8[us]'), MT.utc(), 'index')
        load(it, rep, {found[0]: FR.Frame(cols, index, 3, 'time_utc')}, 2024, {}, given=(), table=rows)
    tasks.append(Task('loader, the table of the year on disk', stored, weight=6))

    # what an earlier call has left on the disk is used for its own year and site only
    for what, (first, second) in {
            'another longitude': ({'year': 2024}, {'year': 2024, 'site_lon': 10.5}),
            'another latitude': ({'year': 2024, 'site_lat': -36.949}, {'year': 2024}),
            'longitude and latitude exchanged': ({'year': 2023, 'site_lon': 20.25, 'site_lat': 10.5}, {'year': 2023, 'site_lon': 10.5, 'site_lat': 20.25}),
            'the opposite longitude': ({'year': 2023, 'site_lon': 10.5, 'site_lat': 20.25}, {'year': 2023, 'site_lon': -10.5, 'site_lat': 20.25}),
            'a site near by': ({'year': 2024, 'site_lon': 10.503, 'site_lat': 20.25}, {'year': 2024, 'site_lon': 10.504, 'site_lat': 20.25}),
            'another year': ({'year': 2023}, {'year': 2024})}.items():
        def again(it, rep, first=first, second=second):
            fs = MF.Fs()
            rep.done('reuse')
            load(it, rep, None, first['year'], first, fs=fs)
            load(it, rep, None, second['year'], second, fs=fs, shift=5000)
            load(it, rep, None, first['year'], first, fs=fs, given=())
        tasks.append(Task(f'loader, after {what}', again, weight=12))

        def interrupted(it, rep, first=first, second=second):
            fs = MF.Fs()
            rep.done('reuse')
            ns = prepare(it, fs)

            def download(it_, url):
                m = month_of_request(rep, url, first['year'], *site_of(first))
                if m == 6:
                    raise PyExc(OSError, 'the connection is lost')
                return text(rows_of(m))
            it.env['download'] = download
            try:
                it.call(function(ns, 'load_jpl_ephemeris'), [], dict(first))
                rep.fail('refused', 'a table is returned although a month could not be downloaded')
            except PyExc:
                pass
            load(it, rep, None, second['year'], second, fs=fs, shift=5000)
            load(it, rep, None, first['year'], first, fs=fs, given=())
        tasks.append(Task(f'loader, after an interruption with {what}', interrupted, weight=12))

    for fault in FAULTS:
        def broken(it, rep, fault=fault):
            rep.done('refused')
            files, missing = on_disk(it, rep, 2024, range(1, 13), change={5: FAULTS[fault]})
            if missing:
                return
            try:
                load(it, rep, files, 2024, {}, given=())
                rep.fail('refused', f'a table is returned although the file of a month has {fault}')
            except PyExc:
                pass
        tasks.append(Task(f'loader, {fault}', broken, weight=4))
    return tasks
