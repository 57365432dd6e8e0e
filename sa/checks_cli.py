"""The command line: what `at` prints is what the library computes, and what it refuses."""

import re
import string

from . import terms as T
from . import arrays as A
from . import interp as I
from . import m_misc as M
from . import m_time as MT
from . import m_xarray as X
from . import symstr
from . import world as W
from .arrays import Arr, PyExc
from .checks import check, got
from .framework import Task
from .values import SymStr, MISSING
from .world import Violation

ALGORITHMS = ('nrel', 'psa', 'soltrack', 'iqbal')
MODULE = 'sunwhere._cli.main'


def declare():
    W.declare()
    T.declare('mag_lat', lo=0, hi=90)
    T.declare('mag_lon', lo=0, hi=180, hi_open=True)
    T.declare('wall', lo=-8.0e9, hi=8.0e9, integer=True)
    T.declare('stamp', lo=-8.0e9, hi=8.0e9, integer=True)
    T.declare('off', lo=-86399, hi=86399, integer=True)


def number(name):
    return Arr((), [T.atom(name, (T.const(0),))], 'f8', 'sc')


def place(name, suffix):
    return SymStr([('numeral', number(name)), suffix])


def the_app(it):
    m = it.load(MODULE)
    for v in m.ns.values():
        if isinstance(v, M.TyperApp):
            return v
    raise Violation('entry-point', f'{MODULE} defines no command line application')


def stamp(term, tz):
    """A time given in UTC seconds (or in wall seconds when tz is None)."""
    return MT.PdTimes(Arr((), [term], 'M8[s]', 'sc'), tz, 'stamp')


TIMES = {
    # what the user types: (text, time it denotes given the zone asked for)
    'naive': lambda: stamp(T.atom('wall', (T.const(0),)), None),
    'aware': lambda: stamp(T.atom('stamp', (T.const(0),)), MT.TZ('fixed', 'off', 'datetime', T.atom('off'))),
    'aware-utc': lambda: stamp(T.atom('stamp', (T.const(0),)), MT.utc('datetime')),
    'now': None,
}


def given(it, kind):
    """The text of the time argument."""
    if kind == 'now':
        return 'now'
    it.env['timetext'] = {kind: TIMES[kind]()}
    return SymStr([('timetext', kind)])


def denoted(it, kind, zone):
    """The time the text denotes, in the zone."""
    if kind == 'now':
        return MT.now(it, zone, 'stamp')
    ts = TIMES[kind]()
    if kind == 'naive':
        return W.method(it, ts, 'tz_localize', zone)
    return W.method(it, ts, 'tz_convert', zone)


# ---------------------------------------------------------------------------
# what was printed

def lines_of(parts):
    cur = []
    for p in parts:
        if isinstance(p, str):
            chunks = p.split('\n')
            for n, c in enumerate(chunks):
                if n:
                    yield cur
                    cur = []
                if c:
                    cur.append(c)
        else:
            cur.append(p)
    yield cur


def parts_of(v):
    return v.parts if isinstance(v, SymStr) else (v,)


def rows_of(it):
    """[(label, text)] of everything printed."""
    rows = []
    for args in it.output:
        flat = []
        for n, a in enumerate(args):
            if n:
                flat.append(' ')
            a = a if isinstance(a, (str, SymStr)) else it.str(a)
            flat.extend(parts_of(a))
        text = []
        for p in flat:
            if isinstance(p, tuple) and p[0] == 'table':
                for r in p[1]:
                    if len(r) >= 2:
                        rows.append((r[0], r[-1] if isinstance(r[-1], (str, SymStr)) else it.str(r[-1])))
            else:
                text.append(p)
        for line in lines_of(text):
            if line and isinstance(line[0], str):
                m = re.match(r'\s*([^:]*?)\s*(?::\s|:$|\s{2,}|\|)\s*', line[0])
                if m and m.group(1):
                    rows.append((m.group(1), symstr.join([line[0][m.end():]] + line[1:])))
    return rows


def find(rows, *words):
    """The text of the row whose label has all the words."""
    hits = []
    for label, text in rows:
        s = label if isinstance(label, str) else ''.join(p if isinstance(p, str) else '*' for p in label.parts)
        s = s.casefold()
        if all(w in s for w in words):
            hits.append(text)
    return hits


def numbers(text):
    return [p for p in parts_of(text) if isinstance(p, tuple) and p[0] == 'num']


def fields(text):
    return [symstr.core(p) for p in parts_of(text) if isinstance(p, tuple) and symstr.core(p)[0] in ('t', 'timestr')]


def literal(text):
    return ''.join(p for p in parts_of(text) if isinstance(p, str))


def decimals(spec):
    m = re.search(r'\.(\d+)[fFeEgG]?$', spec or '')
    if m:
        return int(m.group(1))
    return 17 if spec in ('', None) else 6 if spec[-1:] in 'fFeE' else 0


def multiple(t, k):
    """Is k*t a whole number?"""
    def whole(c, a):
        if set(c) - {0}:
            return False
        q = c.get(0, 0) * k
        if a is not None and a.op == 'abs' and a.args[0].op == 'round':
            a = a.args[0]
        if a is not None and a.op == 'round':
            q *= T.Fraction(10)**-(a.data or 0)
        elif a is not None and not a.isint:
            return False
        return q.denominator == 1
    return all(whole(c, a) for c, a in t.lin.values())


def unrounded(t, error):
    """t without the roundings that change it by no more than error."""
    for c, a in list(t.lin.values()):
        for n in (a, a.args[0] if a is not None and a.op == 'abs' else None):
            if n is not None and n.op == 'round' and len(c) == 1 and 0 in c and abs(c[0]) * T.Fraction(10)**-(n.data or 0) / 2 <= error * (1 + 1e-9):
                t = T.replace(t, {n.fp: n.args[0]})
    return t


class Sheet:
    def __init__(self, it, rep):
        self.it, self.rep = it, rep
        self.rows = rows_of(it)

    def one(self, rule, *words):
        self.rep.done(rule)
        hits = find(self.rows, *words)
        if len(hits) != 1:
            self.rep.fail(rule, f'the output has {len(hits)} rows for {" ".join(words)}', None)
            return None
        return hits[0]

    def number(self, name, words, want, keyf=None, least=2):
        text = self.one('value', *words)
        if text is None:
            return
        ns = numbers(text)
        m = re.fullmatch(r'\s*([+-]?\d+(\.\d+)?)(\s*\D*)', text) if isinstance(text, str) else None
        if m:
            ns = [('num', f'.{len(m.group(2) or ".") - 1}f', Arr((), [T.const(T.Fraction(m.group(1)))], 'f8', 'sc'))]
            text = SymStr([ns[0]])
        if len(ns) != 1:
            self.rep.fail('value', f'{name} is not printed as one number: {symstr.canon(text)}'[:200], None)
            return
        _, spec, v = ns[0]
        t = v.cells[0]
        sign = literal(text).strip()
        if sign[:1] == '-' and parts_of(text)[0] != ns[0]:
            t = T.neg(t)
        if not W.same(t, want, keyf or (lambda x: (x.fp, x.valid.fp))):
            loc, txt = W.show_mismatch(t, want)
            self.rep.fail('value', f'{name} is not that of the library: {txt}', loc or t.prov)
        if decimals(spec) < least:
            self.rep.fail('value', f'{name} is printed with {decimals(spec)} decimals', None)

    def clock(self, name, words, da):
        """A time of day, or any text without one where the library has no such time."""
        text = self.one('value', *words)
        if text is None:
            return
        c = da.arr.cells[0]
        known = self.it.known(c.valid)
        fs = fields(text)
        if not fs:
            if known is not False:
                self.rep.fail('value', f'{name} is shown as {literal(text)!r} although the library has one', c.prov)
            return
        if known is False:
            self.rep.fail('value', f'{name} shows a time although the library has none', c.prov)
            return
        ref = MT.PdTimes(Arr((), [c], da.arr.dtype, 'sc'), None, 'stamp')
        want = MT.secs(ref.arr).cells[0]
        for d in 'HMS':
            if not any(f[0] == 't' and f[1].lstrip('-') == d and f[2] == want.fp for f in fs):
                self.rep.fail('value', f'{name} does not show the {dict(H="hour", M="minute", S="second")[d]} of the time of the library', c.prov)
                return

    def wall(self, name, words, ts, groups):
        text = self.one('value', *words)
        if text is None:
            return
        want = MT.secs(ts.wall()).cells[0]
        fs = fields(text)
        for what, ds in groups.items():
            if not any(f[0] == 't' and f[1].lstrip('-') in ds and f[2] == want.fp for f in fs):
                self.rep.fail('value', f'{name} does not show the {what} of the time in the time zone', want.prov)
                return
        for f in fs:
            if f[0] == 't' and f[1] in ('Z', 'z') and f[3] != (ts.tz.key() if ts.tz else None):
                self.rep.fail('value', f'{name} names another time zone', None)

    def equation_of_time(self, want):
        text = self.one('value', 'equation of time')
        if text is None:
            return
        parts = parts_of(text)
        ns = numbers(text)
        i = next((n for n, p in enumerate(parts) if isinstance(p, tuple)), None)
        if not ns or i is None or len(ns) > 2:
            self.rep.fail('value', 'the equation of time is not printed as minutes and seconds or as one number', None)
            return
        minus = isinstance(parts[0], str) and i and parts[i - 1].rstrip().endswith('-')
        total = ns[0][2].cells[0]
        if len(ns) == 2:
            total = T.add(total, T.scale(ns[1][2].cells[0], {0: T.Fraction(1, 60)}))
            # the seconds are below 60 also as printed: either they are away from it, or the whole was rounded before it was split
            p = decimals(ns[1][1])
            low = T.scale(ns[1][2].cells[0], {0: T.Fraction(1)})
            if not multiple(total, 60 * 10**p) and not T.iv(low)[1] <= 60 - 0.5*10**-p:
                self.rep.fail('carry', f'the seconds of the equation of time, printed with {p} decimal(s), may be shown as 60: {T.show(low, 3)}', low.prov)
        zero = self.it.known(T.eq(total, T.const(0))) is True
        total = unrounded(total, 0.5 * 10.0**-decimals(ns[-1][1]) / (60 if len(ns) == 2 else 1))
        shown = T.neg(total) if minus else total
        neg = self.it.known(T.lt(want, T.const(0)))
        if W.same(shown, want):
            return
        if (neg is not None or zero) and W.same(total, T.absolute(want)):
            # the size is right: is the sign?
            if zero or (neg and minus) or (not neg and not minus):
                return
            self.rep.fail('value', f'the equation of time has the wrong sign where it is {"negative" if neg else "positive"}', want.prov)
            return
        loc, txt = W.show_mismatch(shown, want)
        self.rep.fail('value', f'the equation of time is not that of the library: {txt}', loc or want.prov)


# ---------------------------------------------------------------------------

def at(it, time, lat, lon, options):
    """Runs `at`; returns None, or why it did not succeed."""
    it.output.clear()
    try:
        M.invoke(it, the_app(it), 'at', [time, lat, lon], options)
    except M.Refused as e:
        return f'refused: {e}', None
    except PyExc as e:
        code = getattr(e.value, 'code', 1)
        if code in (0, None) and isinstance(e.value, M.ExitValue):
            return None
        said = '; '.join(str(symstr.canon(a[0])) if a else '' for a in it.output if isinstance(a[0], (str, SymStr)))
        return f'{e.name()}: {e.msg} {said}'[:300], e.loc
    return None


def good(alg, refr, kind, zone, ns, ew, opts, label):
    def fn(it, rep):
        declare()
        it.env['localized'] = []
        bad = at(it, given(it, kind), place('mag_lat', ns), place('mag_lon', ew), opts)
        rep.done('completes')
        if bad is not None:
            rep.fail('completes', f'"at" fails on valid arguments: {bad[0]}', bad[1])
            return
        localized = list(it.env['localized'])
        sheet = Sheet(it, rep)
        printed = list(it.output)
        # the library
        lat = T.atom('mag_lat', (T.const(0),))
        lat = lat if ns in 'Nn' else T.neg(lat)
        lon = T.atom('mag_lon', (T.const(0),))
        lon = lon if ew in 'Ee' else T.neg(lon)
        ts = denoted(it, kind, zone)
        times = it.call(I.MODELS['pandas.DatetimeIndex'], [[ts]]) if not callable(I.MODELS['pandas.DatetimeIndex']) else \
            I.MODELS['pandas.DatetimeIndex'](it, [ts])
        py = lambda t: Arr((), [t], 'pyf', 'py')          # noqa: E731
        r = W.run_usecase(it, 'sites', times, py(lat), py(lon), algorithm=alg, refraction=refr)

        def val(q):
            return got(it, r, q).arr.cells[0]
        it.output[:] = printed
        for name, t in (('latitude', lat), ('longitude', lon)):
            sheet.number(name, (name,), t)
        sheet.number('declination', ('declination',), val('declination'))
        ecf = val('ecf')
        sheet.number('Sun-Earth distance', ('distance',), T.recip(T.sqrt(ecf)), lambda x: x.fp)
        sheet.number('zenith', ('zenith',), val('zenith'))
        sheet.number('elevation', ('elevation',), val('elevation'))
        sheet.number('azimuth', ('azimuth',), val('azimuth'), W.az_key)
        sheet.equation_of_time(val('eot'))
        zname = zone.casefold()
        for q in ('sunrise', 'sunset'):
            ref = {u: W.method(it, r, q, u) for u in ('utc', 'local')}
            if zname != 'utc':
                sheet.clock(f'{q} (UTC)', (q, 'utc'), ref['utc'])
                sheet.clock(f'{q} ({zone})', (q, zname), ref['local'])
            else:
                # two rows with the same label
                hits = find(sheet.rows, q, 'utc')
                rep.done('value')
                if not hits:
                    rep.fail('value', f'the output has no row for {q}', None)
                for h in hits:
                    one = Sheet.__new__(Sheet)
                    one.it, one.rep, one.rows = it, rep, [(q + ' utc', h)]
                    one.clock(q, (q,), ref['utc'])
        time_row(sheet, ts)
        sheet.wall('the date', ('date',), ts, {'day of the month': 'de', 'month': 'mBb', 'year': 'Y'})
        sheet.wall('the day of the week', ('day',), ts, {'day of the week': 'Aa'})
        # a local time exists twice or never around a change of the clock: only the user's text may need that reading
        rep.done('localized')
        wall = T.atom('wall', (T.const(0),))
        for sec, loc in localized:
            if kind != 'naive' or sec.fp != wall.fp:
                rep.fail('localized', f'a known instant is read back from its local time ({T.show(sec, 3)}): that fails around the changes of the clock', loc)
                break
    return Task(label, fn, max_paths=64, weight=4 if alg == 'nrel' else 1)


def time_row(sheet, ts):
    rows = [(a, b) for a, b in sheet.rows if isinstance(a, str) and a.casefold().strip().startswith('time')]
    one = Sheet.__new__(Sheet)
    one.it, one.rep, one.rows = sheet.it, sheet.rep, rows
    one.wall('the time', ('time',), ts, {'hour': 'HI', 'minute': 'M', 'second': 'S'})


def refused(label, time, lat, lon, opts, declare_=None):
    def fn(it, rep):
        declare()
        T.declare('over', lo=90, hi=1e6, lo_open=True)
        T.declare('far', lo=180, hi=1e6)
        T.declare('farther', lo=180, hi=1e6, lo_open=True)
        tt = given(it, 'naive') if time is None else time
        bad = at(it, tt, lat() if callable(lat) else lat, lon() if callable(lon) else lon, opts)
        rep.done('refuses')
        if bad is None:
            rep.fail('refuses', f'"at" accepts {label}', the_app(it).commands['at'].loc() if hasattr(the_app(it).commands['at'], 'loc') else None)
    return Task(f'refuses {label}', fn, raises_ok=True, max_paths=64)


@check('C22',
       'The "at" command is run abstractly, with typer\'s parsing of its parameters, on a symbolic place, hemisphere, time (naive, aware, "now"), time zone, '
       'algorithm and refraction; each printed number, clock time and date is compared, by value number, with what the library gives for that input on the '
       'same path. Malformed and out-of-range places and unknown algorithms must end the command with an error on every path.',
       minimum={'value': 1300, 'refuses': 70, 'completes': 100},
       anchors=['_cli/main.py', '_cli/position.py', 'usecases.py', '_base.py'],
       assumptions=['typer/click parse command lines, and tabulate lays out rows, as modelled in m_misc.py',
                    'the text of a naive time denotes an instant that exists once in the time zone'])
def c22(tier):
    tasks = []

    def add(alg, refr, kind, zone, ns='N', ew='W', short=False, extra=''):
        opts = []
        if alg is not None:
            opts.append(('-a' if short else '--algorithm', alg))
        if refr is not None:
            opts.append(('--refraction' if refr else '--no-refraction', None))
        if zone is not None:
            opts.append(('-z' if short else '--timezone', zone))
        label = f'{kind}/{zone}/{alg}/refraction={refr}/{ns}{ew}' + ('/short' if short else '')
        tasks.append(good(alg or 'psa', True if refr is None else refr, kind, zone or 'UTC', ns, ew, opts, label))
    for kind in TIMES:
        for zone in ('UTC', 'Zone/A', None):
            for alg in ALGORITHMS:
                for refr in (True, False):
                    if zone is not None or refr:
                        add(alg, refr, kind, zone)
        add(None, None, kind, None)
        add('soltrack', None, kind, 'Zone/A', short=True)
        add(None, False, kind, 'Zone/A')
    for ns in 'NnSs':
        for ew in 'EeWw':
            add('psa', True, 'naive', 'UTC', ns, ew)
            add('psa', False, 'aware', 'Zone/A', ns, ew)
    lat, lon = (lambda: place('mag_lat', 'N')), (lambda: place('mag_lon', 'E'))
    for x in 'NnSs':
        tasks.append(refused(f'a latitude above 90{x}', None, (lambda x=x: place('over', x)), lon, []))
    for x in 'Ee':
        tasks.append(refused(f'a longitude of 180{x} or more', None, lat, (lambda x=x: place('far', x)), []))
    for x in 'Ww':
        tasks.append(refused(f'a longitude above 180{x}', None, lat, (lambda x=x: place('farther', x)), []))
    for c in string.ascii_letters:
        if c not in 'NnSs':
            tasks.append(refused(f'{c!r} as a hemisphere of latitude', None, (lambda c=c: place('mag_lat', c)), lon, []))
        if c not in 'EeWw':
            tasks.append(refused(f'{c!r} as a hemisphere of longitude', None, lat, (lambda c=c: place('mag_lon', c)), []))
    for x in ('', 'N', 'nanN', 'infS', 'abcN', '36.9', '12..5N', '1 2N', '91N', '90.0001S'):
        tasks.append(refused(f'{x!r} as a latitude', None, x, lon, []))
    for x in ('', 'E', 'nanE', 'infW', 'abcW', '3.8', '180E', '180.5W', '200E', '1,5E'):
        tasks.append(refused(f'{x!r} as a longitude', None, lat, x, []))
    for x in ('', 'spa', 'NREL2', 'none'):
        tasks.append(refused(f'the algorithm {x!r}', None, lat, lon, [('--algorithm', x)]))
    for x in ('90N', '90S', '0N', '0s', '45.5n'):
        tasks.append(accepted(x, '180W'))
    for x in ('180W', '0E', '0w', '179.9999E'):
        tasks.append(accepted('12N', x))
    return tasks


def accepted(lat, lon):
    def fn(it, rep):
        declare()
        bad = at(it, given(it, 'naive'), lat, lon, [])
        rep.done('completes')
        if bad is not None:
            rep.fail('completes', f'"at" fails at {lat} {lon}: {bad[0]}', bad[1])
            return
        sheet = Sheet(it, rep)
        for name, x in (('latitude', lat), ('longitude', lon)):
            v = T.Fraction(x[:-1]) * (-1 if x[-1] in 'sSwW' else 1)
            sheet.number(name, (name,), T.const(v))
    return Task(f'accepts {lat} {lon}', fn, max_paths=64)
