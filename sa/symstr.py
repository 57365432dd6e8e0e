"""Strings that depend on abstract values: a sequence of literal text and parts.

Parts: ('num', spec, Arr)       a number written with a format spec
       ('t', directive, fp, zone) one field of a time
       ('numeral', Arr)         a decimal number found in the input, as the user wrote it
       ('timetext', key)        a time found in the input
       ('up'|'low'|'cap', part) a part with its case changed
       ('call', method, ...)    anything else"""

import re
import string

from . import arrays as A
from . import fixed as F
from . import terms as T
from .arrays import Arr, PyExc
from .terms import AnalysisGap
from .values import SymStr

WORDS = ('A', 'a', 'B', 'b', 'p', 'Z', 'h')          # time fields written with letters
CASELESS = ('num', 'numeral', 'timetext')


def join(parts):
    out = []
    for p in parts:
        for q in (p.parts if isinstance(p, SymStr) else (p,)):
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != '':
                out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(out)


def number(v, spec=''):
    return SymStr([('num', spec, v)])


# ---------------------------------------------------------------------------
# formatting

PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([diouxXeEfFgGcrsa%])')


def percent(it, fmt, args):
    if isinstance(fmt, SymStr):
        raise AnalysisGap('% formatting with an abstract template')
    seq = list(args) if isinstance(args, tuple) else [args]
    out, pos, n = [], 0, 0
    for m in PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if width == '*' or prec == '*':
            raise AnalysisGap('% formatting with *')
        if name is not None:
            v = it.getitem(args, name)
        else:
            if n >= len(seq):
                raise PyExc(TypeError, 'not enough arguments for format string')
            v = seq[n]
            n += 1
        if conv in 'sra':
            v = it.repr(v) if conv != 's' else it.str(v)
            out.append(pad(v, flags, width, prec))
            continue
        spec = ''.join(c for c in flags if c in '+ 0') + (width or '') + ('.' + prec if prec else '')
        if '-' in flags and width:
            spec = '<' + spec.replace('0', '', 1) if spec.startswith('0') else '<' + spec
        if conv in 'di' or conv == 'u':
            from .m_builtins import t_int
            v = t_int(it, v)
            conv = 'd'
        elif conv in 'eEfFgG':
            from .m_builtins import t_float
            v = t_float(it, v)
        out.append(it.format(v, spec + conv))
    if n < len(seq) and not (PCT.search(fmt) and isinstance(args, dict)):
        raise PyExc(TypeError, 'not all arguments converted during string formatting')
    out.append(fmt[pos:])
    return join(out)


def pad(v, flags, width, prec):
    if isinstance(v, str):
        if prec:
            v = v[:int(prec)]
        if width:
            v = v.ljust(int(width)) if '-' in flags else v.rjust(int(width))
        return v
    if prec:
        raise AnalysisGap('truncated abstract string')
    return v


def str_format(it, fmt, a, k):
    out = []
    auto = 0
    try:
        fields = list(string.Formatter().parse(fmt))
    except ValueError as e:
        raise PyExc(ValueError, str(e))
    for lit, name, spec, conv in fields:
        out.append(lit)
        if name is None:
            continue
        head = re.match(r'[^.\[]*', name).group()
        rest = name[len(head):]
        if head == '':
            head, auto = auto, auto + 1
        try:
            v = a[int(head)] if isinstance(head, int) or head.isdigit() else k[head]
        except (IndexError, KeyError) as e:
            raise PyExc(type(e), str(e))
        for m in re.finditer(r'\.(\w+)|\[([^\]]+)\]', rest):
            v = it.getattr(v, m.group(1)) if m.group(1) else it.getitem(v, int(m.group(2)) if m.group(2).isdigit() else m.group(2))
        if '{' in spec:
            spec = str_format(it, spec, a[auto:], k)
        if conv == 'r':
            v = it.repr(v)
        elif conv == 's':
            v = it.str(v)
        out.append(it.format(v, spec))
    return join(out)


# ---------------------------------------------------------------------------
# structure

def is_digits(p):
    """A part made of digits, signs and points only."""
    return isinstance(p, tuple) and (p[0] in ('num', 'numeral') or p[0] == 't' and p[1] not in WORDS)


def recase(s, how):
    out = []
    first = True
    for p in s.parts:
        if isinstance(p, str):
            if how == 'capitalize':
                q = p.capitalize() if first else p.lower()
            elif how == 'title':
                q = p.title()
            else:
                q = getattr(p, how)()
        elif p[0] in CASELESS or is_digits(p):
            q = p
        else:
            while p[0] in ('upper', 'lower', 'capitalize', 'swapcase', 'casefold', 'title'):
                p = p[1]
            q = (how if how != 'title' else 'capitalize', p)
        out.append(q)
        first = False
    return join(out)


def core(p):
    """The part whatever its case."""
    while isinstance(p, tuple) and p[0] in ('upper', 'lower', 'capitalize', 'swapcase', 'casefold'):
        p = p[1]
    return p


def no_space(p):
    return is_digits(p) or p[0] == 'timetext' or core(p)[0] == 't'


def split(s, sep=None, maxsplit=-1):
    if F.is_fixed(s):
        return F.split(s, sep, maxsplit)
    if maxsplit != -1:
        raise AnalysisGap('split of an abstract string')
    words, cur = [], []

    def close(force):
        if cur or force:
            words.append(join(cur))
        cur.clear()
    for p in s.parts:
        if isinstance(p, str):
            chunks = p.split(sep) if sep is not None else re.split(r'\s+', p)
            for n, c in enumerate(chunks):
                if n:
                    close(sep is not None)
                if c:
                    cur.append(c)
        else:
            if not no_space(p) or sep is not None and (p[0] == 'timetext' or re.search(r'[0-9.\-+]', sep)):
                raise AnalysisGap('split of an abstract string')
            cur.append(p)
    close(sep is not None)
    return words


def strip(s, how, chars=None):
    if F.is_fixed(s):
        return F.strip(s, how, chars)
    parts = list(s.parts)
    for end, name in ((0, 'lstrip'), (-1, 'rstrip')):
        if how not in ('strip', name):
            continue
        while parts:
            p = parts[end]
            if isinstance(p, str):
                q = getattr(p, name)(chars)
                parts[end] = q
                if q:
                    break
                parts.pop(end)
                continue
            if chars is None and no_space(p):
                break
            if chars is not None and is_digits(p) and not re.search(r'[0-9.\-+eEnaifNAIF]' if p[0] != 'numeral' else r'[0-9.\-+]', chars):
                break
            raise AnalysisGap('strip of an abstract string')
    return join(parts)


def getitem(it, s, k):
    if F.is_fixed(s) and (isinstance(k, int) or isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step))):
        cs = F.chars(s)
        if isinstance(k, slice):
            return F.build(cs[k])
        if not -len(cs) <= k < len(cs):
            raise PyExc(IndexError, 'string index out of range')
        return F.build([cs[k]])
    parts = list(s.parts)
    if isinstance(k, int):
        p = parts[-1 if k < 0 else 0]
        if isinstance(p, str):
            if k < 0 and -k <= len(p):
                return p[k]
            if k >= 0 and k < len(p):
                return p[k]
        return SymStr([('call', 'char', s, k)])
    if isinstance(k, slice) and k.step is None and all(x is None or isinstance(x, int) for x in (k.start, k.stop)):
        a, b = k.start or 0, k.stop
        if b is not None and b < 0:
            if isinstance(parts[-1], str) and -b <= len(parts[-1]):
                parts[-1] = parts[-1][:b]
                b = None
        elif a < 0 and b is None:
            if isinstance(parts[-1], str) and -a <= len(parts[-1]):
                return parts[-1][a:]
        if a > 0 and isinstance(parts[0], str) and a <= len(parts[0]):
            parts[0] = parts[0][a:]
            a = 0
        if a == 0 and b is None:
            return join(parts)
        if a >= 0 and b is not None and isinstance(parts[0], str) and 0 <= b <= len(parts[0]):
            return parts[0][a:b]
    h = it.env.get('slice_string')
    if h is not None:
        r = h(it, s, k)
        if r is not None:
            return r
    raise AnalysisGap('slice of an abstract string')


def may_contain(p, x):
    """Whether text of part p can contain a character of the literal x: False, or None when unknown."""
    p = core(p)
    if p[0] == 'numeral':
        return None if re.search(r'[0-9.+\-]', x) else False
    if is_digits(p):
        return None if re.search(r'[0-9.+\-einfa]', x) else False
    return None


def zone_text(s, op, x):
    """'equals', 'contains', 'startswith' or 'endswith' of the name of a fixed offset from UTC: 'UTC+02:00' ('UTC' itself for 0), or
    'pytz.FixedOffset(120)'. True or False (the sign or value of the offset decides: both cases are followed), None if s is not such a name
    or it is not known."""
    if not isinstance(s, SymStr) or len(s.parts) != 1 or not isinstance(x, str) or s.parts[0][0] not in ('tzstr', 'tzrepr'):
        return None
    kind, z = s.parts[0][:2]
    if kind == 'tzrepr':
        text = 'pytz.FixedOffset('
        if op == 'equals':
            return None if re.fullmatch(r'pytz\.FixedOffset\(-?[0-9]+\)', x) else False
        if op == 'contains' and x in text or op == 'startswith' and text.startswith(x) or op == 'endswith' and x in ('', ')'):
            return True
        if op == 'startswith' and not x.startswith(text) or op == 'endswith' and not x.endswith(')') or \
                op == 'contains' and not re.search(r'[0-9()-]', x):
            return False
        return None
    off = z._offset
    if off is None:
        return None
    ask = A.BRANCH[-1]
    if op == 'equals':
        if x == 'UTC':
            return ask(T.eq(off, T.const(0)))
        m = re.fullmatch(r'UTC([+-])([0-9]{2}):([0-9]{2})(?::([0-9]{2}))?', x)
        if not m:
            return False
        n = (int(m[2])*3600 + int(m[3])*60 + int(m[4] or 0)) * (-1 if m[1] == '-' else 1)
        return ask(T.eq(off, T.const(n))) if n else False
    if op in ('contains', 'startswith') and 'UTC'.startswith(x) or op == 'contains' and x in 'UTC':
        return True
    if re.search(r'[^UTC0-9:+-]', x):
        return False
    if x in ('UTC+', 'UTC-') and op != 'endswith' or x in ('+', '-') and op == 'contains':
        return ask(T.lt(T.const(0), off) if x[-1] == '+' else T.lt(off, T.const(0)))
    if x == ':' and op == 'contains':
        return not ask(T.eq(off, T.const(0)))
    return None


def contains(s, x):
    r = zone_text(s, 'contains', x)
    if r is not None:
        return r
    if F.is_fixed(s) and F.is_fixed(x):
        return F.find(s, x) >= 0
    if not isinstance(x, str):
        raise AnalysisGap('abstract string membership')
    if any(isinstance(p, str) and x in p for p in s.parts):
        return True
    if all(isinstance(p, str) or may_contain(p, x) is False for p in s.parts):
        return False
    raise AnalysisGap('abstract string membership')


def equals(a, b):
    """a == b for strings of which one is abstract at least: True, False, or a gap."""
    if F.is_fixed(a) and F.is_fixed(b):
        return F.known(F.equals(a, b))
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        if canon(a) == canon(b):
            return True
        raise AnalysisGap('comparison of abstract strings')
    s, x = (a, b) if isinstance(a, SymStr) else (b, a)
    r = zone_text(s, 'equals', x)
    if r is not None:
        return r
    for p in s.parts:
        q = core(p)
        if isinstance(p, str):
            if p not in x:
                return False
        elif is_digits(q):
            if not re.search(r'\d|nan|inf', x, re.I):
                return False
        elif q[0] == 'timetext':
            # an ISO 8601 time: it has digits
            if not re.search(r'\d', x):
                return False
    raise AnalysisGap('comparison of abstract strings')


def canon(s):
    if isinstance(s, str):
        return (s,)
    out = []
    for p in s.parts:
        out.append(p if isinstance(p, str) else part_key(p))
    return tuple(out)


def part_key(p):
    if isinstance(p, tuple):
        return tuple(part_key(x) for x in p)
    if isinstance(p, Arr):
        return ('arr', p.dtype) + tuple((c.fp, c.valid.fp) for c in p.cells)
    if isinstance(p, SymStr):
        return canon(p)
    return p


CASES = ('lower', 'upper', 'casefold', 'capitalize', 'title', 'swapcase')


def fixed_method(s, name):
    def index(it_, x, *a):
        r = F.find(s, x, *a, last=name == 'rindex')
        if r < 0:
            raise PyExc(ValueError, 'substring not found')
        return r

    def partition(it_, sep):
        i = F.find(s, sep, last=name == 'rpartition')
        if i < 0:
            return (s, '', '') if name == 'partition' else ('', '', s)
        cs = F.chars(s)
        return F.build(cs[:i]), sep, F.build(cs[i + len(F.chars(sep)):])

    def prefix(it_, x, *a):
        if isinstance(x, tuple):
            return any(prefix(it_, y, *a) for y in x)
        cs, x = F.chars(s)[slice(*a) if len(a) > 1 else slice(a[0], None) if a else slice(None)], F.chars(x)
        return F.known(F.at(cs, x, 0 if name == 'startswith' else max(len(cs) - len(x), 0)) if len(x) <= len(cs) else False)

    def replace(it_, a, b, n=-1):
        return join(sum(([b, w] for w in F.split(s, a, n)), [])[1:])
    if name in ('find', 'rfind'):
        return lambda it_, x, *a: F.find(s, x, *a, last=name == 'rfind')
    if name in ('index', 'rindex'):
        return index
    if name == 'count':
        return lambda it_, x: len(F.occurrences(s, x))
    if name == 'rsplit':
        return lambda it_, sep=None, maxsplit=-1: F.rsplit(s, sep, maxsplit)
    if name == 'splitlines':
        return lambda it_, keepends=False: F.splitlines(s, keepends)
    if name in ('partition', 'rpartition'):
        return partition
    if name in ('startswith', 'endswith'):
        return prefix
    if name == 'replace':
        return replace
    if name in ('isalpha', 'isdigit', 'isnumeric', 'isdecimal', 'isspace', 'isalnum', 'isupper', 'islower'):
        return lambda it_: F.test(s, name)
    return None


def method(it, s, name):
    """A function implementing str.`name` on the abstract string, or None."""
    if F.is_fixed(s):
        f = fixed_method(s, name)
        if f is not None:
            return f
    if name in CASES:
        return lambda it_: recase(s, name)
    if name in ('strip', 'lstrip', 'rstrip'):
        return lambda it_, chars=None: strip(s, name, chars)
    if name == 'split':
        return lambda it_, sep=None, maxsplit=-1: split(s, sep, maxsplit)
    if name in ('startswith', 'endswith'):
        def se(it_, x):
            p = s.parts[0 if name == 'startswith' else -1]
            if isinstance(x, tuple):
                return any(se(it_, y) for y in x)
            r = zone_text(s, name, x)
            if r is not None:
                return r
            if isinstance(p, str) and isinstance(x, str) and len(p) >= len(x):
                return getattr(p, name)(x)
            if not isinstance(p, str) and isinstance(x, str) and x:
                if may_contain(p, x[0 if name == 'startswith' else -1]) is False:
                    return False
                if core(p)[0] == 'timetext' and not re.search(r'[0-9Z]', x):
                    return False
            if p == '' and len(s.parts) == 1:
                return False
            raise AnalysisGap('abstract string prefix')
        return se
    if name in ('removesuffix', 'removeprefix'):
        def rs(it_, x):
            p = s.parts[0 if name == 'removeprefix' else -1]
            if isinstance(p, str) and len(p) >= len(x):
                parts = list(s.parts)
                parts[0 if name == 'removeprefix' else -1] = getattr(p, name)(x)
                return join(parts)
            if not isinstance(p, str) and may_contain(p, x) is False:
                return s
            raise AnalysisGap('abstract string prefix')
        return rs
    if name == 'replace':
        def rep(it_, a, b, n=-1):
            if any(not isinstance(p, str) and may_contain(p, a) is not False for p in s.parts) or n != -1:
                return SymStr([('call', 'replace', s, a, b)])
            return join([p.replace(a, b) if isinstance(p, str) else p for p in s.parts])
        return rep
    if name in ('isalpha', 'isdigit', 'isnumeric', 'isdecimal', 'isspace'):
        def test(it_):
            if any(isinstance(p, str) and p and not getattr(p, name)() for p in s.parts):
                return False
            if name in ('isalpha', 'isspace') and any(is_digits(p) for p in s.parts):
                return False
            raise AnalysisGap(f'str.{name} of an abstract string')
        return test
    if name in ('ljust', 'rjust', 'center', 'zfill', 'expandtabs'):
        return lambda it_, *a: s if name != 'zfill' else SymStr([('call', name, s) + a])
    if name == 'join':
        def jn(it_, xs):
            out = []
            for n, x in enumerate(it.to_list(xs)):
                if n:
                    out.append(s)
                out.append(x)
            return join(out)
        return jn
    if name == 'partition' or name == 'rpartition':
        def part(it_, sep):
            for n, p in enumerate(s.parts):
                if isinstance(p, str) and sep in p:
                    if sum(isinstance(q, str) and q.count(sep) for q in s.parts) != 1:
                        break
                    a, _, b = p.partition(sep)
                    return (join(list(s.parts[:n]) + [a]), sep, join([b] + list(s.parts[n + 1:])))
            raise AnalysisGap('partition of an abstract string')
        return part
    if name == 'format':
        return lambda it_, *a, **k: SymStr([('call', name, s) + a])
    if name in ('encode', 'decode'):
        return lambda it_, *a, **k: s
    return None


# ---------------------------------------------------------------------------
# regular expressions over a string with numerals: every numeral is read as if it were each of these

SAMPLES = ('7', '12.25', '179.125', '0.5')


def regex(it, fn, pattern, s, flags=0):
    """Applies re.`fn` with each sample in place of the numerals; the results must agree in structure."""
    if F.is_fixed(s):
        return F.regex(fn, pattern, s, flags)
    if not all(isinstance(p, str) or core(p)[0] == 'numeral' for p in s.parts):
        raise AnalysisGap(f're.{fn} on an abstract string')
    if sum(not isinstance(p, str) for p in s.parts) != 1:
        raise AnalysisGap(f're.{fn} on an abstract string')
    num = next(p for p in s.parts if not isinstance(p, str))
    res = []
    for x in SAMPLES:
        t = ''.join(p if isinstance(p, str) else x for p in s.parts)
        m = getattr(re, fn)(pattern, t, flags) if isinstance(pattern, str) else getattr(pattern, fn)(t)
        if m is None:
            res.append(None)
            continue
        if fn not in ('match', 'search', 'fullmatch'):
            raise AnalysisGap(f're.{fn} on an abstract string')

        def back(g):
            if g is None:
                return None
            if x in g:
                a, b = g.split(x, 1)
                return join([a, num, b])
            if re.search(r'\d', g):
                raise AnalysisGap('part of a numeral matched by a regular expression')
            return g
        res.append(([back(m.group(i)) for i in range(len(m.groups()) + 1)], {k: back(v) for k, v in m.groupdict().items()}))

    def sig(r):
        return None if r is None else [canon(g) if g is not None else None for g in r[0]]
    if any(sig(r) != sig(res[0]) for r in res):
        raise AnalysisGap('a regular expression that tells numerals apart')
    return res[0]
