"""Abstract strings whose parts have a known number of characters each (the fields of a file in columns).

A string is handled as its list of characters, an abstract one being (part, offset). Parts:
('numeral', Arr, width)          a decimal number, as text of this width without blanks
('fx', key, width, sample, kind) other text: kind is the set of characters it may hold, sample an instance of it
('colpart', part, a, b)          characters a:b of a part"""

import re

from . import terms as T
from .arrays import PyExc
from .terms import AnalysisGap
from .values import SymStr

CHARS = {'digits': '0123456789', 'letters': 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'}
NUMERAL = '0123456789.+-'


def width(p):
    if isinstance(p, str):
        return len(p)
    if p[0] == 'numeral' and len(p) == 3:
        return p[2]
    if p[0] == 'fx':
        return p[2]
    if p[0] == 'colpart':
        return p[3] - p[2]
    return None


def is_fixed(s):
    return isinstance(s, str) or isinstance(s, SymStr) and all(width(p) is not None for p in s.parts)


def chars(s):
    if isinstance(s, str):
        return list(s)
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out.extend(p)
        elif p[0] == 'colpart':
            out.extend((p[1], i) for i in range(p[2], p[3]))
        else:
            out.extend((p, i) for i in range(width(p)))
    return out


def build(cs):
    """The string of a list of characters."""
    out, i = [], 0
    while i < len(cs):
        c = cs[i]
        if isinstance(c, str):
            if out and isinstance(out[-1], str):
                out[-1] += c
            else:
                out.append(c)
            i += 1
            continue
        p, a = c
        j = i + 1
        while j < len(cs) and not isinstance(cs[j], str) and cs[j][0] is p and cs[j][1] == a + (j - i):
            j += 1
        b = a + (j - i)
        out.append(p if (a, b) == (0, width(p)) else ('colpart', p, a, b))
        i = j
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(out)


def alphabet(c):
    """The characters an abstract character may be."""
    p = c[0]
    if p[0] == 'numeral':
        return NUMERAL
    return CHARS[p[4]]


def eq(c, d):
    """Whether two characters are equal: True, False or None (unknown)."""
    if isinstance(c, str) and isinstance(d, str):
        return c == d
    if isinstance(c, str):
        c, d = d, c
    if isinstance(d, str):
        return None if d in alphabet(c) else False
    if c[0] is d[0] and c[1] == d[1]:
        return True
    return None if set(alphabet(c)) & set(alphabet(d)) else False


def at(cs, x, i):
    """Whether the characters x are those of cs at i: True, False or None."""
    if i + len(x) > len(cs):
        return False
    r = True
    for c, d in zip(cs[i:], x):
        e = eq(c, d)
        if e is False:
            return False
        if e is None:
            r = None
    return r


def known(r):
    if r is None:
        raise AnalysisGap('comparison of abstract strings')
    return r


def equals(a, b):
    a, b = chars(a), chars(b)
    return len(a) == len(b) and at(a, b, 0)


def find(s, x, start=0, end=None, last=False):
    cs, x = chars(s), chars(x)
    lo, hi, _ = slice(start, end).indices(len(cs))
    rng = range(lo, hi - len(x) + 1)
    for i in (reversed(rng) if last else rng):
        if known(at(cs, x, i)):
            return i
    return -1


def occurrences(s, x):
    cs, x = chars(s), chars(x)
    if not x:
        raise PyExc(ValueError, 'empty separator')
    out, i = [], 0
    while i <= len(cs) - len(x):
        if known(at(cs, x, i)):
            out.append(i)
            i += len(x)
        else:
            i += 1
    return out


def is_space(c):
    return isinstance(c, str) and c.isspace()


def split(s, sep=None, maxsplit=-1):
    cs = chars(s)
    out = []
    if sep is None:
        i, n = 0, len(cs)
        while True:
            while i < n and is_space(cs[i]):
                i += 1
            if i == n:
                return out
            if maxsplit >= 0 and len(out) == maxsplit:
                out.append(build(cs[i:]))
                return out
            j = i
            while j < n and not is_space(cs[j]):
                j += 1
            out.append(build(cs[i:j]))
            i = j
    pos = 0
    for i in occurrences(s, sep):
        if maxsplit >= 0 and len(out) == maxsplit:
            break
        out.append(build(cs[pos:i]))
        pos = i + len(chars(sep))
    out.append(build(cs[pos:]))
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    cs = chars(s)
    if sep is None:
        words, i = [], len(cs)
        while True:
            while i > 0 and is_space(cs[i - 1]):
                i -= 1
            if i == 0:
                break
            if len(words) == maxsplit:
                words.append(build(cs[:i]))
                break
            j = i
            while j > 0 and not is_space(cs[j - 1]):
                j -= 1
            words.append(build(cs[j:i]))
            i = j
        return words[::-1]
    pos = len(cs)
    words = []
    for i in reversed(occurrences(s, sep)):
        if len(words) == maxsplit:
            break
        words.append(build(cs[i + len(chars(sep)):pos]))
        pos = i
    words.append(build(cs[:pos]))
    return words[::-1]


def splitlines(s, keepends=False):
    cs = chars(s)
    out, cur = [], []
    for c in cs:
        cur.append(c)
        if c == '\n':
            out.append(build(cur if keepends else cur[:-1]))
            cur = []
        elif isinstance(c, str) and c in '\r\v\f':
            raise AnalysisGap('control characters in a file')
    if cur:
        out.append(build(cur))
    return out


def strip(s, how, what=None):
    cs = chars(s)

    def drop(c):
        if what is None:
            return is_space(c)
        if isinstance(c, str):
            return c in what
        return known(None if set(alphabet(c)) & set(what) else False)
    if how in ('strip', 'lstrip'):
        while cs and drop(cs[0]):
            cs.pop(0)
    if how in ('strip', 'rstrip'):
        while cs and drop(cs[-1]):
            cs.pop()
    return build(cs)


def test(s, name):
    cs = chars(s)
    if not cs:
        return False
    r = True
    for c in cs:
        opts = {getattr(x, name)() for x in ([c] if isinstance(c, str) else alphabet(c))}
        if opts == {False}:
            return False
        if len(opts) == 2:
            r = None
    return known(r)


def sample(p, n):
    """Instances of a part, n = 0, 1, 2."""
    if p[0] == 'fx':
        return p[3][n % len(p[3])]
    d = ('3141592653589793238462643383279', '0271828182845904523536028747135', '8909090909090909090909090909090')[n]
    w = width(p)
    lo = T.iv(p[1].cells[0])[0]
    if lo is not None and lo >= 0:
        n = 2 * n
    return '-' + d[0] + '.' + d[3:w] if n == 1 and w > 4 else d[0:3] + '.' + d[4:w] if w > 4 else d[:w]


def regex(fn, pattern, s, flags=0):
    """re.`fn` on a string: the spans found must not depend on the instance."""
    cs = chars(s)
    spans = []
    for n in range(3):
        t = ''.join(c if isinstance(c, str) else sample(c[0], n)[c[1]] for c in cs)
        f = (lambda x: getattr(re, fn)(pattern, x, flags)) if isinstance(pattern, str) else getattr(pattern, fn)
        if fn in ('match', 'search', 'fullmatch'):
            m = f(t)
            spans.append(None if m is None else ([m.span(i) for i in range(len(m.groups()) + 1)],
                                                 {k: m.span(k) for k in m.groupdict()}))
        elif fn in ('split', 'findall'):
            p = pattern if not isinstance(pattern, str) else re.compile(pattern, flags)
            ms = list(p.finditer(t))
            if fn == 'split':
                if p.groups:
                    raise AnalysisGap('re.split with groups')
                pos, out = 0, []
                for m in ms:
                    out.append((pos, m.start()))
                    pos = m.end()
                out.append((pos, len(t)))
                spans.append(out)
            else:
                spans.append([m.span() if not p.groups else m.span(1) if p.groups == 1 else
                              tuple(m.span(i + 1) for i in range(p.groups)) for m in ms])
        else:
            raise AnalysisGap(f're.{fn} on an abstract string')
    if any(x != spans[0] for x in spans):
        raise AnalysisGap('a regular expression that tells numerals apart')
    r = spans[0]

    def back(ab):
        return None if ab == (-1, -1) else build(cs[ab[0]:ab[1]])
    if r is None:
        return None
    if fn in ('match', 'search', 'fullmatch'):
        return [back(x) for x in r[0]], {k: back(v) for k, v in r[1].items()}
    return [back(x) if not x or not isinstance(x[0], tuple) else tuple(back(y) for y in x) for x in r]
