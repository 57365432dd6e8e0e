"""Value-number domain.

Every abstract numeric value is a `Term`: an expression DAG node carrying

  fp     its value number: the image of the expression in the prime field
         Z_p, p = 2**127 - 1, under a fixed interpretation of the atoms
         (random interpretation in the sense of Gulwani & Necula).  Two
         expressions that are equal by the field axioms, by the rules for
         sin/cos/tan and their inverses, mod/floor, min/max/abs/clip and
         where/if-then-else listed below get the same value number; two
         expressions that differ get different ones except with
         probability < 2**-100.
  lin    a linear normal form over non-linear atoms, with coefficients in
         Q[pi, 1/pi]; it is what recognises whole turns, whole days and
         cancellation.
  valid  the boolean Term "this value is not NaN/NaT" (TRUE when nothing in
         the analysed source can make it NaN by construction).

Nothing here evaluates analysed code: terms are built by the abstract
interpreter (interp.py) from the syntax tree.
"""

import hashlib
import math
from fractions import Fraction

P = (1 << 127) - 1


class AnalysisGap(Exception):
    """The analysed source uses something the analyser has no model for."""


def H(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=24).digest()
    return int.from_bytes(h, 'big') % P


def inv(x):
    return pow(x, P - 2, P)


# ---------------------------------------------------------------------------
# coefficients: Laurent polynomials in pi over Q, as {power: Fraction}

PI_FP = H('pi')
_PIPOW = {0: 1}


def _pipow(k):
    v = _PIPOW.get(k)
    if v is None:
        v = pow(PI_FP, k, P) if k > 0 else pow(inv(PI_FP), -k, P)
        _PIPOW[k] = v
    return v


def c_add(a, b):
    r = dict(a)
    for k, v in b.items():
        s = r.get(k, 0) + v
        if s:
            r[k] = s
        else:
            r.pop(k, None)
    return r


def c_mul(a, b):
    if len(a) == 1 and len(b) == 1:
        (ka, va), = a.items()
        (kb, vb), = b.items()
        return {ka + kb: va * vb}
    r = {}
    for ka, va in a.items():
        for kb, vb in b.items():
            r[ka + kb] = r.get(ka + kb, 0) + va * vb
    return {k: v for k, v in r.items() if v}


def c_inv(a):
    if len(a) != 1:
        return None
    (k, v), = a.items()
    return {-k: 1 / v}


_FRFP = {}


def fr_fp(v):
    r = _FRFP.get(v)
    if r is None:
        r = v.numerator % P
        if v.denominator != 1:
            r = r * inv(v.denominator % P) % P
        _FRFP[v] = r
    return r


def c_fp(a):
    s = 0
    for k, v in a.items():
        s += fr_fp(v) * _pipow(k)
    return s % P


def c_float(a):
    return float(sum(float(v) * math.pi ** k for k, v in a.items()))


C1 = {0: Fraction(1)}

# ---------------------------------------------------------------------------
# provenance

class Loc:
    cur = None          # (file, function, line) of the construct being analysed


class Term:
    __slots__ = ('op', 'args', 'data', 'fp', 'lin', 'valid', 'prov', 'isint',
                 'ml', 'isbool', '_iv', 'uid', '_deps')
    _n = 0

    def __init__(self, op, args=(), data=None, fp=0, lin=None, valid=None,
                 isint=False, ml=None, isbool=False):
        self.op = op
        self.args = args
        self.data = data
        self.fp = fp
        self.valid = valid
        self.prov = Loc.cur
        self.isint = isint
        self.ml = ml
        self.isbool = isbool
        self._iv = None
        self._deps = None
        Term._n += 1
        self.uid = Term._n
        if lin is None:
            lin = {fp: (C1, self)}
        self.lin = lin

    def __repr__(self):
        return show(self)


_memo = {}


def reset_memo():
    """Forget the hash-consing table (value numbers are unaffected)."""
    keep = {k: v for k, v in _memo.items() if k[0] in ('true', 'false')}
    _memo.clear()
    _memo.update(keep)
    _squares.clear()
    _binders.clear()


# ---------------------------------------------------------------------------
# booleans: canonical multilinear polynomials over boolean atoms

def _ml_fp(ml):
    s = 0
    for mono, c in ml.items():
        p = c % P
        for a in mono:
            p = p * a % P
        s += p
    return s % P


_BATOM = {}     # boolean atom fp -> Term


def _bool_from_ml(ml, op, args, data=None):
    ml = {k: v for k, v in ml.items() if v}
    if not ml:
        return FALSE
    if ml == {frozenset(): 1}:
        return TRUE
    fp = _ml_fp(ml)
    key = ('b', fp)
    t = _memo.get(key)
    if t is None:
        if op is None:
            if len(ml) == 1:
                (mono, c), = ml.items()
                if c == 1 and len(mono) == 1:
                    (a,) = mono
                    if a in _BATOM:
                        return _BATOM[a]
        t = Term(op, args, data, fp=fp, ml=ml, isbool=True, isint=True)
        t.valid = TRUE
        _memo[key] = t
    return t


TRUE = Term('true', fp=1, lin={None: (C1, None)}, ml={frozenset(): 1},
            isint=True, isbool=True)
FALSE = Term('false', fp=0, lin={}, ml={}, isint=True, isbool=True)
TRUE.valid = TRUE
FALSE.valid = TRUE


def boolatom(name, *args, data=None):
    if name == 'ok' and any(a.op == 'sel' for a in args):
        # a selected element, if selected for being valid
        for k, a in enumerate(args):
            if a.op == 'sel':
                bound, i = a.data
                m = a.args[0]
                own = boolatom(name, *args[:k], idxvar(bound[i]), *args[k + 1:], data=data)
                if band(m, own).fp == m.fp:
                    return TRUE
    fp = H('bool', name, data, tuple(a.fp for a in args))
    t = _memo.get(('b', fp))
    if t is None:
        t = Term(name, args, data, fp=fp, ml={frozenset((fp,)): 1},
                 isbool=True, isint=True)
        t.valid = TRUE
        _memo[('b', fp)] = t
    _BATOM[fp] = t
    return t


def only_ok(c):
    """Whether the condition is about missing inputs alone."""
    return all(f in _BATOM and _BATOM[f].op == 'ok' for k in c.ml for f in k)


def bnot(a):
    ml = {k: -v for k, v in a.ml.items()}
    k0 = frozenset()
    ml[k0] = ml.get(k0, 0) + 1
    return _bool_from_ml(ml, 'not', (a,))


def band(a, b):
    if a is TRUE or b is FALSE:
        return b
    if b is TRUE or a is FALSE:
        return a
    ml = {}
    for ka, va in a.ml.items():
        for kb, vb in b.ml.items():
            k = ka | kb
            ml[k] = ml.get(k, 0) + va * vb
    if len(ml) > 512:
        raise AnalysisGap('boolean condition too large')
    return _bool_from_ml(ml, 'and', (a, b))


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))


def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))


# ---------------------------------------------------------------------------
# numeric constants and atoms

def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, dict):
        coef = {k: Fraction(x) for k, x in v.items() if x}
    else:
        coef = {0: Fraction(v)} if v else {}
    key = ('const', tuple(sorted(coef.items())))
    t = _memo.get(key)
    if t is None:
        isint = all(k == 0 for k in coef) and coef.get(0, Fraction(0)).denominator == 1
        t = Term('const', (), coef, fp=c_fp(coef),
                 lin={None: (coef, None)} if coef else {}, isint=isint)
        t.valid = TRUE
        _memo[key] = t
    return t


def nan():
    key = ('nan',)
    t = _memo.get(key)
    if t is None:
        t = Term('nan', fp=H('nan'))
        t.valid = FALSE
        _memo[key] = t
    return t


def pi():
    return const({1: 1})


# float literals that are a rational multiple of pi or 1/pi to the last digit
_PI_MULT = {}
for _q in (1, 2, 4, Fraction(1, 2), Fraction(1, 4), Fraction(1, 180), Fraction(1, 12),
           Fraction(1, 3), Fraction(2, 3), Fraction(1, 6), Fraction(1, 360), Fraction(1, 10800),
           Fraction(1, 648000), Fraction(2, 365), Fraction(1, 43200), Fraction(1, 720),
           Fraction(3, 2), Fraction(1, 15), Fraction(2, 86400)):
    _q = Fraction(_q)
    _PI_MULT[float(_q) * math.pi] = {1: _q}
    _PI_MULT[math.pi * _q.numerator / _q.denominator] = {1: _q}
    _PI_MULT[float(1 / _q) / math.pi] = {-1: 1 / _q}
    _PI_MULT[_q.denominator / (_q.numerator * math.pi)] = {-1: 1 / _q}


def number(v):
    """Term for a concrete Python number, exact for its shortest decimal form."""
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return const(v)
    if isinstance(v, float):
        if v != v:
            return nan()
        if v in (math.inf, -math.inf):
            return infinity(v > 0)
        r = repr(v)
        digits = sum(ch.isdigit() for ch in r.split('e')[0].lstrip('-0.'))
        if digits >= 14:
            for k, c in _PI_MULT.items():
                if abs(abs(v) - k) <= 4e-16 * k:
                    return const(c) if v > 0 else neg(const(c))
        return const(Fraction(r))
    if isinstance(v, Fraction):
        return const(v)
    raise AnalysisGap(f'not a number: {v!r}')


def infinity(positive=True):
    key = ('inf', positive)
    t = _memo.get(key)
    if t is None:
        t = Term('inf', (), positive, fp=H('inf', positive))
        t.valid = TRUE
        _memo[key] = t
    return t


def is_const(t):
    return not t.lin or (len(t.lin) == 1 and None in t.lin)


def const_coef(t):
    if not t.lin:
        return {}
    if len(t.lin) == 1 and None in t.lin:
        return t.lin[None][0]
    return None


def const_fraction(t):
    """Rational value of a constant term without pi, else None."""
    c = const_coef(t)
    if c is None:
        return None
    if not c:
        return Fraction(0)
    if len(c) == 1 and 0 in c:
        return c[0]
    return None


class AtomInfo:
    """Facts about an input: hull interval, witnesses, integrality."""
    def __init__(self, lo=-math.inf, hi=math.inf, integer=False, maybe_nan=False,
                 hi_open=False, lo_open=False, witness=(), deps=()):
        self.lo, self.hi = lo, hi
        self.integer = integer
        self.maybe_nan = maybe_nan
        self.hi_open, self.lo_open = hi_open, lo_open
        self.witness = tuple(witness)   # sub-intervals some element lies in


ATOMS = {}
FORCED = frozenset()     # inputs that the path under analysis assumes to have no missing element


def declare(name, **kw):
    ATOMS[name] = AtomInfo(**dict(kw, maybe_nan=False) if name in FORCED else kw)


def atom(name, idx=()):
    idx = tuple(idx)
    key = ('atom', name, tuple(i.fp for i in idx))
    t = _memo.get(key)
    if t is None:
        info = ATOMS.get(name)
        t = Term('atom', idx, name, fp=H('atom', name, tuple(i.fp for i in idx)),
                 isint=bool(info and info.integer))
        if info and info.maybe_nan:
            t.valid = boolatom('ok', *idx, data=name)
        else:
            t.valid = TRUE
        _memo[key] = t
    return t


def idxvar(name):
    key = ('idx', name)
    t = _memo.get(key)
    if t is None:
        t = Term('idx', (), name, fp=H('idx', name), isint=True)
        t.valid = TRUE
        _memo[key] = t
    return t


# ---------------------------------------------------------------------------
# ring operations

def _valid(*ts):
    v = TRUE
    for t in ts:
        if t.valid is not TRUE:
            v = band(v, t.valid)
    return v


def _mk(op, args, fp, lin=None, data=None, isint=False, valid=None):
    key = (op, tuple(a.uid for a in args), data if not isinstance(data, dict) else None)
    t = _memo.get(key)
    if t is None:
        t = Term(op, args, data, fp=fp, lin=lin, isint=isint)
        t.valid = _valid(*args) if valid is None else valid
        _memo[key] = t
    return t


def _monomial(mono):
    r = TRUE
    for fp in sorted(mono):
        r = band(r, _BATOM[fp])
    return r


def _numlin(t):
    """Linear form of a term seen as a number (booleans become 0/1 atoms)."""
    if t.isbool and t is not TRUE and t is not FALSE:
        out = {}
        for mono, c in t.ml.items():
            if not mono:
                out[None] = ({0: Fraction(c)}, None)
            else:
                m = _monomial(mono)
                out[m.fp] = ({0: Fraction(c)}, m)
        return out
    return t.lin


def add(a, b):
    if a.op in ('inf', 'nan') or b.op in ('inf', 'nan'):
        return _special('add', a, b)
    la, lb = _numlin(a), _numlin(b)
    if not lb and b.valid is TRUE:
        return a
    if not la and a.valid is TRUE:
        return b
    lin = dict(la)
    for k, (c, t) in lb.items():
        if k in lin:
            s = c_add(lin[k][0], c)
            if s:
                lin[k] = (s, lin[k][1])
            else:
                del lin[k]
        else:
            lin[k] = (c, t)
    v = _valid(a, b)
    if v is TRUE and (not lin or (len(lin) == 1 and None in lin)):
        return const(lin[None][0] if lin else 0)
    return _mk('add', (a, b), (a.fp + b.fp) % P, lin, isint=a.isint and b.isint)


def neg(a):
    return scale(a, {0: Fraction(-1)})


def sub(a, b):
    return add(a, neg(b))


def scale(a, coef):
    if a.op in ('inf', 'nan'):
        return _special('mul', a, const(coef))
    if coef == C1:
        return a
    if not coef:
        if a.valid is TRUE:
            return const(0)
    lin = {}
    for k, (c, t) in _numlin(a).items():
        m = c_mul(c, coef)
        if m:
            lin[k] = (m, t)
    if a.valid is TRUE and (not lin or (len(lin) == 1 and None in lin)):
        return const(lin[None][0] if lin else 0)
    k = const(coef)
    return _mk('mul', (k, a), a.fp * k.fp % P, lin, isint=a.isint and k.isint)


def _special(op, a, b):
    """Arithmetic with literal infinities / NaN: opaque but canonical."""
    if a.op == 'nan' or b.op == 'nan':
        return nan()
    if op == 'mul' and a.op == 'inf' and const_coef(b):
        return infinity((c_float(const_coef(b)) > 0) == a.data)
    if op == 'mul' and b.op == 'inf' and const_coef(a):
        return infinity((c_float(const_coef(a)) > 0) == b.data)
    return _mk(op, (a, b), H(op, *sorted((a.fp, b.fp))))


def content(t):
    """A canonical non-zero constant factor of t (leading linear coefficient)."""
    lin = _numlin(t)
    keys = [k for k in lin if k is not None]
    if not keys:
        c = lin.get(None)
        return c[0] if c else C1
    k = min(keys)
    c = lin[k][0]
    if len(c) == 1:
        return c
    kk = max(c)
    return {kk: c[kk]}


EXPAND = 48        # products with at most so many terms are distributed


def _product(a, b):
    """Linear form of a product of sums, distributed (None when it is large or no sum is involved)."""
    la, lb = _numlin(a), _numlin(b)
    n = len(la) * len(lb)
    if n < 2 or n > EXPAND:
        return None
    lin = {}
    for ka, (ca, ta) in la.items():
        for kb, (cb, tb) in lb.items():
            c = c_mul(ca, cb)
            if ta is None or tb is None:
                k, m = (kb, tb) if ta is None else (ka, ta)
            else:
                k = ka * kb % P
                if k == 1:
                    k, m = None, None
                else:
                    m = _memo.get(('prod', k))
                    if m is None:
                        m = Term('mul', (ta, tb), None, fp=k)
                        m.valid = TRUE
                        m.lin = {k: (C1, m)}
                        _memo['prod', k] = m
            if k in lin:
                c = c_add(lin[k][0], c)
            if c:
                lin[k] = (c, m)
            else:
                lin.pop(k, None)
    return lin


def mul(a, b):
    ca, cb = const_coef(a), const_coef(b)
    if a.op in ('inf', 'nan') or b.op in ('inf', 'nan'):
        return _special('mul', a, b)
    if ca is not None and a.valid is TRUE:
        return scale(b, ca)
    if cb is not None and b.valid is TRUE:
        return scale(a, cb)
    if a.op == 'sqrt' and b.op == 'sqrt' and a.fp == b.fp and a.args:
        return a.args[0]
    if a.isbool and b.isbool:
        return band(a, b)
    for x, y in ((a, b), (b, a)):
        if not y.isbool and _of_booleans(x):
            # (c0 + c1*b1 + ...)*y, a choice between values
            r = from_lin([(k, c, ite(t, _unmask(y), const(0)) if t is not None else None) if t is not None else (k, c, _unmask(y))
                          for k, (c, t) in x.lin.items()])
            return with_valid(with_valid(r, y.valid), x.valid)
    ka, kb = content(a), content(b)
    k = c_mul(ka, kb)
    fp = a.fp * b.fp % P
    nfp = fp * inv(c_fp(k)) % P
    t = _mk('mul', (a, b), fp, isint=a.isint and b.isint)
    if len(t.lin) == 1 and next(iter(t.lin)) == fp:
        lin = _product(a, b)
        if lin is not None:
            t.lin = lin
            return t
    if k == C1:
        t.lin = {nfp: (C1, t)}
    elif len(t.lin) == 1 and next(iter(t.lin)) == fp:
        # normalised product atom
        key = ('prod', nfp)
        base = _memo.get(key)
        if base is None:
            base = Term('mul', (scale(a, c_inv(ka)), scale(b, c_inv(kb))),
                        None, fp=nfp)
            base.valid = TRUE
            base.lin = {nfp: (C1, base)}
            _memo[key] = base
        t.lin = {nfp: (k, base)}
    return t


def _of_booleans(x):
    some = False
    for c, t in x.lin.values():
        if t is not None:
            if not t.isbool:
                return False
            some = True
    return some and len(x.lin) <= 6


def div(a, b):
    cb = const_coef(b)
    if a.op in ('inf', 'nan') or b.op in ('inf', 'nan'):
        if b.op == 'inf' and a.op not in ('inf', 'nan'):
            return const(0)
        return _special('div', a, b)
    if cb is not None and b.valid is TRUE:
        if not cb:
            return _mk('div', (a, b), H('div0', a.fp))
        ic = c_inv(cb)
        if ic is not None:
            return scale(a, ic)
    return mul(a, recip(b)) if const_coef(a) != C1 else recip(b)


def recip(b):
    kb = content(b)
    ik = c_inv(kb)
    fp = inv(b.fp)
    nfp = fp * c_fp(kb) % P
    t = _mk('recip', (b,), fp)
    if kb != C1 and len(t.lin) == 1 and next(iter(t.lin)) == fp:
        key = ('recipn', nfp)
        base = _memo.get(key)
        if base is None:
            base = Term('recip', (scale(b, ik),), None, fp=nfp)
            base.valid = TRUE
            base.lin = {nfp: (C1, base)}
            _memo[key] = base
        t.lin = {nfp: (ik, base)}
    return t


def powi(a, n):
    if n == 0:
        return const(1)
    if n < 0:
        return recip(powi(a, -n))
    if n == 1:
        return a
    if is_const(a) and a.valid is TRUE:
        c = const_coef(a)
        r = C1
        for _ in range(n):
            r = c_mul(r, c)
        return const(r)
    if a.op == 'sqrt' and a.args and n % 2 == 0:
        return powi(a.args[0], n // 2)
    if 1 < len(_numlin(a)) and len(_numlin(a)) ** n <= EXPAND * n:
        r = a
        for _ in range(n - 1):
            r = mul(r, a)
        if len(r.lin) > 1:
            return r
    k = content(a)
    kn = C1
    for _ in range(n):
        kn = c_mul(kn, k)
    fp = pow(a.fp, n, P)
    nfp = fp * inv(c_fp(kn)) % P
    t = _mk('powi', (a,), fp, data=n, isint=a.isint)
    if kn != C1 and len(t.lin) == 1 and next(iter(t.lin)) == fp:
        key = ('pown', nfp)
        base = _memo.get(key)
        if base is None:
            base = Term('powi', (scale(a, c_inv(k)),), n, fp=nfp)
            base.valid = TRUE
            base.lin = {nfp: (C1, base)}
            _memo[key] = base
        t.lin = {nfp: (kn, base)}
    return t


def power(a, b):
    f = const_fraction(b)
    if f is not None and b.valid is TRUE:
        if f.denominator == 1 and abs(f.numerator) <= 64:
            return powi(a, f.numerator)
        if f == Fraction(1, 2):
            return sqrt(a)
        if f == Fraction(-1, 2):
            return recip(sqrt(a))
        fa = const_fraction(a)
        if fa is not None and f.denominator == 1:
            return const(fa ** f.numerator)
        if f < 0:
            return recip(power(a, neg(b)))
    if a.op == 'exp':
        return exp(mul(a.args[0], b))
    return _mk('pow', (a, b), H('pow', a.fp, b.fp))


# ---------------------------------------------------------------------------
# square roots

_squares = {}     # fp(v*v) -> v, for sines and cosines


def _register_square(v):
    _squares.setdefault(v.fp * v.fp % P, v)


def _modsqrt(x):
    r = pow(x, (P + 1) // 4, P)
    if r * r % P == x:
        return min(r, P - r)
    return None


def sqrt(x):
    c = const_fraction(x)
    if c is not None and c >= 0 and x.valid is TRUE:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return const(Fraction(n, d))
    if x.op == 'powi' and x.data == 2:
        return absolute(x.args[0])
    if x.op == 'mul' and x.args[0].fp == x.args[1].fp:
        return absolute(x.args[0])
    v = _squares.get(x.fp)
    if v is not None:
        return absolute(v)
    r = _modsqrt(x.fp)
    fp = H('sqrt', x.fp) if r is None else r
    return _mk('sqrt', (x,), fp)


# ---------------------------------------------------------------------------
# trigonometry

def _as_whole_turns(coef, t):
    """coef * t is a whole number of turns (2 pi * integer)?"""
    if t is None or not t.isint:
        return False
    if len(coef) == 1 and 1 in coef:
        q = coef[1] / 2
        return q.denominator == 1
    return False


def is_whole(t):
    """t is an integer by its linear form."""
    if t.isint:
        return True
    if not t.lin:
        return False
    for c, a in t.lin.values():
        if any(k != 0 for k in c) or (c and c[0].denominator != 1):
            return False
        if a is not None and not a.isint and not (a.op == 'iteatom' and is_whole(a.args[1])):
            return False
    return True


def strip_multiples(t, unit):
    """Drop from t every linear component that is unit * integer."""
    ui = c_inv(unit)
    keep = []
    dropped = False
    for k, (c, a) in t.lin.items():
        if a is None:
            q = c_mul(c, ui)
            f = q.get(0)
            if f is not None:
                whole = math.floor(f)
                if whole:
                    c = c_add(c, c_mul(unit, {0: Fraction(-whole)}))
                    dropped = True
            if c:
                keep.append((k, c, a))
            continue
        q = c_mul(c, ui)
        if a.isint and len(q) == 1 and 0 in q and q[0].denominator == 1:
            dropped = True
            continue
        if a.op == 'iteatom' and len(q) == 1 and 0 in q and is_whole(scale(a.args[1], q)):
            dropped = True
            continue
        keep.append((k, c, a))
    if not dropped:
        return t
    return from_lin(keep, t)


def from_lin(items, like=None):
    r = const(0)
    for k, c, a in items:
        r = add(r, const(c) if a is None else scale(a, c))
    if like is not None and like.valid is not TRUE:
        r = with_valid(r, like.valid)
    return r


def with_valid(t, v):
    if v is TRUE or t.valid is v:
        return t
    nv = band(t.valid, v)
    if nv is t.valid:
        return t
    key = ('valid', t.uid, nv.uid)
    r = _memo.get(key)
    if r is None:
        r = Term(t.op if False else 'masked', (t,), nv, fp=t.fp, lin=t.lin, isint=t.isint)
        r.valid = nv
        _memo[key] = r
    return r


def revalid(t, v):
    """The value t, defined exactly where v."""
    if t.valid is v or t.valid.fp == v.fp:
        return t
    key = ('valid', t.uid, v.uid)
    r = _memo.get(key)
    if r is None:
        r = Term('masked', (t,), v, fp=t.fp, lin=t.lin, isint=t.isint)
        r.valid = v
        _memo[key] = r
    return r


def _reduce_angle(x):
    """x = r + quarter*(pi/2) modulo whole turns; returns (r, quarter)."""
    items = []
    quarter = 0
    changed = False
    for k, (c, a) in x.lin.items():
        if a is None:
            q = c.get(1)
            if q is not None:
                n = math.floor(q * 2)
                if n:
                    quarter = n
                    changed = True
                    c = c_add(c, {1: Fraction(-n, 2)})
            if c:
                items.append((k, c, a))
            continue
        if _as_whole_turns(c, a):
            changed = True
            continue
        if a.isint and len(c) == 1 and 1 in c and c[1].denominator <= 2 and a.isbool is False:
            pass
        items.append((k, c, a))
    if not changed:
        return x, 0
    return from_lin(items), quarter % 4


def _base_trig(r):
    """(sin, cos) of a reduced angle."""
    if not r.lin:
        return const(0), const(1)
    # +- inverse trigonometric atom
    if len(r.lin) == 1:
        (k, (c, a)), = r.lin.items()
        if a is not None and a.op in ('arcsin', 'arctan', 'arctan2') and \
                c in ({0: Fraction(1)}, {0: Fraction(-1)}):
            s, co = _inverse_pair(a)
            if c[0] < 0:
                s = neg(s)
            return s, co
    t = H('trig', r.fp)
    d = inv((1 + t * t) % P)
    cfp = (1 - t * t) % P * d % P
    sfp = 2 * t % P * d % P
    co = _mk('cos', (r,), cfp)
    co.lin = {cfp: (C1, co)}
    s = _mk('sin', (r,), sfp)
    _register_square(s)
    _register_square(co)
    return s, co


def _inverse_pair(a):
    if a.op == 'arcsin':
        x = a.data[0] if isinstance(a.data, tuple) else a.args[0]
        s = _mk('sin', (a,), x.fp, lin=x.lin)
        co = sqrt(sub(const(1), mul(x, x)))
        if co.op == 'sqrt':
            # the cosine of an inverse sine, which is defined wherever that is
            co = _mk('sqrt', (co.args[0], a), co.fp, data='cos')
        return s, co
    if a.op == 'arctan':
        w = a.args[0]
        h = sqrt(add(const(1), mul(w, w)))
        return div(w, h), recip(h)
    y, x = a.args
    h = sqrt(add(mul(x, x), mul(y, y)))
    s, co = div(y, h), div(x, h)
    return _mk('sin', (a,), s.fp, lin=s.lin), _mk('cos', (a,), co.fp, lin=co.lin)


def _trig(x):
    if x.op in ('inf', 'nan'):
        return nan(), nan()
    # canonical sign: by the value number of the part that is not constant
    var = 0
    for k, (co, a) in x.lin.items():
        if a is not None and not _as_whole_turns(co, a):
            var = (var + c_fp(co) * k) % P
    flip = var > P - var
    r, q = _reduce_angle(neg(x) if flip else x)
    s, c = _base_trig(r)
    if q == 1:
        s, c = c, neg(s)
    elif q == 2:
        s, c = neg(s), neg(c)
    elif q == 3:
        s, c = neg(c), s
    if flip:
        s = neg(s)
    return revalid(s, x.valid), revalid(c, x.valid)


def sin(x):
    return _trig(x)[0]


def cos(x):
    return _trig(x)[1]


def tan(x):
    s, c = _trig(x)
    if const_coef(s) == {}:
        return const(0)
    t = mul(s, recip(c))
    return _mk('tan', (x,), t.fp, lin=t.lin)


def _strip_unit_clip(x):
    """arcsin/arccos argument without its clamp to [-1, 1]."""
    if x.op == 'mul' and const_fraction(x.args[0]) == -1:
        s = _strip_unit_clip(x.args[1])
        return x if s is x.args[1] else neg(s)
    if x.op == 'clip' and x.data == (-1, 1):
        return x.args[0]
    if x.op in ('min', 'max'):
        a, b = x.args
        if const_fraction(a) is not None:
            a, b = b, a
        if const_fraction(b) == (1 if x.op == 'min' else -1):
            y = a
            if y.op in ('min', 'max') and y.op != x.op:
                c, d = y.args
                if const_fraction(c) is not None:
                    c, d = d, c
                if const_fraction(d) == (-1 if x.op == 'min' else 1):
                    return c
            return y
    return x


def arcsin(x):
    s = _strip_unit_clip(x)
    f = const_fraction(s)
    if f in (0, 1, -1):
        return const({1: f / 2}) if f else const(0)
    # odd function: canonical sign by value number
    flip = s.fp > P - s.fp
    key = P - s.fp if flip else s.fp
    fp = H('arcsin', key)
    if flip:
        m = neg(s)
        base = _mk('arcsin', (neg(x),), fp, data=(m,))
        t = scale(base, {0: Fraction(-1)})
    else:
        t = _mk('arcsin', (x,), fp, data=(s,))
    return t


def arccos(x):
    return sub(const({1: Fraction(1, 2)}), arcsin(x))


def arctan(x):
    f = const_fraction(x)
    if f in (0, 1, -1):
        return const({1: f / 4}) if f else const(0)
    flip = x.fp > P - x.fp
    key = P - x.fp if flip else x.fp
    fp = H('arctan', key)
    if flip:
        return scale(_mk('arctan', (neg(x),), fp), {0: Fraction(-1)})
    return _mk('arctan', (x,), fp)


def arctan2(y, x):
    # odd in y: arctan2(-y, x) = -arctan2(y, x)
    if y.fp == 0 and is_const(y):
        cx = const_coef(x)
        if cx and c_float(cx) > 0:
            return const(0)
    # positive scale: divide both by a common non-negative factor
    y, x = _common_scale(y, x)
    flip = y.fp > P - y.fp
    if flip:
        fp = H('arctan2', P - y.fp, x.fp)
        return scale(_mk('arctan2', (neg(y), x), fp), {0: Fraction(-1)})
    return _mk('arctan2', (y, x), H('arctan2', y.fp, x.fp))


def _common_scale(y, x):
    cy, cx = content(y), content(x)
    return y, x


# ---------------------------------------------------------------------------
# other functions

def exp(x):
    if not x.lin and x.valid is TRUE:
        return const(1)
    if x.op == 'log':
        return x.args[0]
    # exp(-x) = 1/exp(x)
    if x.fp > P - x.fp:
        return recip(_mk('exp', (neg(x),), H('exp', P - x.fp)))
    return _mk('exp', (x,), H('exp', x.fp))


def log(x):
    if const_fraction(x) == 1:
        return const(0)
    if x.op == 'exp':
        return x.args[0]
    return _mk('log', (x,), H('log', x.fp))


_CALENDAR = {}


def func(name, *args, isint=False):
    """Uninterpreted function (the calendar is known on constants)."""
    if name in _CALENDAR and args[0].valid is TRUE:
        f = const_fraction(args[0])
        if f is not None and f.denominator == 1:
            return const(_CALENDAR[name](int(f)))
    return _mk('fn', tuple(args), H('fn', name, tuple(a.fp for a in args)),
               data=name, isint=isint)


def floor(x):
    if x.isint:
        return x
    f = const_fraction(x)
    if f is not None and x.valid is TRUE:
        return const(math.floor(f))
    cc = const_coef(x)
    if cc is not None and x.valid is TRUE:
        return const(math.floor(c_float(cc)))
    ints, rest = [], []
    for k, (c, a) in x.lin.items():
        if a is None:
            v = c.get(0)
            if v is not None:
                n = math.floor(v)
                if n:
                    ints.append((k, {0: Fraction(n)}, None))
                c2 = c_add(c, {0: Fraction(-n)})
                if c2:
                    rest.append((k, c2, None))
                continue
            rest.append((k, c, a))
        elif a.isint and len(c) == 1 and 0 in c and c[0].denominator == 1:
            ints.append((k, c, a))
        else:
            rest.append((k, c, a))
    if ints:
        r = revalid(from_lin(rest), x.valid)
        return revalid(add(from_lin(ints), floor(r)), x.valid)
    if x.valid is TRUE and all(a is None or a.op == 'atom' for c, a in x.lin.values()):
        lo, hi = 0.0, 0.0
        for c, a in x.lin.values():
            f = c_float(c)
            i = (1.0, 1.0) if a is None else iv(a)
            b = i_mul((f, f), i)
            lo, hi = lo + b[0], hi + b[1]
        if lo > -INF and hi < INF and math.floor(lo) == math.floor(hi):
            return const(math.floor(lo))
    elif len(x.lin) <= 3:
        lo, hi = iv(x)
        if lo > -INF and hi < INF and math.floor(lo) == math.floor(hi + 1e-9):
            return with_valid(const(math.floor(lo)), x.valid)
    return _mk('floor', (x,), H('floor', x.fp), isint=True)


def ceil(x):
    return neg(floor(neg(x)))


def mod(x, m):
    """Python/numpy/numexpr floored modulo."""
    q = floor(div(x, m))
    t = sub(x, mul(m, q))
    return _mk('mod', (x, m), t.fp, lin=t.lin, isint=x.isint and m.isint)


def trunc(x):
    if x.isint:
        return x
    return ite(lt(x, const(0)), ceil(x), floor(x))


def rnd(x, n=0):
    if x.isint and n >= 0:
        return x
    f = const_fraction(x)
    if f is not None:
        return const(Fraction(round(f, n)))
    if n == 0 and x.valid is TRUE:
        # an integer and a fixed number
        c0 = [c.get(0) for c, a in x.lin.values() if a is None and set(c) == {0}]
        if len(c0) == 1 and (2*c0[0]).denominator != 1 and all(
                a is None or a.isint and len(c) == 1 and 0 in c and c[0].denominator == 1 for c, a in x.lin.values()):
            return add(sub(x, const(c0[0])), const(round(c0[0])))
    return _mk('round', (x,), H('round', n, x.fp), data=n, isint=n <= 0)


def absolute(x):
    i = iv(x)
    if i[0] >= 0:
        return x
    if i[1] <= 0:
        return neg(x)
    k = content(x)
    s = c_float(k)
    ak = k if s > 0 else c_mul(k, {0: Fraction(-1)})
    n = scale(x, c_inv(k)) if c_inv(k) else x
    if c_inv(k) is None:
        ak = C1
    key = min(n.fp, P - n.fp)
    base = _mk('abs', (n,), H('abs', key), isint=n.isint)
    return scale(base, ak)


def maximum(a, b):
    return _minmax('max', a, b)


def minimum(a, b):
    return _minmax('min', a, b)


def _minmax(op, a, b):
    if a.fp == b.fp:
        return a
    ia, ib = iv(a), iv(b)
    sgn = 1 if op == 'max' else -1
    if (ia[0] >= ib[1]) if op == 'max' else (ia[1] <= ib[0]):
        return with_valid(a, b.valid)
    if (ib[0] >= ia[1]) if op == 'max' else (ib[1] <= ia[0]):
        return with_valid(b, a.valid)
    if a.op == 'inf' or b.op == 'inf':
        return _mk(op, (a, b), H(op, *sorted((a.fp, b.fp))))
    d = absolute(sub(a, b))
    t = scale(add(add(a, b), scale(d, {0: Fraction(sgn)})), {0: Fraction(1, 2)})
    u = _mk(op, (a, b), t.fp, lin=t.lin, isint=a.isint and b.isint)
    return u


UNIT = set()      # value numbers of expressions that are dot products of unit vectors


def clip(x, lo, hi):
    r = x
    if lo is not None and not (lo.op == 'inf' and not lo.data):
        r = maximum(r, lo)
    if hi is not None and not (hi.op == 'inf' and hi.data):
        r = minimum(r, hi)
    return r


# ---------------------------------------------------------------------------
# relations, if-then-else

def _open_below(d, bound):
    """d, whose interval ends at `bound`, does not reach it: it is affine in an input with an open end."""
    parts = [(c, a) for c, a in d.lin.values() if a is not None]
    if len(parts) == 1 and parts[0][1].op == 'reduce' and parts[0][1].data[0] in ('max', 'min'):
        # an extreme is one of the elements
        return _open_below(scale(parts[0][1].args[0], parts[0][0]), bound)
    if len(parts) != 1 or parts[0][1].op != 'atom':
        return False
    info = ATOMS.get(parts[0][1].data)
    if info is None:
        return False
    return info.hi_open if c_float(parts[0][0]) > 0 else info.lo_open


def _extreme_lt0(n):
    """n < 0, if n is a greatest or least of terms that decide it."""
    if len(n.lin) > 9:
        return None
    i = iv(n)
    if i[1] < 0 or (i[1] == 0 and _open_below(n, 0)):
        return True
    if i[0] >= 0:
        return False
    for kc, a in n.lin.values():
        if a is None or a.op != 'abs':
            continue
        x = scale(a.args[0], kc)
        r = sub(n, scale(a, kc))
        p, q = add(r, x), sub(r, x)
        if max(len(p.lin), len(q.lin)) < len(n.lin):
            p, q = _extreme_lt0(p), _extreme_lt0(q)
            if c_float(kc) > 0:
                d = False if p is False or q is False else True if p and q else None
            else:
                d = True if p or q else False if p is False and q is False else None
            if d is not None:
                return d
    return None


def _lt0(d):
    """The proposition d < 0 (d valid)."""
    c = const_coef(d)
    if c is not None:
        return TRUE if c and c_float(c) < 0 else FALSE
    i = iv(d)
    if i[1] < 0 or (i[1] == 0 and _open_below(d, 0)):
        return TRUE
    if i[0] >= 0:
        return FALSE
    k = content(d)
    s = c_float(k)
    ak = k if s > 0 else c_mul(k, {0: Fraction(-1)})
    ia = c_inv(ak)
    n = scale(d, ia) if ia else d
    if len(n.lin) <= 2:
        # r + k|x| < 0  <=>  r + kx < 0 and r - kx < 0   (k > 0; 'or' for k < 0)
        for key, (kc, a) in n.lin.items():
            if a is not None and a.op == 'abs' and set(n.lin) <= {None, key}:
                x = scale(a.args[0], kc)
                r = sub(n, scale(a, kc))
                both = band if c_float(kc) > 0 else bor
                return both(_lt0(add(r, x)), _lt0(sub(r, x)))
    e = _extreme_lt0(n)
    if e is not None:
        return TRUE if e else FALSE
    return boolatom('lt', n)


def lt(a, b):
    v = _valid(a, b)
    if a.op == 'inf' or b.op == 'inf':
        p = _cmp_inf(a, b)
    else:
        p = _lt0(sub(_unmask(a), _unmask(b)))
    return band(v, p)


def _cmp_inf(a, b):
    if a.op == 'inf' and b.op == 'inf':
        return TRUE if (not a.data and b.data) else FALSE
    if a.op == 'inf':
        return FALSE if a.data else TRUE
    return TRUE if b.data else FALSE


def _unmask(t):
    while t.op == 'masked':
        t = t.args[0]
    return t


def le(a, b):
    v = _valid(a, b)
    if a.op == 'inf' or b.op == 'inf':
        p = bnot(_cmp_inf(b, a))
    else:
        # strictness at an open bound
        d = sub(_unmask(a), _unmask(b))
        i = iv(d)
        if i[1] <= 0:
            p = TRUE
        else:
            p = bnot(_lt0(neg(d)))
    return band(v, p)


def eq(a, b):
    v = _valid(a, b)
    if a.isbool and b.isbool:
        return bnot(bxor(a, b))
    d = sub(_unmask(a), _unmask(b))
    if d.fp == 0:
        p = TRUE
    else:
        c = const_coef(d)
        i = iv(d)
        if c is not None:
            p = FALSE
        elif i[0] > 0 or i[1] < 0 or (i[1] == 0 and _open_below(d, 0)) or (i[0] == 0 and _open_below(neg(d), 0)):
            p = FALSE
        else:
            k = content(d)
            n = scale(d, c_inv(k)) if c_inv(k) else d
            key = min(n.fp, P - n.fp)
            if n.fp != key:
                n = neg(n)
            p = boolatom('eq0', n)
    return band(v, p)


def isvalid(t):
    return t.valid


def ite(c, a, b):
    """where(c, a, b)"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.isbool and b.isbool:
        return bite(c, a, b)
    if a.valid is FALSE and b.valid is FALSE:
        return nan()
    if b.valid is FALSE:
        return with_valid(a, c)
    if a.valid is FALSE:
        return with_valid(b, bnot(c))
    if a.fp == b.fp:
        r = a
        v = bite(c, a.valid, b.valid)
        if v is a.valid:
            return a
        if v is b.valid:
            return b
        return with_valid(_unmask(a), v)
    # canonical polarity: the guard with the smaller value number
    nc = bnot(c)
    if nc.fp < c.fp:
        c, a, b = nc, b, a
    v = bite(c, a.valid, b.valid)
    key = ('ite', c.uid, a.uid, b.uid)
    t = _memo.get(key)
    if t is not None:
        return t
    ua, ub = _unmask(a), _unmask(b)
    if ua.op in ('inf', 'nan') or ub.op in ('inf', 'nan'):
        t = Term('ite', (c, a, b), None, fp=H('ite', c.fp, a.fp, b.fp))
        t.valid = v
        _memo[key] = t
        return t
    d = sub(ua, ub)
    dc = const_coef(d)
    if dc is not None:
        r = add(ub, scale(c, dc))
        fp, lin = r.fp, r.lin
    else:
        g = _guard_expr(c)
        r = None
        if g is not None:
            sgn, e = g           # c == (sgn*e < 0) up to the boundary e == 0
            ke, kd = content(e), content(d)
            ie = c_inv(ke)
            if ie is not None:
                lam = c_mul(kd, ie)
                if scale(e, lam).fp == d.fp:
                    # ite(e<0, b + lam e, b) = b + lam*min(e,0)
                    m = scale(sub(e, scale(absolute(e), {0: Fraction(sgn)})),
                              {0: Fraction(1, 2)})
                    r = add(ub, scale(m, lam))
        if r is None:
            k = content(d)
            n = scale(d, c_inv(k)) if c_inv(k) else d
            afp = H('ite', c.fp, n.fp)
            akey = ('iteatom', afp)
            at = _memo.get(akey)
            if at is None:
                at = Term('iteatom', (c, n), None, fp=afp,
                          isint=n.isint and len(d.lin) > 0 and n.isint)
                at.valid = TRUE
                _memo[akey] = at
            r = add(ub, scale(at, k if c_inv(k) else C1))
        fp, lin = r.fp, r.lin
    t = Term('ite', (c, a, b), None, fp=fp, lin=lin,
             isint=ua.isint and ub.isint)
    t.valid = v
    _memo[key] = t
    return t


def _guard_expr(c):
    """If c is (e < 0) or not(e < 0) return (sign, e): c == sign*e < 0 a.e."""
    if c.op == 'lt':
        return 1, c.args[0]
    n = bnot(c)
    if n.op == 'lt':
        return -1, n.args[0]
    return None


def astype_bool(t):
    if t.isbool:
        return t
    return bnot(eq(t, const(0)))


# ---------------------------------------------------------------------------
# substitution (index renaming, gather/scatter)

def subst(t, mapping, memo=None):
    """Replace idx variables (by name) with terms, rebuilding the DAG."""
    if memo is None:
        memo = {}
    names = frozenset(mapping)
    return _subst(t, mapping, names, memo)


def idx_deps(t):
    d = t._deps
    if d is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x._deps is not None:
                stack.pop()
                continue
            kids = list(x.args)
            if x.valid is not None and x.valid is not x and x.valid is not TRUE:
                kids.append(x.valid)
            pend = [k for k in kids if k._deps is None]
            if pend:
                stack.extend(pend)
                continue
            s = set()
            if x.op == 'idx' and x.data[0] != '#':     # (those are bound)
                s.add(x.data)
            for k in kids:
                s |= k._deps
            x._deps = frozenset(s)
            stack.pop()
        d = t._deps
    return d


def _subst(t, m, names, memo):
    if not (idx_deps(t) & names):
        return t
    r = memo.get(t.uid)
    if r is not None:
        return r
    old = Loc.cur
    Loc.cur = t.prov or old
    if t.op == 'idx':
        r = m[t.data]
    else:
        args = [_subst(a, m, names, memo) for a in t.args]
        r = rebuild(t, args, lambda x: _subst(x, m, names, memo))
    Loc.cur = old
    memo[t.uid] = r
    return r


def replace(t, mapping, memo=None):
    """Replace the subterms whose fingerprint is a key of mapping."""
    if memo is None:
        memo = {}
    r = memo.get(t.uid)
    if r is not None:
        return r
    if t.fp in mapping and t.op != 'const':
        r = mapping[t.fp]
    elif not t.args and t.op not in ('masked',):
        r = t
    else:
        old = Loc.cur
        Loc.cur = t.prov or old
        args = [replace(a, mapping, memo) for a in t.args]
        if all(a is b for a, b in zip(args, t.args)) and t.op != 'masked':
            r = t
        else:
            r = rebuild(t, args, lambda x: replace(x, mapping, memo))
        Loc.cur = old
    memo[t.uid] = r
    return r


def under(t, ctx, memo=None, stop=()):
    """t simplified where the intervals of ctx decide its choices."""
    if memo is None:
        memo = {}
    r = memo.get(t.uid)
    if r is not None:
        return r
    if (not t.args and t.op != 'masked') or (stop and (t.fp in stop or (direction(t) or (None,))[0] in stop)):
        r = t
    else:
        r = None
        if t.op in ('max', 'min'):
            a, b = t.args
            ia, ib = iv(a, ctx), iv(b, ctx)
            if t.op == 'min':
                (a, ia), (b, ib) = (b, (-ib[1], -ib[0])), (a, (-ia[1], -ia[0]))
                a, b, ia, ib = b, a, ib, ia
            if ia[0] >= ib[1]:
                r = under(a, ctx, memo, stop)
            elif ib[0] >= ia[1]:
                r = under(b, ctx, memo, stop)
        elif t.op == 'ite':
            d = decide(t.args[0], ctx)
            if d is not None:
                r = under(t.args[1 if d else 2], ctx, memo, stop)
        elif t.op == 'abs':
            i = iv(t.args[0], ctx)
            if i[0] >= 0:
                r = under(t.args[0], ctx, memo, stop)
            elif i[1] <= 0:
                r = neg(under(t.args[0], ctx, memo, stop))
        if r is None:
            args = [under(a, ctx, memo, stop) for a in t.args]
            if all(a is b for a, b in zip(args, t.args)) and t.op != 'masked':
                r = t
            else:
                r = rebuild(t, args, lambda x: under(x, ctx, memo, stop))
    memo[t.uid] = r
    return r


def rebuild(t, args, rec):
    op = t.op
    if op == 'atom':
        return atom(t.data, args)
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'recip':
        return recip(args[0])
    if op == 'div':
        return div(*args)
    if op == 'powi':
        return powi(args[0], t.data)
    if op == 'pow':
        return power(*args)
    if op == 'sqrt':
        return cos(args[1]) if t.data == 'cos' else sqrt(args[0])
    if op in ('sin', 'cos', 'tan', 'arcsin', 'arctan', 'arctan2', 'exp', 'log',
              'floor', 'mod'):
        return globals()[op](*args)
    if op == 'abs':
        return absolute(args[0])
    if op == 'max':
        return maximum(*args)
    if op == 'min':
        return minimum(*args)
    if op == 'round':
        return rnd(args[0], t.data)
    if op == 'ite':
        return ite(*args)
    if op == 'iteatom':
        return ite(args[0], args[1], const(0))
    if op == 'masked':
        return revalid(args[0], rec(t.data))
    if op == 'gather':
        # the sum of entries selected by the index
        return args[0]
    if op == 'fn':
        return func(t.data, *args, isint=t.isint)
    if op == 'sel':
        return _sel(args[0], args[1], t.data)
    if op == 'rank':
        return _rank(args[0], tuple(args[1:]), t.data[0])
    if op == 'reduce':
        return reduction(t.data[0], *args)
    if op == 'not':
        return bnot(args[0])
    if op == 'and':
        return band(*args)
    if op == 'lt':
        return _lt0(args[0])
    if op == 'eq0':
        return eq(args[0], const(0))
    if op == 'bred':
        return boolatom('bred', *args, data=t.data)
    if t.isbool and op not in ('true', 'false'):
        return boolatom(op, *args, data=t.data)
    raise AnalysisGap(f'cannot substitute in {op}')


def reduction(op, *args, isint=False):
    """A quantity of all elements args[0] (over a bound index, see bind) of an axis of size args[1]."""
    isint = isint or op in INT_REDUCTIONS
    return _mk('reduce', args, H('reduce', op, tuple(a.fp for a in args)), data=(op,), isint=isint)


INT_REDUCTIONS = {'argmax', 'argmin', 'order', 'searchsorted'}


# selection of the elements of an axis by a boolean mask ---------------------
#   mask: boolean Term over idx variable `name`
#   sel(mask, k, name):  position (along axis `name`) of the k-th selected element
#   rank(mask, t, name): how many selected elements precede position t
# The mask is a function of the position: its index variables are bound, with canonical names.

_binders = {}


def _binder_depth(t):
    d = _binders.get(t)
    if d is None:
        d = _binders[t] = 1 + max((int(x.data[1:].split('.')[0]) for x in walk(t) if x.op == 'idx' and x.data[0] == '#'), default=0)
    return d


def bind(names, *bodies):
    """The bodies as functions of the index variables, under canonical names; and these."""
    d = max(_binder_depth(b) for b in bodies)
    bound = tuple(f'#{d}.{i}' for i in range(len(names)))
    m = {n: idxvar(x) for n, x in zip(names, bound)}
    return [subst(b, m) for b in bodies], bound


def _bind(mask, names):
    (m,), bound = bind(names, mask)
    return m, bound


def _sel(cmask, k, data):
    bound, i = data
    if k.op == 'rank' and k.args[0].fp == cmask.fp and len(k.data[0]) == len(bound):
        return k.args[1 + i]
    return _mk('sel', (cmask, k), H('sel', cmask.fp, k.fp, data), data=data, isint=True)


def sel(mask, k, name):
    cmask, bound = _bind(mask, (name,))
    return _sel(cmask, k, (bound, 0))


def sel_all(mask, k, names):
    """Positions along each axis of the k-th element selected by a mask over several axes."""
    cmask, bound = _bind(mask, names)
    return [_sel(cmask, k, (bound, i)) for i in range(len(names))]


def _rank(cmask, pos, bound):
    if all(t.op == 'sel' and t.args[0].fp == cmask.fp and t.data == (bound, i) and t.args[1] is pos[0].args[1]
           for i, t in enumerate(pos)):
        return pos[0].args[1]
    return _mk('rank', (cmask,) + tuple(pos), H('rank', cmask.fp, bound, *(t.fp for t in pos)), data=(bound,), isint=True)


def rank(mask, t, name):
    cmask, bound = _bind(mask, (name,))
    return _rank(cmask, (t,), bound)


def rank_all(mask, names):
    """How many elements selected by a mask over several axes precede that at idx(names...)."""
    cmask, bound = _bind(mask, names)
    return _rank(cmask, tuple(idxvar(n) for n in names), bound)


# ---------------------------------------------------------------------------
# interval evaluation

INF = math.inf
_EPS = 1e-12


def _i(lo, hi):
    return (lo, hi)


def i_add(a, b):
    return (a[0] + b[0] if not (a[0] == -INF or b[0] == -INF) else -INF,
            a[1] + b[1] if not (a[1] == INF or b[1] == INF) else INF)


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def i_mul(a, b):
    b = b[:2]
    v = (_m(a[0], b[0]), _m(a[0], b[1]), _m(a[1], b[0]), _m(a[1], b[1]))
    return (min(v), max(v))


def i_recip(a):
    if a[0] > 0 or a[1] < 0:
        return (1 / a[1] if abs(a[1]) != INF else 0.0,
                1 / a[0] if abs(a[0]) != INF else 0.0)
    if a[0] == 0 and a[1] > 0:
        return (1 / a[1] if a[1] != INF else 0.0, INF)
    if a[1] == 0 and a[0] < 0:
        return (-INF, 1 / a[0] if a[0] != -INF else 0.0)
    return (-INF, INF)


def i_meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    if lo > hi:
        # rounding noise
        lo, hi = min(lo, hi), max(lo, hi)
    return (lo, hi)


def i_join(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


def i_sin(a):
    lo, hi = a
    if hi - lo >= 2 * math.pi or abs(lo) == INF or abs(hi) == INF or abs(lo) > 1e12:
        return (-1.0, 1.0)
    vals = [math.sin(lo), math.sin(hi)]
    k = math.ceil((lo - math.pi / 2) / (2 * math.pi))
    mx = max(vals)
    if math.pi / 2 + 2 * math.pi * k <= hi:
        mx = 1.0
    k = math.ceil((lo + math.pi / 2) / (2 * math.pi))
    mn = min(vals)
    if -math.pi / 2 + 2 * math.pi * k <= hi:
        mn = -1.0
    snap = lambda v: 0.0 if abs(v) < 4e-15 else v      # noqa: E731  zeros at k*pi
    return (max(-1.0, snap(mn - 1e-15)), min(1.0, snap(mx + 1e-15)))


class Ctx:
    """Assumptions for a conditional interval evaluation.

    With `deep` (see ranges.py) overridden directions are also met with what
    their own operands give, contradictions raise Infeasible, and terms that
    do not depend on an overridden direction are not evaluated again."""
    __slots__ = ('over', 'memo', 'deep')

    def __init__(self, over=None, deep=None):
        self.over = over or {}
        self.memo = {}
        self.deep = deep


class Infeasible(Exception):
    """The assumptions of a context contradict each other."""


def i_and(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    if lo > hi:
        if lo - hi > 1e-9 * max(1.0, abs(lo), abs(hi)):
            raise Infeasible
        lo, hi = hi, lo
    return (lo, hi)


ROOT = Ctx()
_iv_depth = 0


def direction(t):
    """t = k*v + c with v canonical; returns (vfp, k, c) or None."""
    lin = t.lin
    keys = [x for x in lin if x is not None]
    if not keys:
        return None
    k = content(t)
    if c_inv(k) is None:
        return None
    c = lin[None][0] if None in lin else {}
    vfp = (t.fp - c_fp(c)) * inv(c_fp(k)) % P
    return vfp, c_float(k), c_float(c)


def assume(ctx, c, truth):
    """Refine ctx with boolean term c being `truth`."""
    cons = []
    _collect(c, truth, cons)
    if not cons:
        return ctx
    over = dict(ctx.over)
    for e, sg in cons:
        # sg*e < 0 (or <= 0)
        d = direction(e)
        if d is None:
            continue
        vfp, k, c0 = d
        # sg*(k v + c0) <= 0
        kk, cc = sg * k, sg * c0
        bound = -cc / kk
        lo, hi = over.get(vfp, (-INF, INF))
        if kk > 0:
            hi = min(hi, bound)
        else:
            lo = max(lo, bound)
        over[vfp] = (lo, hi)
        if ctx.deep and lo > hi:
            raise Infeasible
    return Ctx(over, ctx.deep)


def _collect(c, truth, out):
    if c.op == 'not':
        return _collect(c.args[0], not truth, out)
    if c.op == 'and' and truth:
        for a in c.args:
            _collect(a, True, out)
        return
    if c.op == 'lt':
        out.append((c.args[0], 1 if truth else -1))
        return
    if c.op == 'eq0' and truth:
        out.append((c.args[0], 1))
        out.append((c.args[0], -1))
        return
    n = None
    if c.ml is not None and len(c.ml) == 2 and c.ml.get(frozenset()) == 1:
        n = bnot(c)
        if n.op in ('lt', 'eq0', 'and'):
            _collect(n, not truth, out)


def iv(t, ctx=ROOT):
    if ctx is ROOT and t._iv is not None:
        return t._iv
    r = ctx.memo.get(t.uid)
    if r is not None:
        return r
    deep = ctx.deep
    known = None
    if deep:
        if not ctx.over or not (deep.cores_of(t) & ctx.over.keys()):
            if ctx is not deep.root:
                return iv(t, deep.root)
        else:
            d = direction(t)
            if d is not None and d[0] in ctx.over:
                vfp, k, c = d
                known = i_add(i_mul((k, k), ctx.over[vfp]), (c, c))
    elif ctx.over:
        d = direction(t)
        if d is not None and d[0] in ctx.over:
            vfp, k, c = d
            r = i_meet(iv(t), i_add(i_mul((k, k), ctx.over[vfp]), (c, c)))
            ctx.memo[t.uid] = r
            return r
    r = _iv(t, ctx)
    # linear form evaluation
    lin = t.lin
    if t.op in ('add', 'mul', 'ite', 'mod', 'max', 'min', 'masked') and len(lin) >= 1 and \
            not (len(lin) == 1 and next(iter(lin.values()))[1] is t):
        s = (0.0, 0.0)
        ok = True
        for k, (c, a) in lin.items():
            f = c_float(c)
            if a is None:
                s = i_add(s, (f, f))
            elif a is t:
                ok = False
                break
            else:
                s = i_add(s, i_mul((f, f), iv(a, ctx)))
        if ok:
            r = i_meet(r, s)
    if deep:
        r = i_meet(r, deep.floors(t, ctx))
        if known:
            r = i_and(r, known)
    if ctx is ROOT:
        t._iv = r
    else:
        ctx.memo[t.uid] = r
    return r


def iv_whole(t, depth=3):
    """Interval of a whole-number term, with what ties a quantity to its own
    floor, month and year taken into account."""
    r = iv(t)
    lin = t.lin
    if not depth or r[1] - r[0] <= 1e-9:
        return r
    for k, (c, a) in list(lin.items()):
        if a is None or set(c) != {0}:
            continue
        w = _fraction_part(a)
        if w is None:
            continue
        # t = d - c*(y - a), with y - a in w
        y, w = w
        d = add(t, scale(sub(y, a), c))
        if len(d.lin) >= len(lin):
            continue
        f = c_float(c)
        r2 = i_add(iv_whole(d, depth - 1), i_mul((-f, -f), w))
        if t.isint and c[0].denominator == 1:
            # y - a < 1, and everything is a whole number
            r2 = (math.ceil(r2[0] + (1e-9 if w[2:] and f > 0 else 0)) if abs(r2[0]) != INF else r2[0],
                  math.floor(r2[1] - (1e-9 if w[2:] and f < 0 else 0)) if abs(r2[1]) != INF else r2[1])
        r = i_meet(r, r2)
    return r


def _fraction_part(a):
    """(y, interval of y - a) for a = floor(y) and the calendar counterparts."""
    if a.op == 'floor':
        return a.args[0], (0.0, 1.0, 'open')
    if a.op == 'fn' and a.data == 'month_start':
        m = a.args[0]
        if m.op == 'fn' and m.data == 'months_of_day':
            return m.args[0], (0.0, 30.0)
        # first day of the year of a day
        if len(m.lin) == 1:
            (c, f), = m.lin.values()
            if c == {0: Fraction(12)} and f is not None and f.op == 'floor':
                g = f.args[0]
                if len(g.lin) == 1:
                    (c, h), = g.lin.values()
                    if c == {0: Fraction(1, 12)} and h is not None and h.op == 'fn' and h.data == 'months_of_day':
                        return h.args[0], (0.0, 365.0)
    return None


def _month_start(m):
    y, k = divmod(int(m), 12)
    y += 1970 - (1 if k < 2 else 0)
    era = y // 400
    yoe = y - era * 400
    doy = (153 * ((k + 1) + (-3 if k + 1 > 2 else 9)) + 2) // 5
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def _month_of_day(d):
    m = int(d // 30.436875)
    while _month_start(m) > d:
        m -= 1
    while _month_start(m + 1) <= d:
        m += 1
    return m


_CALENDAR.update(month_start=_month_start, months_of_day=_month_of_day)

IV_HOOKS = []      # functions (term, ctx) -> interval or None


def _iv(t, ctx):
    op = t.op
    for h in IV_HOOKS:
        r = h(t, ctx)
        if r is not None:
            return r
    if op == 'const':
        f = c_float(t.data)
        return (f, f)
    if op == 'inf':
        return (INF, INF) if t.data else (-INF, -INF)
    if op == 'nan':
        return (0.0, 0.0)
    if t.isbool:
        if t is TRUE:
            return (1.0, 1.0)
        if t is FALSE:
            return (0.0, 0.0)
        return (0.0, 1.0)
    if op == 'atom':
        info = ATOMS.get(t.data)
        if info:
            return (float(info.lo), float(info.hi))
        return (-INF, INF)
    if op in ('idx', 'sel', 'rank'):
        return (0.0, INF)
    a = t.args
    if op == 'add':
        r = i_add(iv(a[0], ctx), iv(a[1], ctx))
        if r[0] != r[1]:
            bs = [b for c, b in t.lin.values() if b is not None and b.isbool and b.op not in ('true', 'false')]
            if len(bs) == 1:
                # one choice: each case under its condition
                c = bs[0]
                res = None
                for truth in (True, False):
                    try:
                        x = replace(t, {c.fp: TRUE if truth else FALSE})
                        i = iv(x, assume(ctx, c, truth))
                    except Infeasible:
                        continue
                    res = i if res is None else i_join(res, i)
                if res is not None:
                    r = (max(r[0], res[0]), min(r[1], res[1]))
        return r
    if op == 'mul':
        if a[0].fp == a[1].fp:
            r = iv(a[0], ctx)
            m = max(abs(r[0]), abs(r[1]))
            lo = 0.0 if r[0] <= 0 <= r[1] else min(abs(r[0]), abs(r[1]))
            return (lo * lo, m * m)
        # k / tan(y): cotangent
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            if y.op == 'recip' and y.args[0].op == 'tan':
                return i_mul(iv(x, ctx), i_cot(iv(y.args[0].args[0], ctx)))
        return i_mul(iv(a[0], ctx), iv(a[1], ctx))
    if op == 'recip':
        b = a[0]
        if b.op == 'tan':
            return i_cot(iv(b.args[0], ctx))
        if b.op == 'mul' and is_const(b.args[0]) and b.args[1].op == 'tan':
            k = 1 / c_float(const_coef(b.args[0]))
            return i_mul((k, k), i_cot(iv(b.args[1].args[0], ctx)))
        return i_recip(iv(b, ctx))
    if op == 'div':
        return (-INF, INF)
    if op == 'powi':
        r = iv(a[0], ctx)
        n = t.data
        if n % 2 == 0:
            m = max(abs(r[0]), abs(r[1]))
            lo = 0.0 if r[0] <= 0 <= r[1] else min(abs(r[0]), abs(r[1]))
            return (lo ** n, m ** n)
        return (r[0] ** n, r[1] ** n)
    if op == 'pow':
        b, e = iv(a[0], ctx), iv(a[1], ctx)
        if b[0] >= 0 and e[0] == e[1]:
            try:
                if e[0] >= 0:
                    return (b[0] ** e[0], b[1] ** e[0] if b[1] != INF else INF)
                return (b[1] ** e[0] if b[1] != INF else 0.0,
                        b[0] ** e[0] if b[0] > 0 else INF)
            except OverflowError:
                return (0.0, INF)
        return (-INF, INF)
    if op == 'sqrt':
        if t.data == 'cos':
            r = iv(a[1], ctx)
            return i_sin((r[0] + math.pi / 2, r[1] + math.pi / 2))
        r = iv(a[0], ctx)
        return (math.sqrt(max(r[0], 0.0)), math.sqrt(max(r[1], 0.0)) if r[1] != INF else INF)
    if op == 'sin':
        return i_sin(iv(a[0], ctx))
    if op == 'cos':
        r = iv(a[0], ctx)
        return i_sin((r[0] + math.pi / 2, r[1] + math.pi / 2))
    if op == 'tan':
        r = iv(a[0], ctx)
        if abs(r[0]) != INF and abs(r[1]) != INF and \
                math.floor(r[0] / math.pi + .5) == math.floor(r[1] / math.pi + .5) and r[1] - r[0] < math.pi:
            return (math.tan(r[0]), math.tan(r[1]))
        return (-INF, INF)
    if op == 'arcsin':
        r = iv(a[0], ctx)
        return (math.asin(max(-1.0, min(1.0, r[0]))), math.asin(min(1.0, max(-1.0, r[1]))))
    if op == 'arctan':
        r = iv(a[0], ctx)
        return (math.atan(r[0]), math.atan(r[1]))
    if op == 'arctan2':
        y, x = iv(a[0], ctx), iv(a[1], ctx)
        if x[0] > 0:
            vals = [math.atan2(yy, xx) for yy in y for xx in x
                    if abs(yy) != INF and abs(xx) != INF]
            if len(vals) == 4:
                return (min(vals), max(vals))
            return (-math.pi / 2, math.pi / 2)
        if y[0] > 0:
            return (0.0, math.pi)
        if y[1] < 0:
            return (-math.pi, 0.0)
        return (-math.pi, math.pi)
    if op == 'exp':
        r = iv(a[0], ctx)
        try:
            hi = math.exp(r[1]) if r[1] != INF else INF
        except OverflowError:
            hi = INF
        return (math.exp(r[0]) if r[0] > -700 else 0.0, hi)
    if op == 'log':
        r = iv(a[0], ctx)
        return (math.log(r[0]) if r[0] > 0 else -INF,
                math.log(r[1]) if 0 < r[1] != INF else (INF if r[1] > 0 else -INF))
    if op == 'floor':
        r = iv(a[0], ctx)
        return (math.floor(r[0]) if abs(r[0]) != INF else r[0],
                math.floor(r[1]) if abs(r[1]) != INF else r[1])
    if op == 'mod':
        x, m = iv(a[0], ctx), iv(a[1], ctx)
        if m[0] == m[1] and m[0] > 0:
            if abs(x[0]) != INF and abs(x[1]) != INF:
                q0, q1 = math.floor(x[0] / m[0]), math.floor(x[1] / m[0])
                if q0 == q1:
                    return (x[0] - q0 * m[0], x[1] - q0 * m[0])
            return (0.0, m[0])
        return (-INF, INF)
    if op == 'round':
        r = iv(a[0], ctx)
        h = 0.5 * 10.0 ** (-t.data)
        return (r[0] - h, r[1] + h)
    if op == 'abs':
        r = iv(a[0], ctx)
        if r[0] <= 0 <= r[1]:
            return (0.0, max(-r[0], r[1]))
        return (min(abs(r[0]), abs(r[1])), max(abs(r[0]), abs(r[1])))
    if op == 'max':
        x, y = iv(a[0], ctx), iv(a[1], ctx)
        return (max(x[0], y[0]), max(x[1], y[1]))
    if op == 'min':
        x, y = iv(a[0], ctx), iv(a[1], ctx)
        return (min(x[0], y[0]), min(x[1], y[1]))
    if op == 'masked':
        return iv(a[0], assume(ctx, t.data, True))
    if op == 'ite':
        c, x, y = a
        d = decide(c, ctx)
        if d is True:
            return iv(x, assume(ctx, c, True))
        if d is False:
            return iv(y, assume(ctx, c, False))
        r = None
        if ctx.deep:
            for z, truth in ((x, True), (y, False)):
                try:
                    r2 = iv(z, assume(ctx, c, truth)) if z.valid is not FALSE else None
                except Infeasible:
                    continue
                if r2 is not None:
                    r = r2 if r is None else i_join(r, r2)
            if r is None:
                raise Infeasible
            return r
        if x.valid is not FALSE:
            r = iv(x, assume(ctx, c, True))
        if y.valid is not FALSE:
            r2 = iv(y, assume(ctx, c, False))
            r = r2 if r is None else i_join(r, r2)
        return r or (0.0, 0.0)
    if op == 'iteatom':
        c, x = a
        d = decide(c, ctx)
        if d is False:
            return (0.0, 0.0)
        try:
            r = iv(x, assume(ctx, c, True))
        except Infeasible:
            if d is True:
                raise
            return (0.0, 0.0)
        return r if d is True else i_join(r, (0.0, 0.0))
    if op == 'fn' and t.data in ('months_of_day', 'month_start'):
        lo, hi = iv(a[0], ctx)
        if abs(lo) > 1e7 or abs(hi) > 1e7:
            return (-INF, INF)
        if t.data == 'month_start':
            return (_month_start(math.floor(lo)), _month_start(math.ceil(hi)))
        return (math.floor(lo / 30.436875) - 2, math.ceil(hi / 30.436875) + 2)
    if op == 'fn':
        return FN_IV.get(t.data, (-INF, INF))
    return (-INF, INF)


FN_IV = {}


def i_cot(a):
    lo, hi = a
    if abs(lo) == INF or abs(hi) == INF or hi - lo >= math.pi:
        return (-INF, INF)
    n0, n1 = math.floor(lo / math.pi), math.floor(hi / math.pi)
    if n0 != n1 or lo == n0 * math.pi:
        return (-INF, INF)
    return (1 / math.tan(hi) if math.tan(hi) != 0 else -INF,
            1 / math.tan(lo) if math.tan(lo) != 0 else INF)


def decide(c, ctx=ROOT):
    """True / False if the boolean term is decided by intervals, else None."""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c.op == 'lt':
        i = iv(c.args[0], ctx)
        if i[1] < 0 or (i[1] == 0 and _open_below(c.args[0], 0)):
            return True
        if i[0] >= 0:
            return False
        return None
    if c.op == 'eq0':
        i = iv(c.args[0], ctx)
        if i[0] > 0 or i[1] < 0:
            return False
        return None
    if c.op == 'not':
        d = decide(c.args[0], ctx)
        return None if d is None else not d
    if c.op == 'and':
        r = True
        for a in c.args:
            d = decide(a, ctx)
            if d is False:
                return False
            if d is None:
                r = None
        return r
    return None


# ---------------------------------------------------------------------------
# printing

def cstr(c):
    s = []
    for k, v in sorted(c.items()):
        f = str(v) if v.denominator == 1 else (repr(float(v)))
        s.append(f + ('' if k == 0 else '*pi' if k == 1 else f'*pi^{k}'))
    return '+'.join(s) or '0'


def show(t, depth=4):
    if t is None:
        return '?'
    if t.op == 'const':
        return cstr(t.data)
    if t.op == 'atom':
        return t.data + ('[' + ','.join(show(i, 1) for i in t.args) + ']' if t.args else '')
    if t.op == 'idx':
        return t.data
    if t.op in ('true', 'false', 'nan'):
        return t.op
    if t.op == 'inf':
        return 'inf' if t.data else '-inf'
    if depth <= 0:
        return '…'
    a = [show(x, depth - 1) for x in t.args]
    if t.op == 'add':
        return '(' + ' + '.join(a) + ')'
    if t.op == 'mul':
        return '*'.join(a)
    if t.op == 'recip':
        return '1/(' + a[0] + ')'
    if t.op == 'powi':
        return f'{a[0]}^{t.data}'
    if t.op == 'fn':
        return f'{t.data}({", ".join(a)})'
    if t.op == 'masked':
        return f'[{a[0]} if {show(t.data, depth - 1)}]'
    return f'{t.op}({", ".join(a)})'


def walk(t, seen=None):
    """All nodes of the DAG, children first."""
    if seen is None:
        seen = set()
    out = []
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if done:
            out.append(x)
            continue
        if x.uid in seen:
            continue
        seen.add(x.uid)
        stack.append((x, True))
        for k in x.args:
            stack.append((k, False))
        if x.valid is not None and x.valid is not TRUE and x.valid is not x:
            stack.append((x.valid, False))
        if x.op == 'masked':
            stack.append((x.data, False))
    return out


def atoms_of(t):
    return {x.data for x in walk(t) if x.op == 'atom'}
