"""Domains and ranges: every operation on the way to a result is inside its domain, and the result inside given bounds.

Interval evaluation of the value-number DAG (terms.iv), with the guards of where/if-then-else assumed in their branches, and with
bisection of the directions on which an undecided goal depends (outermost inverse trigonometric functions and guard expressions).
The bisected range of a direction is what the analysis has itself derived for it, so a goal proved on every piece holds throughout.
"""

import math

from . import terms as T
from .terms import AnalysisGap, Ctx, INF, Infeasible

TOTAL = {'const', 'pi', 'atom', 'idx', 'add', 'mul', 'sin', 'cos', 'tan', 'arctan', 'arctan2', 'floor', 'abs', 'max', 'min', 'clip',
         'masked', 'ite', 'iteatom', 'round', 'true', 'false', 'lt', 'eq0', 'not', 'and', 'or', 'bool', 'ite_b', 'sel', 'rank', 'fn', 'exp'}


class Deep:
    """What conditional evaluation of one subject needs: the directions that may be overridden, and which terms depend on them."""

    def __init__(self, *subjects):
        self.cores = {}
        self.guards = set()
        nodes = []
        seen = set()
        for s in subjects:
            nodes += T.walk(s, seen)
        for n in nodes:
            if n.op in ('arcsin',):
                self._core(n)
            elif n.op in ('lt', 'eq0'):
                v = self._core(n.args[0])
                if v is not None:
                    self.guards.add(v)
        self.deps = {}
        self.root = Ctx(deep=self)
        self._fl = {}

    def _core(self, t):
        d = T.direction(t)
        if d is not None:
            self.cores.setdefault(d[0], (t, d[1], d[2]))
            return d[0]
        return None

    def cores_of(self, t):
        r = self.deps.get(t.uid)
        if r is not None:
            return r
        for n in T.walk(t):
            if n.uid in self.deps:
                continue
            out = frozenset()
            for a in n.args:
                out |= self.deps.get(a.uid, frozenset())
            if n.op == 'masked':
                out |= self.deps.get(n.data.uid, frozenset())
            if n.op in ('add', 'mul', 'ite', 'iteatom', 'mod', 'max', 'min', 'masked', 'arcsin', 'abs', 'sqrt', 'powi', 'recip', 'floor') \
                    or len(n.lin) > 1 or next(iter(n.lin.values()), (0, n))[1] is n:
                d = T.direction(n) if not n.isbool else None
                if d is not None and d[0] in self.cores:
                    out |= {d[0]}
            self.deps[n.uid] = out
        return self.deps[t.uid]

    def floors(self, t, ctx):
        """x - m*floor(x/m) is in [0, m): the bound a linear form gets from the floors in it."""
        fl = self._fl.get(t.uid)
        if fl is None:
            fl = []
            if len(t.lin) > 1 and not t.isbool:
                for k, (c, a) in t.lin.items():
                    if a is not None and a.op == 'floor':
                        d = T.add(t, T.scale(T.sub(a.args[0], a), c))
                        if len(d.lin) < len(t.lin):
                            fl.append((d, T.c_float(c)))
            self._fl[t.uid] = fl
        r = (-INF, INF)
        for d, f in fl:
            s = (0.0, 0.0)
            for c, a in d.lin.values():
                g = T.c_float(c)
                s = T.i_add(s, (g, g) if a is None else T.i_mul((g, g), T.iv(a, ctx)))
            r = T.i_meet(r, T.i_add(s, T.i_mul((-f, -f), (0.0, 1.0))))
        return r

    # -- proving ----------------------------------------------------------

    def splittable(self, t):
        """Outermost bisectable directions below t: [vfp]."""
        out = []
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            d = T.direction(x) if x.op == 'arcsin' else None
            if d is not None and d[0] in self.cores:
                if d[0] not in out:
                    out.append(d[0])
                continue
            if not (self.cores_of(x)):
                continue
            stack.extend(x.args[1:] if x.op == 'sqrt' and x.data == 'cos' else x.args)
            if x.op == 'masked':
                stack.append(x.data)
        return out

    def span(self, vfp):
        t, k, c = self.cores[vfp]
        lo, hi = T.iv(t, self.root)
        a, b = (lo - c) / k, (hi - c) / k
        return (min(a, b), max(a, b))

    def prove(self, subject, goal, ctx=None, budget=6000, width=1e-11):
        """goal(ctx) holds on every piece of the bisected directions below subject; returns None or the piece that fails."""
        ctx = ctx or self.root
        try:
            if goal(ctx):
                return None
        except Infeasible:
            return None
        dirs = [v for v in self.splittable(subject) if all(abs(x) != INF for x in self.span(v))]
        if not dirs:
            return {}
        first = {}
        for v in dirs:
            lo, hi = self.span(v)
            if v in ctx.over:
                lo, hi = max(lo, ctx.over[v][0]), min(hi, ctx.over[v][1])
                if lo > hi:
                    return None
            first[v] = (lo, hi)
        stack = [first]
        n = 0
        while stack:
            piece = stack.pop()
            n += 1
            try:
                if goal(Ctx({**ctx.over, **piece}, self)):
                    continue
            except Infeasible:
                continue
            v = max(piece, key=lambda w: piece[w][1] - piece[w][0])
            lo, hi = piece[v]
            if hi - lo < width or n > budget:
                return piece
            mid = (lo + hi) / 2
            if mid <= lo or mid >= hi:
                return piece
            stack.append({**piece, v: (mid, hi)})
            stack.append({**piece, v: (lo, mid)})
        return None

    def within(self, t, lo, hi, ctx=None):
        def goal(c):
            r = T.iv(t, c)
            return r[0] >= lo and r[1] <= hi
        return self.prove(t, goal, ctx)

    def by_cases(self, t, lo, hi, depth=3):
        """within(), with the guards inside t taken true and false in turn; returns the cases that fail."""
        def goal(t, ctx):
            r = T.iv(t, ctx)
            return r[0] >= lo and r[1] <= hi

        def go(t, ctx, depth, case):
            try:
                if goal(t, ctx):
                    return None
                if not depth:
                    return case
                for n in T.walk(t):
                    if n.op not in ('ite', 'iteatom'):
                        continue
                    c = n.args[0]
                    while c.op == 'not':
                        c = c.args[0]
                    if c.op not in ('lt', 'eq0') or any(x.op in ('ite', 'iteatom', 'arctan2') for x in T.walk(c)):
                        continue
                    bad = []
                    for truth in (True, False):
                        try:
                            x = T.assume(ctx, c, truth)
                            x = Ctx(x.over, self)
                            t2 = T.under(T.replace(t, {c.fp: T.TRUE if truth else T.FALSE}), x)
                            r = go(t2, x, depth - 1, case + [(c, truth)])
                        except Infeasible:
                            continue
                        if r is not None:
                            bad += r or [(c, truth)]
                    if not bad:
                        return None
                    return bad
                return case
            except Infeasible:
                return None
        return go(t, self.root, depth, [])

    def describe(self, piece):
        if not piece:
            return ''
        return '; '.join(f'{T.show(self.cores[v][0], 2)[:80]} near {(p[0] + p[1])/2*self.cores[v][1] + self.cores[v][2]:.8g}'
                         for v, p in list(piece.items())[:2])

    # -- domains ----------------------------------------------------------

    def domain(self, n, ctx):
        """Is operation n inside its domain?"""
        op, a = n.op, n.args
        if op == 'arcsin':
            r = T.iv(a[0], ctx)
            return -1 <= r[0] and r[1] <= 1
        if op == 'arccos':
            r = T.iv(a[0], ctx)
            return -1 <= r[0] and r[1] <= 1
        if op == 'sqrt':
            return n.data == 'cos' or T.iv(a[0], ctx)[0] >= 0
        if op == 'recip':
            b = a[0]
            if b.op == 'mul' and T.is_const(b.args[0]):
                b = b.args[1]
            if b.op == 'tan':
                lo, hi = T.iv(b.args[0], ctx)
                return abs(lo) != INF and abs(hi) != INF and math.floor(lo/math.pi) == math.floor(hi/math.pi) and \
                    lo > math.floor(lo/math.pi)*math.pi
            r = T.iv(b, ctx)
            return r[0] > 0 or r[1] < 0
        if op == 'log':
            return T.iv(a[0], ctx)[0] > 0
        if op == 'powi':
            return True
        if op == 'pow':
            b, e = T.iv(a[0], ctx), T.iv(a[1], ctx)
            return b[0] > 0 or (b[0] >= 0 and e[0] > 0)
        if op == 'mod':
            r = T.iv(a[1], ctx)
            return r[0] > 0 or r[1] < 0
        if op == 'exp':
            return T.iv(a[0], ctx)[1] < 700
        if op in ('nan', 'inf', 'div'):
            return False
        return True

    def unsafe(self, t, extra=()):
        """Operations below t outside their domain: [(node, piece)]."""
        bad = {}
        nodes = [n for n in T.walk(t) if not n.isbool]
        for n in nodes:
            if not self.domain(n, self.root):
                bad[n.uid] = n
        if not bad:
            return []
        reach = {}
        for n in T.walk(t):
            reach[n.uid] = n.uid in bad or any(reach.get(a.uid) for a in n.args) or \
                (n.op == 'masked' and reach.get(n.data.uid, False))
        out = {}
        done = set()

        def visit(x, ctx, key):
            if not reach.get(x.uid) or (x.uid, key) in done:
                return
            done.add((x.uid, key))
            if x.uid in bad and x.uid not in out:
                p = self.prove(x, lambda c: self.domain(x, c), ctx)
                if p is not None:
                    out[x.uid] = (x, p)
            if x.op in ('ite', 'iteatom'):
                c = x.args[0]
                visit(c, ctx, key)
                for z, truth in zip(x.args[1:], (True, False)):
                    d = T.decide(c, ctx)
                    if d is not None and d is not truth:
                        continue
                    try:
                        visit(z, T.assume(ctx, c, truth), key + ((c.uid, truth),))
                    except Infeasible:
                        continue
                return
            for a in x.args:
                visit(a, ctx, key)
        visit(t, self.root, ())
        return list(out.values())


# ---------------------------------------------------------------------------
# the equation of time

DAY = {0: T.Fraction(1440)}


def _mul_factor(t, s):
    """q with t == q*s for a product term, or None."""
    if t.fp == s.fp:
        return T.const(1)
    if t.op != 'mul':
        return None
    for x, y in (t.args, t.args[::-1]):
        q = _mul_factor(x, s)
        if q is not None:
            return T.mul(q, y)
    return None


def eot_bound(t):
    """s with t = whole number of days + [-s, s] (minutes), by the lemma

        atan2(c*sin l + r, cos l) = l + d (mod 2 pi),  |d| <= asin(|1-c|/(1+c)) + asin(|r|/min(1, c))

    for a right ascension and an ecliptic longitude l; or None when t has no such form."""
    s = T.strip_multiples(t, DAY)
    for k, (coef, a) in s.lin.items():
        if a is None or a.op != 'arctan2':
            continue
        if T.c_mul(coef, {1: T.Fraction(2)}) not in (DAY, {0: T.Fraction(-1440)}):
            continue
        y, x = a.args
        for lon in _longitudes(x):
            sl = T.sin(lon)
            # y = c * sin(l) + r
            c = T.const(0)
            for k2, (c2, b) in y.lin.items():
                if b is None:
                    continue
                for g in ((sl, 1), (T.neg(sl), -1)):
                    q = _mul_factor(b, g[0])
                    if q is not None:
                        c = T.add(c, T.scale(q, T.c_mul(c2, {0: T.Fraction(g[1])})))
                        break
            r = T.sub(y, T.mul(c, sl))
            ci, ri = T.iv(c), T.iv(r)
            if ci[0] <= 0 or max(abs(ri[0]), abs(ri[1])) >= min(1, ci[0]):
                continue
            dmax = max(math.asin(abs(1 - v)/(1 + v)) for v in ci) + math.asin(max(abs(ri[0]), abs(ri[1]))/min(1, ci[0]))
            w = T.strip_multiples(expand(T.add(T.sub(s, T.scale(a, coef)), T.scale(lon, coef))), DAY)
            wi = T.iv(w)
            m = round((wi[0] + wi[1])/2/1440) if abs(wi[0]) != INF and abs(wi[1]) != INF else 0
            b = max(abs(wi[0] - 1440*m), abs(wi[1] - 1440*m)) + abs(T.c_float(coef))*dmax
            if b < 1440:
                return b, a
    return None


def same_minutes(a, b, bound=None):
    """Are a and b, equal modulo one day, equal? Yes when both are within half a day."""
    if T.strip_multiples(a, DAY).fp != T.strip_multiples(b, DAY).fp:
        return False
    s = bound or eot_bound(a) or eot_bound(b)
    if s is None or s[0] > 60:
        return False
    lim = 1440 - s[0] - 1e-9
    return all(Deep(t).by_cases(t, -lim, lim) is None for t in (a, b))


def expand(t, memo=None):
    """t with products of sums multiplied out at the top level."""
    out = T.const(0)
    for c, a in t.lin.values():
        if a is None:
            out = T.add(out, T.const(c))
            continue
        if a.op == 'mul':
            x, y = (expand(z) for z in a.args)
            if len(x.lin) * len(y.lin) > 1 and len(x.lin) * len(y.lin) < 2000:
                s = T.const(0)
                for cx, p in x.lin.values():
                    for cy, q in y.lin.values():
                        f = T.c_mul(cx, cy)
                        s = T.add(s, T.const(f) if p is None and q is None else T.scale(q, f) if p is None
                                  else T.scale(p, f) if q is None else T.scale(T.mul(p, q), f))
                out = T.add(out, T.scale(s, c))
                continue
        out = T.add(out, T.scale(a, c))
    return out


def _longitudes(x):
    """l with x == cos(l)."""
    if len(x.lin) != 1:
        return
    (c, a), = x.lin.values()
    if a is None or c not in (T.C1, {0: T.Fraction(-1)}):
        return
    if a.op == 'cos':
        lon = a.args[0]
    elif a.op == 'sin':
        lon = T.sub(T.const({1: T.Fraction(1, 2)}), a.args[0])
    else:
        return
    if c != T.C1:
        lon = T.add(lon, T.const({1: T.Fraction(1)}))
    yield lon
    yield T.neg(lon)
