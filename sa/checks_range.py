"""Domains and ranges of the five quantities (C08)."""

from . import arrays as A
from . import interp as I
from . import ranges as R
from . import specs as S
from . import terms as T
from . import world as W
from .checks import LAT_DIM, LON_DIM, check, got
from .checks_derived import value
from .checks_spa import position
from .framework import Task
from .world import COMBOS, PARTS, QUANT, USECASES

EPS = 1e-6          # degrees: the roundings of double precision
LIMITS = {'zenith': (0, 180), 'azimuth': (-180, 180), 'declination': (-90, 90)}
HALF_HOUR = 30.0

RULE = {'arcsin': 'the argument of an inverse sine or cosine may leave [-1, 1]', 'arccos': 'the argument of arccos may leave [-1, 1]',
        'sqrt': 'the radicand may be negative', 'recip': 'the divisor may be zero', 'log': 'the argument of log may be zero or less',
        'pow': 'the base may be negative or zero', 'mod': 'the modulus may be zero', 'exp': 'exp may overflow'}


def eot_rule(it, rep, deep, t, alg, place):
    r = T.iv(t, deep.root)
    if -HALF_HOUR <= r[0] and r[1] <= HALF_HOUR:
        return
    b = R.eot_bound(t)
    if b is None and place is not None:
        # the same right ascension and mean longitude written in another form
        ref = position(it, alg, place)['eot']
        if W.mod_key(t, R.DAY) == W.mod_key(ref, R.DAY):
            b = R.eot_bound(ref)
    if b is None:
        rep.fail('half an hour', f'eot is not a mean longitude minus a right ascension modulo one day that stays within half an hour: '
                 f'{T.show(t)[:200]}', t.prov)
        return
    s = b[0]
    if s > HALF_HOUR:
        rep.fail('half an hour', f'eot is within {s:.1f} minutes of a whole number of days, not 30', b[1].prov)
        return
    rep.notes.append(f'eot is a whole number of days plus at most {s:.2f} minutes')
    bad = deep.by_cases(t, -1440 + s + 1e-9, 1440 - s - 1e-9)
    if bad is not None:
        cs = ' and '.join(('' if v else 'not ') + T.show(c)[:80] for c, v in bad[:2])
        lo, hi = r
        rep.fail('half an hour', f'the wrap of eot leaves values a day off (range before it is bounded: [{lo:.6g}, {hi:.6g}], the sum is within '
                 f'{s:.1f} minutes of a whole number of days)' + (f' when {cs}' if cs else ''), t.prov)


def fn_for(alg, eng, uc, refr, part):
    def fn(it, rep):
        W.declare()
        A.NARROWINGS.clear()
        A.OBLIGATIONS.clear()
        r = W.simple(it, uc, alg, eng, refr, part)
        das = {q: got(it, r, q) for q in QUANT}
        for kind, t, src, dst, loc in A.NARROWINGS:
            if kind == 'int':
                rep.fail('overflow', f'{T.show(t)[:120]} does not fit in {dst}', loc)
        for kind, t, loc in A.OBLIGATIONS:
            if kind == 'index':
                rep.done('index')
                i, n = t.args
                lo, hi = T.iv_whole(i)
                n = T.iv(n)[0]
                if lo < -n or hi > n - 1:
                    rep.fail('index', f'index {T.show(i)[:100]} is in [{lo:g}, {hi:g}], of {n:g} elements', loc)
        tax, jax, iax = W.axes_for(it, uc, part)

        def at(name, dim, ax):
            return T.atom(name, (T.idxvar('@' + dim) if isinstance(ax, A.Ax) else T.const(0),))
        place = (at('u', 'time', tax), at('lat', LAT_DIM[uc], jax), at('lon', LON_DIM[uc], iax))
        for q in QUANT:
            t = value(das[q], q)
            deep = R.Deep(t)
            rep.check(t.valid is T.TRUE, 'defined', f'{q} is missing unless {T.show(t.valid)[:200]}', t.prov)
            rep.done('domain', sum(not n.isbool for n in T.walk(t)))
            bad = deep.unsafe(t)
            for n, piece in bad:
                near = deep.describe(piece)
                rep.fail('domain', f'{q}: {RULE.get(n.op, n.op)}: {T.show(n)[:160]}' + (f' ({near})' if near else ''), n.prov)
            rep.done('range')
            if bad:
                continue
            if q in LIMITS:
                lo, hi = LIMITS[q]
                piece = deep.within(t, lo - EPS, hi + EPS)
                if piece is not None:
                    v = T.iv(t, T.Ctx(piece, deep)) if piece else T.iv(t, deep.root)
                    near = deep.describe(piece)
                    rep.fail('range', f'{q} may be outside [{lo}, {hi}]: [{v[0]:.8g}, {v[1]:.8g}]' + (f' ({near})' if near else ''), t.prov)
            elif q == 'ecf':
                def finite(c):
                    v = T.iv(t, c)
                    return abs(v[0]) < 1e300 and abs(v[1]) < 1e300
                rep.check(deep.prove(t, finite) is None, 'range', 'ecf may be infinite', t.prov)
            else:
                eot_rule(it, rep, deep, t, alg, place)
    return Task(f'{uc}/{alg}/{eng}/{part}/refraction={refr}', fn)


@check('C08',
       'Interval evaluation of the value-number DAG of every quantity for every algorithm, engine, use case, size relation and refraction '
       'setting, all instants of 1700-2250, latitudes and longitudes at once: each inverse function, root, division, modulus and logarithm '
       'on the way is inside its domain (guards of where() assumed in their branches, bisection of the elevation where an interval does not '
       'decide it), no validity condition remains, table indices and integer casts fit, and the results are inside their bounds. For eot the '
       'bound is that of the lemma on atan2(cos e sin l, cos l) - l, and the wrap is shown to leave the representative within a day.',
       minimum={'domain': 5000, 'range': 1000, 'defined': 1000}, anchors=['ne_nrel.py', 'ne_psa.py', 'py_psa.py', 'ne_soltrack.py',
                                                                       'py_soltrack.py', 'ne_iqbal.py', 'py_iqbal.py'],
       assumptions=['arithmetic is that of the real numbers, with 1e-6 degrees allowed for rounding at the ends of the ranges',
                    'the tangent of a double is finite'])
def c08(tier):
    return [fn_for(alg, eng, uc, refr, part) for alg, eng in COMBOS for uc in USECASES for part in PARTS[uc] for refr in (False, True)]
