"""Rules on the algorithms themselves (C04-C07): each quantity against the published formulas in /verif/spec."""

from fractions import Fraction

from . import terms as T
from . import arrays as A
from . import specs as S
from . import world as W
from .arrays import Arr
from .checks import LAT_DIM, LON_DIM, QUANT, check, got
from .checks_derived import value
from .framework import Task
from .world import ENGINES, PARTS, USECASES

def position(it, alg, place):
    u, lat, lon = place
    if alg != 'iqbal':
        return S.call(it, alg, 'position', u, lat, lon)
    i8 = lambda t: Arr((), [t], 'i8', 'sc')         # noqa: E731
    day = T.floor(T.scale(u, {0: Fraction(1, 86400)}))
    m = A.months_of_day(day)
    y = T.floor(T.scale(m, {0: Fraction(1, 12)}))
    one = T.const(1)
    month = T.add(T.sub(m, T.scale(y, {0: Fraction(12)})), one)
    dom = T.add(T.sub(day, A.month_start(m)), one)
    hour = T.scale(T.sub(u, T.scale(day, {0: Fraction(86400)})), {0: Fraction(1, 3600)})
    doy = S.call(it, 'iqbal', 'day_of_year', i8(T.add(y, T.const(1970))), i8(month), i8(dom))
    angle = S.call(it, 'iqbal', 'day_angle', doy, hour)
    return S.call(it, 'iqbal', 'position', angle, hour, lat, lon)


def angle_key(name):
    if name == 'azimuth':
        return W.az_key
    if name == 'eot':
        return lambda t: W.mod_key(t, {0: Fraction(1440)})
    return W.key


def spa_task(alg, eng, uc, part):
    def fn(it, rep):
        W.declare()
        r = W.simple(it, uc, alg, eng, False, part)
        tax, jax, iax = W.axes_for(it, uc, part)

        def at(name, dim, ax):
            return T.atom(name, (T.idxvar('@' + dim) if isinstance(ax, A.Ax) else T.const(0),))
        u = at('u', 'time', tax)
        ref = position(it, alg, (u, at('lat', LAT_DIM[uc], jax), at('lon', LON_DIM[uc], iax)))
        for q in QUANT:
            da = got(it, r, q)
            t = value(da, q)
            k = angle_key(q)
            rep.done('published')
            if W.same(t, ref[q], k):
                continue
            loc, txt = W.show_mismatch(t, ref[q])
            rep.fail('published', f'{q} is not that of the published formulas: {txt}', loc or t.prov)
    return Task(f'{uc}/{alg}/{eng}/{part}', fn)


def register(prop, alg, anchors):
    @check(prop,
           f'Value numbering of the five quantities of algorithm "{alg}" without refraction, for both engines where there are two, every use '
           f'case and size relation, against the value numbers of the published formulas written down in /verif/spec/{alg}.py (azimuth as an '
           'angle, equation of time modulo one day).',
           minimum={'published': 5*17*len(ENGINES[alg])}, anchors=anchors)
    def c(tier):
        return [spa_task(alg, eng, uc, part) for eng in ENGINES[alg] for uc in USECASES for part in PARTS[uc]]
    return c


register('C04', 'nrel', ['ne_nrel.py'])
register('C05', 'psa', ['ne_psa.py', 'py_psa.py'])
register('C06', 'soltrack', ['ne_soltrack.py', 'py_soltrack.py'])
register('C07', 'iqbal', ['ne_iqbal.py', 'py_iqbal.py'])
