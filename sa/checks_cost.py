"""The size of what is computed on the way (C33)."""

from . import arrays as A
from . import terms as T
from . import world as W
from .arrays import Arr
from .checks import check
from .checks_io import ZONES, declare as declare_io, times_for
from .checks_misc import reads
from .framework import Task
from .world import COMBOS, PARTS, USECASES

LIMIT = 4096        # numbers per element: the rows of a table, the terms of a series


def degrees(t):
    """dimension -> the highest power of it in the size t."""
    out = {}
    for _, a in t.lin.values():
        if a is None:
            continue
        if a.op == 'mul':
            d = {}
            for x in a.args:
                for n, k in degrees(x).items():
                    d[n] = d.get(n, 0) + k
        elif a.op == 'atom':
            d = {a.fp: 1} if T.show(a).startswith('dim:') else {}
        else:
            d = {}
            for x in a.args:
                for n, k in degrees(x).items():
                    d[n] = max(d.get(n, 0), k)
        for n, k in d.items():
            out[n] = max(out.get(n, 0), k)
    return out


class Sizes:
    """Within it every array allocated is recorded; afterwards none may be larger than `what` by a power of a size."""
    def __init__(self, rep, what, axes):
        self.rep, self.what = rep, what
        self.dims = set()
        for a in axes:
            if isinstance(a, A.Ax):
                self.dims |= set(degrees(a.size))

    def __enter__(self):
        A.ALLOCATED.append({})

    def __exit__(self, etype, *a):
        seen = A.ALLOCATED.pop()
        if etype is not None:
            return
        for axes, loc in seen.values():
            self.rep.done('arrays')
            deg, const = {}, 1
            for x in axes:
                if isinstance(x, int):
                    const *= x
                else:
                    for n, k in degrees(x.size).items():
                        deg[n] = deg.get(n, 0) + k
            if any(k > 1 or n not in self.dims for n, k in deg.items()) or deg and const > LIMIT:
                shape = ', '.join(str(x) if isinstance(x, int) else T.show(x.size, 2) for x in axes)
                self.rep.fail('arrays', f'{self.what} builds an array of shape ({shape})', loc)
                return


@check('C33',
       'The symbolic shape of every array allocated while the calls are followed (all use cases, algorithms, engines, containers of times, '
       'attributes, methods, time conversions) is read as a polynomial of the numbers of times and places: no array may have a power of one of them above the '
       'first, nor times and places multiplied where the result has one axis.',
       minimum={'arrays': 1500}, anchors=['_core.py', '_base.py', 'usecases.py', 'libspa', 'datetime.py'],
       assumptions=['numpy, pandas, xarray and numexpr use memory in proportion to their arguments and results'])
def c33(tier):
    tasks = []

    def follow(it, rep, uc, axes, call):
        tax, jax, iax = axes
        with Sizes(rep, f'{uc}()', axes):
            r = call()
        for n, rd in reads(it, r):
            with Sizes(rep, f'reading {n} of {uc}()', axes):
                rd()

    for uc in USECASES:
        for alg, eng in COMBOS:
            for refr in (True, False):
                def fn(it, rep, uc=uc, alg=alg, eng=eng, refr=refr):
                    W.declare()
                    W.public(it)
                    axes = W.axes_for(it, uc, PARTS[uc][0])
                    follow(it, rep, uc, axes, lambda: W.simple(it, uc, alg, eng, refr, PARTS[uc][0]))
                tasks.append(Task(f'{uc}/{alg}/{eng}/refraction={refr}', fn))
        for kind, zone in [('index', z) for z in ZONES] + [('M8[s]', 'naive'), ('M8[ns]', 'naive')]:
            def conts(it, rep, uc=uc, kind=kind, zone=zone):
                declare_io()
                W.public(it)
                axes = W.axes_for(it, uc, PARTS[uc][0])
                t, tz = times_for(it, kind, zone, axes[0])
                follow(it, rep, uc, axes, lambda: W.run_usecase(it, uc, t, W.coord('lat', axes[1]), W.coord('lon', axes[2])))
            tasks.append(Task(f'{uc}/{kind}/{zone}', conts))

    def helpers(it, rep):
        W.declare()
        axes = W.axes_for(it, 'sites', 'distinct')
        for f in ('true_solar_time', 'universal_time_coordinated'):
            for kind in ('M8[s]', 'M8[ns]', 'index'):
                g = it.load('sunwhere.utils.datetime').ns[f]
                with Sizes(rep, f'{f}()', axes):
                    it.call(g, [W.times_input(it, axes[0], kind), W.coord('lon', axes[1])], {})
    tasks.append(Task('helpers', helpers))
    return tasks
