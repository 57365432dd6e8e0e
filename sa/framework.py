"""Tasks, reports and the runner of the checks."""

import json
import os
import sys
import time
import traceback
import multiprocessing as mp

from . import interp as I
from . import terms as T
from . import arrays as A
from .arrays import PyExc
from .terms import AnalysisGap
from .world import Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('SA_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Report:
    """What one task found."""
    def __init__(self, config):
        self.config = config
        self.violations = []      # dicts
        self.gaps = []
        self.obligations = 0      # comparisons and rules decided
        self.kinds = {}
        self.notes = []
        self.samples = []
        self.it = None
        self.open = []            # undecided

    def done(self, kind, n=1):
        self.obligations += n
        self.kinds[kind] = self.kinds.get(kind, 0) + n

    def fail(self, rule, detail, loc=None, config=None):
        cond = ''
        if self.it is not None and getattr(self.it, 'trace', None):
            try:
                cond = ' and '.join(('' if v else 'not ') + T.show(c) for c, v in self.it.trace)
            except Exception:     # noqa: BLE001
                cond = ''
        self.violations.append(dict(
            rule=rule, where=I.fmt_loc(loc) if loc else '-', function=loc[1] if loc else '-',
            file=short(loc[0]) if loc and loc[0] else '-', line=loc[2] if loc else 0,
            detail=detail[:600], config=config or self.config, path=cond[:400]))

    def check(self, ok, rule, detail, loc=None, kind=None):
        self.done(kind or rule)
        if not ok:
            self.fail(rule, detail() if callable(detail) else detail, loc)
        return ok


def short(p):
    i = p.find('/src/')
    return p[i + 1:] if i >= 0 else p


class Task:
    """fn(it, rep) is explored on every trace; post(paths, rep) runs on them afterwards."""
    def __init__(self, config, fn, post=None, raises_ok=False, max_paths=None, weight=1):
        self.config = config
        self.fn = fn
        self.post = post
        self.raises_ok = raises_ok
        self.max_paths = max_paths
        self.weight = weight


def run_task(task):
    t0 = time.time()
    rep = Report(task.config)
    stats = I.Stats()

    def setup(it):
        rep.it = it
        try:
            return task.fn(it, rep)
        except Violation as v:
            rep.fail(v.rule, v.detail, v.loc)
        except AnalysisGap as g:
            rep.gaps.append((str(g), I.fmt_loc(T.Loc.cur)))
        return None

    paths = []
    try:
        paths = I.explore(setup, **({'max_paths': task.max_paths} if task.max_paths else {}), stats=stats)
    except AnalysisGap as g:
        rep.gaps.append((str(g), I.fmt_loc(T.Loc.cur)))
    except RecursionError:
        rep.gaps.append(('recursion too deep', I.fmt_loc(T.Loc.cur)))
    except Exception as e:                                     # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rep.gaps.append((f'analyser error {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})',
                         I.fmt_loc(T.Loc.cur)))
    if not task.raises_ok:
        for p in paths:
            rep.done('completes')
            if p.exc is not None:
                rep.it = p.it
                rep.fail('raises', f'{p.exc.name()}: {p.exc.msg}', p.exc.loc)
    if task.post is not None:
        try:
            rep.it = None
            task.post(paths, rep)
        except Violation as v:
            rep.fail(v.rule, v.detail, v.loc)
        except AnalysisGap as g:
            rep.gaps.append((str(g), '-'))
    rep.it = None
    return dict(config=rep.config, violations=rep.violations, gaps=rep.gaps, obligations=rep.obligations,
                kinds=rep.kinds, notes=rep.notes, samples=rep.samples[:2], functions=stats.functions, calls=stats.calls,
                ext=stats.ext_calls, statements=len(stats.statements), paths=stats.paths, wall=time.time() - t0)


_TASKS = []


def _child(i):
    sys.setrecursionlimit(200000)
    import threading
    out = []
    threading.stack_size(512 * 1024 * 1024)

    def go():
        out.append(run_task(_TASKS[i]))
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return i, out[0]


def run_tasks(tasks, jobs=None):
    global _TASKS
    _TASKS = tasks
    jobs = jobs or min(int(os.environ.get('SA_JOBS', 8)), os.cpu_count() or 1, max(1, len(tasks)))
    res = [None] * len(tasks)
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].weight)
    if jobs == 1:
        for i in order:
            res[i] = _child(i)[1]
        return res
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs, maxtasksperchild=None) as pool:
        for i, r in pool.imap_unordered(_child, order, chunksize=1):
            res[i] = r
    return res


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def matches(v, prop, k):
    return (k.get('property') == prop and k.get('rule', v['rule']) == v['rule']
            and k.get('file', v['file']) == v['file']
            and k.get('function', v['function']) == v['function']
            and (k.get('config') is None or v['config'] in k['config'] or k['config'] == v['config'])
            and (k.get('detail') is None or k['detail'] in v['detail']))


def dedupe(vs):
    seen, out = {}, []
    for v in vs:
        k = (v['rule'], v['file'], v['function'], v['line'], v['detail'])
        if k in seen:
            seen[k]['configs'].append(v['config'])
            continue
        v = dict(v, configs=[v['config']])
        seen[k] = v
        out.append(v)
    return out


def main(prop, spec, tier, seed):
    """spec: dict(tasks=fn(tier)->[Task], combine=fn(results)->violations, minimum={kind: n}, explanation, assumptions)"""
    t0 = time.time()
    tasks = spec['tasks'](tier)
    results = run_tasks(tasks)
    vs, gaps, kinds, funcs, calls, ext = [], [], {}, set(), set(), set()
    obligations = paths = statements = 0
    samples = []
    for r in results:
        vs += r['violations']
        gaps += [(r['config'],) + g for g in r['gaps']]
        obligations += r['obligations']
        paths += r['paths']
        statements = max(statements, r['statements'])
        for k, n in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + n
        funcs |= r['functions']
        calls |= r['calls']
        ext |= r['ext']
        samples += r['samples']
    vs = dedupe(vs)
    known = load_known()
    reported, listed = [], []
    for v in vs:
        k = next((k for k in known if matches(v, prop, k)), None)
        (listed if k else reported).append((v, k))
    missing = [f'{k}: {kinds.get(k, 0)} < {n}' for k, n in spec.get('minimum', {}).items() if kinds.get(k, 0) < n]
    need_fn = [f for f in spec.get('anchors', []) if not any(f in str(x) for x in funcs)]

    for v, k in listed:
        print(f'KNOWN-FINDING: property={prop} {k.get("summary", v["detail"])}')
    for v, _ in reported:
        print(f'{v["rule"]}: {v["where"]}: {v["detail"]}')
        print(f'    in {len(v["configs"])} configuration(s), e.g. {v["configs"][0]}'
              + (f'; path: {v["path"]}' if v['path'] else ''))
    for c, m, l in gaps[:20]:
        print(f'ANALYSIS-GAP: {c}: {m} at {l}')
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(wall, 2), violations=len(reported),
              assumptions=spec.get('assumptions', []),
              coverage=dict(
                  explanation=spec['explanation'],
                  configurations=len(tasks), traces=paths, rule_instances=obligations, rule_instances_by_rule=kinds,
                  functions_analysed=sorted(str(f) for f in funcs), call_sites=len(calls),
                  statements_analysed=statements, library_functions=sorted(str(e) for e in ext),
                  analysis_gaps=[list(g) for g in gaps[:50]], files_expected_but_not_reached=need_fn, known_findings=len(listed),
                  reports=[v for v, _ in reported][:50], samples=samples[:8] or [t.config for t in tasks[:8]]))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop}: {len(tasks)} configurations, {paths} traces, {obligations} rule instances, '
          f'{len(funcs)} functions, {len(calls)} call sites; {len(reported)} violation(s), '
          f'{len(listed)} known, {len(gaps)} gap(s); {wall:.1f} s')
    if reported:
        rp = os.path.join(EVIDENCE, f'{prop}.violation.json')
        with open(rp, 'w') as f:
            json.dump([v for v, _ in reported], f, indent=1, default=str)
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    rp = os.path.join(EVIDENCE, f'{prop}.violation.json')
    if os.path.exists(rp):
        os.remove(rp)
    if gaps or missing:
        print('ANALYSIS-BROKEN: ' + '; '.join([f'{len(gaps)} gap(s)'] * bool(gaps) + missing))
        return 2
    return 0
