"""Rules on what the library needs from where it runs, and on what it leaves behind there (C31, C32)."""

import ast
import json
import os
import re
import subprocess
import sys
import tempfile
import tomllib

from . import m_state
from . import terms as T
from . import world as W
from .arrays import Arr, PyExc
from .checks import check
from .checks_cli import at as run_at, declare as declare_cli, place
from .checks_io import ZONES, declare as declare_io, times_for
from .checks_misc import CALLS, good_coord, bad_coord, const_times, reads
from .framework import Task
from .interp import EXT_MODULES
from .m_files import Fs
from .terms import AnalysisGap
from .world import COMBOS, PARTS, ROOT, USECASES


def zone_kinds():
    out = []
    for z in ZONES:
        out.append(('index', z))
    return out + [('M8[s]', 'naive'), ('M8[ns]', 'naive')]


# ---------------------------------------------------------------------------
# C31

# what the declared packages require themselves
REQUIRES = {'pandas': ('numpy', 'python-dateutil', 'tzdata'), 'xarray': ('numpy', 'packaging', 'pandas'), 'numexpr': ('numpy',),
            'python-dateutil': ('six',), 'matplotlib': ('contourpy', 'cycler', 'fonttools', 'kiwisolver', 'numpy', 'packaging', 'pillow',
                                                        'pyparsing', 'python-dateutil'),
            'typer': ('click', 'rich', 'shellingham', 'typing-extensions', 'annotated-doc'), 'rich': ('markdown-it-py', 'pygments')}
MODULE = {'python-dateutil': ('dateutil',), 'matplotlib': ('matplotlib', 'pylab', 'mpl_toolkits'), 'pillow': ('PIL',), 'fonttools': ('fontTools',),
          'typing-extensions': ('typing_extensions',), 'markdown-it-py': ('markdown_it',), 'annotated-doc': ('annotated_doc',)}


def project():
    p = os.path.join(os.path.dirname(ROOT.rstrip('/')), 'pyproject.toml')
    if not os.path.exists(p):
        p = '/repo/pyproject.toml'
    with open(p, 'rb') as f:
        return tomllib.load(f)['project']


def names_of(reqs):
    out = set()
    todo = [re.match(r'[A-Za-z0-9_.-]+', r).group().lower().replace('_', '-') for r in reqs]
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            todo += REQUIRES.get(n, ())
    return {m for n in out for m in MODULE.get(n, (n.replace('-', '_'),))}


def others(extra=None):
    """The packages that are known to the analyser and need not be there."""
    pr = project()
    have = names_of(pr['dependencies'] + (pr.get('optional-dependencies', {}).get(extra, []) if extra else []))
    return {m for m in EXT_MODULES if '.' not in m and m not in sys.stdlib_module_names and m not in have}


def needs(rep, what, call):
    """`call` runs without the packages that are not declared."""
    rep.done('packages')
    try:
        return call()
    except PyExc as e:
        rep.fail('packages', f'{what} fails where only the declared packages are installed: {e.name()}: {e.msg}', e.loc)
        return None


GUARDS = {'ImportError', 'ModuleNotFoundError', 'AttributeError', 'Exception', 'BaseException'}


def guarded(tree, line, col):
    """Is the position in code that is written for only some versions of Python?"""
    def walk(node, inside):
        for name, val in ast.iter_fields(node):
            for c in val if isinstance(val, list) else [val]:
                if not isinstance(c, ast.AST):
                    continue
                g = inside
                if isinstance(node, ast.Try) and name == 'body':
                    for h in node.handlers:
                        ts = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        g = g or any(t is None or getattr(t, 'id', getattr(t, 'attr', '')) in GUARDS for t in ts)
                if isinstance(node, (ast.If, ast.IfExp)) and name in ('body', 'orelse'):
                    t = ast.unparse(node.test)
                    g = g or any(w in t for w in ('version_info', 'TYPE_CHECKING', 'hasattr', 'hexversion'))
                if hasattr(c, 'lineno') and (c.lineno, c.col_offset) <= (line, col) <= (c.end_lineno, c.end_col_offset):
                    if g:
                        return True
                    if walk(c, g):
                        return True
                elif not hasattr(c, 'lineno') and walk(c, g):
                    return True
        return False
    return walk(tree, False)


def diagnostics(files, version):
    with tempfile.TemporaryDirectory() as d:
        try:
            p = subprocess.run(['pyright', '--outputjson', '--pythonversion', version, '--pythonplatform', 'Linux', *files], cwd=d, capture_output=True, text=True, timeout=300)
            out = json.loads(p.stdout)
        except (OSError, ValueError, subprocess.SubprocessError) as e:
            raise AnalysisGap(f'pyright: {e}')
    if out['summary']['filesAnalyzed'] < len(files):
        raise AnalysisGap(f'pyright analysed {out["summary"]["filesAnalyzed"]} of {len(files)} files')
    res = {}
    for g in out['generalDiagnostics']:
        rule = g.get('rule')
        # anything about a name, an import, an argument or the syntax; not what is inferred about types
        if g['severity'] != 'error' or rule not in (None, 'reportAttributeAccessIssue', 'reportMissingImports', 'reportCallIssue',
                                                    'reportGeneralTypeIssues', 'reportUndefinedVariable', 'reportInvalidStringEscapeSequence'):
            continue
        s = g['range']['start']
        res[g['file'], s['line'] + 1, s['character'], rule] = g['message'].split('\n')[0]
    return res


# modules of the standard library that later versions do not have
REMOVED = {'3.13': {'aifc', 'audioop', 'cgi', 'cgitb', 'chunk', 'crypt', 'imghdr', 'mailcap', 'msilib', 'nis', 'nntplib', 'ossaudiodev', 'pipes',
                    'sndhdr', 'spwd', 'sunau', 'telnetlib', 'uu', 'xdrlib', 'lib2to3'}}


def sources():
    out = []
    for d, dirs, fs in os.walk(os.path.join(ROOT, 'sunwhere')):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.py')]
    return out


def versions(it, rep):
    low = re.search(r'>=\s*3\.(\d+)', project()['requires-python'])
    if low is None:
        raise AnalysisGap('requires-python')
    files = sources()
    base = diagnostics(files, '3.12')                 # the version that the tests are run with
    trees = {}
    for f in files:
        try:
            with open(f) as h:
                trees[f] = ast.parse(h.read())
        except SyntaxError as e:
            rep.fail('versions', f'{os.path.relpath(f, ROOT)} is not Python: {e}', (f, '<module>', e.lineno or 1))
            return
    for minor in range(int(low.group(1)), 15):
        v = f'3.{minor}'
        rep.done('versions', len(files))
        if v == '3.12':
            continue
        for key, msg in sorted(diagnostics(files, v).items()):
            if key not in base and not guarded(trees[key[0]], key[1], key[2]):
                rep.fail('versions', f'in Python {v}: {msg}', (key[0], '<module>', key[1]))
                return
        gone = set().union(*[s for w, s in REMOVED.items() if int(w[2:]) <= minor])
        for f, tree in trees.items():
            for n in ast.walk(tree):
                mods = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module or ''] if isinstance(n, ast.ImportFrom) and not n.level else []
                for m in mods:
                    if m.split('.')[0] in gone and not guarded(tree, n.lineno, n.col_offset):
                        rep.fail('versions', f'Python {v} has no module {m}', (f, '<module>', n.lineno))
                        return


@check('C31',
       'Every import that is executed (when the package is imported, in the calls of all use cases, algorithms and engines, in every reading '
       'and in the command line) is followed with every package missing that pyproject.toml does not declare: nothing may fail. pyright '
       'resolves the syntax and the names of the standard library for each declared version of Python; what it finds for one of them and not '
       'for the one that the tests are run with is reported.',
       minimum={'packages': 1500, 'versions': 50}, anchors=['__init__.py', 'usecases.py', '_core.py', '_base.py', 'libspa'],
       assumptions=['pandas, xarray, numexpr and typer require what their releases of 2026 require', 'the releases of the declared packages are those installed'])
def c31(tier):
    tasks = [Task('versions of Python', versions, weight=3)]
    for alg, eng in COMBOS:
        for uc in USECASES:
            for refr in (True, False):
                def fn(it, rep, alg=alg, eng=eng, uc=uc, refr=refr):
                    it.missing_modules = others()
                    W.declare()
                    r = needs(rep, f'{uc}(algorithm={alg!r}, engine={eng!r})', lambda: W.simple(it, uc, alg, eng, refr, PARTS[uc][0]))
                    if r is not None:
                        for n, rd in reads(it, r):
                            if needs(rep, f'reading {n}', rd) is None and rep.violations:
                                return
                tasks.append(Task(f'{uc}/{alg}/{eng}/refraction={refr}', fn))
    for uc in USECASES:
        for kind, zone in zone_kinds():
            def conts(it, rep, uc=uc, kind=kind, zone=zone):
                it.missing_modules = others()
                declare_io()
                tax, jax, iax = W.axes_for(it, uc, PARTS[uc][0])
                t, tz = times_for(it, kind, zone, tax)
                r = needs(rep, f'{uc}()', lambda: W.run_usecase(it, uc, t, W.coord('lat', jax), W.coord('lon', iax)))
                if r is not None:
                    for n, rd in reads(it, r):
                        if needs(rep, f'reading {n}', rd) is None and rep.violations:
                            return
            tasks.append(Task(f'{uc}/{kind}/{zone}', conts))

    def helpers(it, rep):
        it.missing_modules = others()
        W.declare()
        tax, jax, iax = W.axes_for(it, 'sites', 'distinct')
        for f in ('true_solar_time', 'universal_time_coordinated'):
            for kind in ('M8[s]', 'M8[ns]', 'index'):
                needs(rep, f'{f}()', lambda: it.call(it.load('sunwhere.utils.datetime').ns[f], [W.times_input(it, tax, kind), W.coord('lon', jax)], {}))
    tasks.append(Task('helpers', helpers))

    def cli(it, rep):
        it.missing_modules = others('cli')
        declare_cli()
        rep.done('packages')
        bad = run_at(it, '2024-05-06T12:00', '36.949N', '3.822W', [])
        if bad is not None:
            rep.fail('packages', f'"sunwhere at" fails where only the declared packages are installed: {bad[0]}', bad[1])
    tasks.append(Task('command line', cli, max_paths=64))
    return tasks


# ---------------------------------------------------------------------------
# C32

def fresh(it):
    it.env['fs'] = Fs()
    it.env['download'] = lambda it, url: m_state.effect(it, 'opens a connection')


def untouched(it, rep, what):
    rep.done('state')
    left = m_state.standing(it)
    fs = it.env['fs']
    if it.output:
        left.append(('prints on the terminal', None))
    if fs.files or fs.log or len(fs.dirs) > 2 or it.opened:
        left.append(('uses files: ' + ', '.join(sorted(fs.files) + sorted(fs.dirs - {'.', '/'})), None))
    if left:
        rep.fail('state', f'{what} {left[0][0]}', left[0][1])
        return False
    return True


def attempts(it, uc):
    """(what, call) of calls that are refused, at every stage of the calculation."""
    tax, jax, iax = W.axes_for(it, uc, 'distinct')
    args = lambda: [W.times_input(it, tax), W.coord('lat', jax), W.coord('lon', iax)]      # noqa: E731
    out = [(f'algorithm={a!r}, engine={e!r}', lambda a=a, e=e: W.run_usecase(it, uc, *args(), algorithm=a, engine=e))
           for a, e in (('spa', 'numpy'), ('psa', 'fortran'), ('nrel', 'numpy'), ('PSA', 'numexpr'))]
    for name in ('lat', 'lon'):
        for side in ('above', 'below'):
            c = lambda k, name=name, side=side: bad_coord(k, side, 'middle', None) if k == name else good_coord(k, 'middle', None)    # noqa: E731
            for alg, eng in COMBOS:
                out.append((f'{name} {side} its range', lambda c=c, alg=alg, eng=eng: W.run_usecase(it, uc, const_times(3), c('lat'), c('lon'), alg, engine=eng)))
    two = Arr((jax, 2), [T.atom('lat', (T.idxvar(jax.name) if hasattr(jax, 'name') else T.const(0),))] * 1, 'f8')
    out.append(('a latitude of two dimensions', lambda: W.run_usecase(it, uc, W.times_input(it, tax), two, W.coord('lon', iax))))
    out.append(('times of another size', lambda: W.run_usecase(it, uc, const_times(5), good_coord('lat', 'middle', None), good_coord('lon', 'middle', None))))
    return out


BAD_READS = [('sunrise', ('minutes',)), ('sunset', (None,)), ('airmass', ('kasten',)), ('airmass', (None,)), ('eth', (1361.1, 'spencer'))]


@check('C32',
       'Effect analysis of the process: settings of numpy, pandas, xarray and numexpr, warning filters, outputs and activation of the log, the '
       'locale, the environment, random seeds, attributes stored in other packages, text printed, files and connections are followed from the '
       'import through every use case, algorithm, engine, container of times, reading and refused call; after each of them everything must be '
       'as it was before the package was imported.',
       minimum={'state': 2500}, anchors=['__init__.py', 'usecases.py', '_core.py', '_base.py', 'libspa', 'datetime.py', 'validate.py'],
       assumptions=['numpy, pandas, xarray and numexpr leave the process alone', 'warnings, which the caller may filter, are not text printed'])
def c32(tier):
    tasks = []

    def start(it, rep):
        fresh(it)
        W.declare()
        W.public(it)
        if untouched(it, rep, 'importing sunwhere'):
            tax, jax, iax = W.axes_for(it, 'sites', 'distinct')
            for f in ('true_solar_time', 'universal_time_coordinated'):
                for kind in ('M8[s]', 'M8[ns]', 'index'):
                    it.call(it.load('sunwhere.utils.datetime').ns[f], [W.times_input(it, tax, kind), W.coord('lon', jax)], {})
                    if not untouched(it, rep, f'{f}()'):
                        return
    tasks.append(Task('import and helpers', start))
    for alg, eng in COMBOS:
        for uc in USECASES:
            for refr in (True, False):
                def fn(it, rep, alg=alg, eng=eng, uc=uc, refr=refr):
                    fresh(it)
                    W.declare()
                    r = W.simple(it, uc, alg, eng, refr, PARTS[uc][0])
                    if not untouched(it, rep, f'{uc}()'):
                        return
                    for n, rd in reads(it, r):
                        rd()
                        if not untouched(it, rep, f'reading {n}'):
                            return
                tasks.append(Task(f'{uc}/{alg}/{eng}/refraction={refr}', fn))
    for uc in USECASES:
        for kind, zone in zone_kinds():
            def conts(it, rep, uc=uc, kind=kind, zone=zone):
                fresh(it)
                declare_io()
                tax, jax, iax = W.axes_for(it, uc, PARTS[uc][0])
                t, tz = times_for(it, kind, zone, tax)
                r = W.run_usecase(it, uc, t, W.coord('lat', jax), W.coord('lon', iax))
                if not untouched(it, rep, f'{uc}()'):
                    return
                for n, rd in reads(it, r):
                    rd()
                    if not untouched(it, rep, f'reading {n}'):
                        return
            tasks.append(Task(f'{uc}/{kind}/{zone}', conts))

        def bad(it, rep, k, uc=uc):
            fresh(it)
            W.declare()
            W.public(it)
            what, call = attempts(it, uc)[k]
            try:
                call()
            except PyExc:
                pass
            untouched(it, rep, f'{uc}() with {what}')

        def count(uc):
            return 4 + 4 * len(COMBOS) + 2
        for k in range(count(uc)):
            tasks.append(Task(f'{uc}/refused {k}', lambda it, rep, k=k, bad=bad: bad(it, rep, k)))

        def bad_reads(it, rep, uc=uc):
            fresh(it)
            W.declare()
            r = W.simple(it, uc, 'psa', 'numexpr', True, PARTS[uc][0])
            for f, a in BAD_READS:
                try:
                    W.method(it, r, f, *a)
                except PyExc:
                    pass
                if not untouched(it, rep, f'{f}{a!r}'):
                    return
        tasks.append(Task(f'{uc}/refused readings', bad_reads))
    return tasks
