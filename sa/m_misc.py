"""Models of typer, tabulate, locale, and the tables of text used by the command line."""

import ast

from . import interp as I
from . import symstr
from . import terms as T
from .arrays import Arr, PyExc
from .interp import CONSTS, model
from .m_builtins import EXT_MODULES
from .terms import AnalysisGap
from .values import MISSING, Builtin, ClassVal, ExtVal, FuncVal, Obj, Opaque, SymStr

EXT_MODULES.update({'urllib3', 'tqdm', 'seaborn', 'pvlib', 'soltrack', 'sg2', 'pysparta', 'requests', 'click'})


# ---------------------------------------------------------------------------
# locale and output

I.MODELS['locale.getlocale'] = lambda it, *a: ('en_US', 'UTF-8')
I.MODELS['locale.getdefaultlocale'] = lambda it, *a: ('en_US', 'UTF-8')
for _n, _v in (('LC_TIME', 2), ('LC_ALL', 6), ('LC_NUMERIC', 4), ('LC_CTYPE', 0)):
    CONSTS['locale.' + _n] = _v


@model('sys.stdout.write', 'click.echo', 'typer.echo')
def _write(it, s='', *a, err=False, **k):
    if not err:
        it.output.append((s,))
    return None


@model('typer.secho', 'click.secho')
def _secho(it, s='', **k):
    return _write(it, s, err=k.get('err', False))


# ---------------------------------------------------------------------------
# typer

class ExitValue(Obj):
    tname = 'Exit'

    def __init__(self, code):
        self.code = code

    def p_exit_code(self, it):
        return self.code

    def str(self, it):
        return str(self.code)


def _exit(path):
    def f(it, code=0):
        return PyExc(ExtVal(path), str(code), None, ExitValue(code))
    I.MODELS[path] = f


for _p in ('typer.Exit', 'click.exceptions.Exit'):
    _exit(_p)
    I.EXT_EXC[_p] = RuntimeError
for _p in ('typer.Abort', 'click.Abort', 'click.exceptions.Abort'):
    I.EXT_EXC[_p] = RuntimeError
    I.MODELS[_p] = lambda it, _p=_p: PyExc(ExtVal(_p), 'Aborted')
for _p in ('typer.BadParameter', 'click.BadParameter', 'click.UsageError', 'click.ClickException', 'click.exceptions.BadParameter',
           'click.exceptions.UsageError'):
    I.EXT_EXC[_p] = Exception
    I.MODELS[_p] = lambda it, msg='', *a, _p=_p, **k: PyExc(ExtVal(_p), it.text(msg))


@model('sys.exit')
def _sysexit(it, code=0):
    raise PyExc(SystemExit, it.text(it.str(code)), None, ExitValue(code))


class ParamInfo(Obj):
    tname = 'typer.ParameterInfo'

    def __init__(self, kind, a, k):
        self.kind = kind
        self.default = MISSING
        self.decls = ()
        k = dict(k)
        if 'default' in k:
            self.default = k.pop('default')
            self.decls = tuple(a)
        elif a:
            self.default = a[0]
            self.decls = tuple(a[1:])
        self.kw = k

    def annotated(self):
        """As metadata of typing.Annotated there is no default: all positional arguments are names."""
        if self.default is not MISSING:
            self.decls = (self.default,) + self.decls
            self.default = MISSING
        return self


I.MODELS['typer.Argument'] = lambda it, *a, **k: ParamInfo('argument', a, k)
I.MODELS['typer.Option'] = lambda it, *a, **k: ParamInfo('option', a, k)


class TyperApp(Obj):
    tname = 'typer.Typer'

    def __init__(self, kw):
        self.kw = kw
        self.commands = {}
        self.callback = None

    def m_command(self, it, name=None, **kw):
        def deco(it_, f):
            self.commands[name or f.name.lower().replace('_', '-')] = f
            return f
        return Builtin(deco, 'typer.command')

    def m_callback(self, it, *a, **kw):
        def deco(it_, f):
            self.callback = f
            return f
        return Builtin(deco, 'typer.callback')

    def m_registered_commands(self, it):
        raise AnalysisGap('registered commands')

    def m___call__(self, it, *a, **k):
        raise AnalysisGap('the command line application is run when imported')


I.MODELS['typer.Typer'] = lambda it, **k: TyperApp(k)
I.MODELS['typer.run'] = lambda it, f: None


def _in_frame(it, f, node):
    """The value of an expression of the signature of f."""
    fr = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node)
    ast.copy_location(fr, node)
    ast.fix_missing_locations(fr)
    return it.call(FuncVal(fr, f.module, f.parent, '<annotation>', '<annotation>', [], {}, False), [])


def parameters(it, f):
    """[(name, annotation value, ParamInfo)] of a command."""
    a = f.node.args
    names = [x for x in a.posonlyargs + a.args]
    off = len(names) - len(f.defaults)
    out = []
    for n, x in list(enumerate(names)) + [(None, x) for x in a.kwonlyargs]:
        dflt = MISSING
        if n is None:
            dflt = f.kwdefaults.get(x.arg, MISSING)
        elif n >= off:
            dflt = f.defaults[n - off]
        ann, info = None, None
        node = x.annotation
        if node is not None:
            if isinstance(node, ast.Constant) and isinstance(node.value, str):
                node = ast.parse(node.value, mode='eval').body
            if isinstance(node, ast.Subscript):
                base = _in_frame(it, f, node.value)
                if isinstance(base, ExtVal) and base.path.rsplit('.', 1)[-1] == 'Annotated':
                    elts = node.slice.elts
                    ann = _in_frame(it, f, elts[0])
                    for e in elts[1:]:
                        v = _in_frame(it, f, e)
                        if isinstance(v, ParamInfo):
                            info = v.annotated()
                else:
                    if isinstance(base, ExtVal) and base.path.rsplit('.', 1)[-1] == 'Optional':
                        ann = _in_frame(it, f, node.slice)
                    else:
                        raise AnalysisGap('annotation of a command parameter')
            else:
                ann = _in_frame(it, f, node)
        if isinstance(dflt, ParamInfo):
            info, dflt = dflt, dflt.default
        if info is None:
            info = ParamInfo('argument' if dflt is MISSING else 'option', (), {})
        info.default = MISSING if dflt is Ellipsis else dflt
        out.append((x.arg, ann, info))
    return out


class Refused(Exception):
    """The command line refuses the arguments (usage error)."""


def convert(it, ann, info, v):
    """The value a parameter gets from its text or default."""
    if v is None:
        return None
    p = info.kw.get('parser')
    if p is not None:
        try:
            v = it.call(p, [v])
        except PyExc as e:
            if it.exc_matches(e, ValueError):
                raise Refused(e.msg)
            raise
    elif isinstance(v, (str, SymStr)):
        if ann in (float, int):
            from .m_builtins import BUILTINS_TYPES
            try:
                v = BUILTINS_TYPES[ann](it, v)
            except PyExc as e:
                raise Refused(e.msg)
        elif ann not in (str, None) and ann is not bool:
            raise AnalysisGap('type of a command parameter')
    for name, op in (('min', '<'), ('max', '>')):
        if info.kw.get(name) is not None:
            c = it.compare(op, v, info.kw[name])
            if it.truth(c):
                if info.kw.get('clamp'):
                    v = info.kw[name]
                else:
                    raise Refused('not in the range')
    cb = info.kw.get('callback')
    if cb is not None:
        v = it.call(cb, [v])
    return v


def flags_of(name, ann, info):
    """{option text: value} of an option; value None when the option takes one."""
    out = {}
    dash = name.replace('_', '-')
    decls = info.decls
    if info.kind == 'option' and ann is bool and info.kw.get('is_flag', True):
        if not decls or all(len(d) == 2 for d in decls):
            out.update({d: True for d in decls})
            decls = (f'--{dash}/--no-{dash}',)
        for d in decls:
            if '/' in d:
                yes, no = d.split('/')
                out[yes.strip()] = True
                out[no.strip()] = False
            else:
                out[d] = True
        return out
    if not any(d.startswith('--') for d in decls):
        decls = decls + (f'--{dash}',) if not decls else decls
    for d in decls:
        out[d] = None
    return out


def invoke(it, app, command, args, options):
    """Runs a command as typer does, with positional texts and [(option, text or None)].

    Raises Refused when an argument is refused, or PyExc as the command does."""
    f = app.commands.get(command)
    if f is None:
        raise Refused(f'No such command {command}')
    if app.callback is not None:
        raise AnalysisGap('typer callback')
    ps = parameters(it, f)
    given = {}
    todo = list(args)
    for name, ann, info in ps:
        if info.kind == 'argument' and todo:
            given[name] = todo.pop(0)
    if todo:
        raise Refused('unexpected extra argument')
    table = {}
    for name, ann, info in ps:
        if info.kind == 'option':
            for k, v in flags_of(name, ann, info).items():
                table[k] = (name, v)
    for o, text in options:
        if o not in table:
            raise Refused(f'No such option: {o}')
        name, v = table[o]
        if (v is None) != (text is not None):
            raise Refused(f'Option {o}')
        given[name] = text if v is None else v
    kw = {}
    for name, ann, info in ps:
        if name in given:
            v = given[name]
        elif info.default is MISSING:
            raise Refused(f'Missing argument {name}')
        else:
            v = info.default
            if isinstance(v, (FuncVal, Builtin)):
                v = it.call(v, [])
        kw[name] = convert(it, ann, info, v)
    return it.call(f, [], kw)


# ---------------------------------------------------------------------------
# tables of text

class TextSeries(Obj):
    """A pandas Series or one-column DataFrame of labels and values."""
    tname = 'Series'

    def __init__(self, rows, name=None):
        self.rows = rows
        self.name = name

    def m_to_frame(self, it, name=None):
        return TextSeries(self.rows, name)

    def m_items(self, it):
        return [(a, b) for a, b in self.rows]

    m_iteritems = m_items

    def m_to_dict(self, it):
        return dict(self.rows)

    def m_reset_index(self, it, *a, **k):
        return [[a, b] for a, b in self.rows]

    def m_rename(self, it, *a, **k):
        return self

    m_astype = m_rename
    m_copy = m_rename

    def p_index(self, it):
        return [a for a, _ in self.rows]

    def p_values(self, it):
        return [b for _, b in self.rows]

    def m_keys(self, it):
        return self.p_index(it)

    def m_tolist(self, it):
        return self.p_values(it)

    def length(self, it):
        return len(self.rows)

    def iterate(self, it):
        return [b for _, b in self.rows]

    def getitem(self, it, k):
        for a, b in self.rows:
            if a == k:
                return b
        if k == self.name:
            return self
        raise PyExc(KeyError, str(k))

    def m_to_string(self, it, *a, **k):
        return SymStr([('table', tuple(self.rows))])

    def str(self, it):
        return self.m_to_string(it)


def is_text(v):
    return isinstance(v, (str, SymStr))


@model('pandas.Series')
def pd_series(it, data=None, index=None, dtype=None, name=None, **k):
    if isinstance(data, dict):
        return TextSeries(list(data.items()), name)
    if isinstance(data, (list, tuple)) and index is not None:
        return TextSeries(list(zip(it.to_list(index), data)), name)
    if isinstance(data, (list, tuple)) and all(is_text(x) for x in data):
        return TextSeries(list(enumerate(data)), name)
    from . import m_frame
    return m_frame.series(it, data, index=index, name=name)


def rows_of(it, v):
    if isinstance(v, TextSeries):
        return [tuple(r) for r in v.rows]
    if isinstance(v, dict):
        raise AnalysisGap('tabulate of a dict')
    out = []
    for r in it.to_list(v):
        r = it.to_list(r) if not isinstance(r, dict) else list(r.values())
        out.append(tuple(r))
    return out


@model('tabulate.tabulate')
def tabulate(it, data, headers=(), tablefmt='simple', **k):
    return SymStr([('table', tuple(rows_of(it, data)))])
