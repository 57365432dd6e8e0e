"""Models of what changes the process beyond the values that the library computes with: settings of the packages it uses, warning
filters, logging, the environment, text written to the terminal.

it.settings: setting -> value, for those that differ from what they were when the library was imported.
it.effects:  (what, location), for what cannot be undone."""

import functools

from . import interp as I
from .arrays import PyExc
from .interp import CONSTS, EXT_MODULES
from .terms import AnalysisGap, Loc
from .values import MISSING, Builtin, ExtVal, Obj, Opaque

EXT_MODULES.update(__import__('sys').stdlib_module_names - {'idlelib', 'this', 'antigravity'})
EXT_MODULES.update({'atexit', 'secrets', 'errno', 'stat', 'ast', 'queue', 'sched', 'selectors', 'socket', 'asyncio', 'faulthandler', 'pprint'})


class Initial(Obj):
    """The value that a setting had before the library was imported."""
    tname = 'object'

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f'<initial {self.key}>'


def get(it, key):
    return it.settings.get(key, (Initial(key), None))[0]


def put(it, key, v):
    if isinstance(v, Initial) and v.key == key:
        it.settings.pop(key, None)
    else:
        it.settings[key] = (v, Loc.cur)


def effect(it, what):
    it.effects.append((what, Loc.cur))


class Setting(Obj):
    """A context manager: settings of its own inside, those of before afterwards. Some set them when they are made."""
    tname = 'context'

    def __init__(self, it, values, value=None, at_once=False):
        self.values, self.value = values, value
        self.old = []
        self.at_once = at_once
        if at_once:
            self.set(it)

    def set(self, it):
        vals = self.values() if callable(self.values) else self.values
        self.old.append([(k, get(it, k)) for k in vals])
        for k, v in vals.items():
            put(it, k, v)

    def m___enter__(self, it):
        if not self.at_once:
            self.set(it)
        return self.value(self) if callable(self.value) else self.value

    def m___exit__(self, it, *a):
        for k, v in self.old.pop():
            put(it, k, v)
        return None

    def call(self, it, args, kwargs):
        """As a decorator."""
        f = args[0]

        def wrapped(it, *a, **k):
            self.m___enter__(it)
            try:
                return it.call(f, list(a), k)
            finally:
                self.m___exit__(it)
        return Builtin(wrapped, getattr(f, 'name', 'function'))


def model(*paths):
    def deco(f):
        for p in paths:
            I.MODELS[p] = f
        return f
    return deco


# -- numpy

ERR = ('divide', 'over', 'under', 'invalid')


def err_values(k):
    k = dict(k)
    call = k.pop('call', MISSING)
    a = k.pop('all', None)
    out = {f'numpy.seterr {n}': k[n] if k.get(n) is not None else a for n in ERR}
    if set(k) - set(ERR):
        raise PyExc(TypeError, f'seterr() got an unexpected keyword argument {sorted(set(k) - set(ERR))[0]!r}')
    for v in out.values():
        if isinstance(v, str) and v not in ('ignore', 'warn', 'raise', 'call', 'print', 'log'):
            raise PyExc(ValueError, f'invalid error mode {v!r}')
    out = {k: v for k, v in out.items() if v is not None}
    if call is not MISSING:
        out['numpy.seterrcall'] = call
    return out


def _err_args(a, k):
    return dict(zip(('all',) + ERR, a)) | k


@model('numpy.geterr')
def _geterr(it):
    return {n: get(it, f'numpy.seterr {n}') for n in ERR}


@model('numpy.seterr')
def _seterr(it, *a, **k):
    old = _geterr(it)
    for n, v in err_values(_err_args(a, k)).items():
        put(it, n, v)
    return old


@model('numpy.errstate')
def _errstate(it, **k):
    return Setting(it, err_values(k))


def _simple(path, key):
    """A function that sets one value and gives the old one."""
    def f(it, *a, **k):
        old = get(it, key)
        put(it, key, a[0] if a else next(iter(k.values()), None))
        return old
    I.MODELS[path] = f


_simple('numpy.seterrcall', 'numpy.seterrcall')
_simple('numpy.setbufsize', 'numpy.setbufsize')
I.MODELS['numpy.set_printoptions'] = lambda it, *a, **k: [put(it, f'numpy.printoptions {n}', v) for n, v in print_args(a, k).items()] and None
I.MODELS['numpy.get_printoptions'] = lambda it: {n: get(it, f'numpy.printoptions {n}') for n in PRINT}
I.MODELS['numpy.printoptions'] = lambda it, *a, **k: Setting(it, {f'numpy.printoptions {n}': v for n, v in print_args(a, k).items()})
PRINT = ('precision', 'threshold', 'edgeitems', 'linewidth', 'suppress', 'nanstr', 'infstr', 'formatter', 'sign', 'floatmode', 'legacy',
         'override_repr')


def print_args(a, k):
    return dict(zip(PRINT, a)) | k


I.MODELS['numpy.testing.assert_allclose'] = lambda it, *a, **k: None
I.MODELS['numpy.random.seed'] = lambda it, *a: effect(it, 'seeds the random numbers of numpy')
I.MODELS['random.seed'] = lambda it, *a: effect(it, 'seeds the random numbers of Python')

# -- pandas

def _pairs(a, k=()):
    if len(a) == 1 and isinstance(a[0], dict):
        return {f'pandas.{n}': v for n, v in a[0].items()}
    return {f'pandas.{n}': v for n, v in zip(a[::2], a[1::2])} | {f'pandas.{n}': v for n, v in dict(k).items()}


@model('pandas.set_option')
def _set_option(it, *a, **k):
    for n, v in _pairs(a, k).items():
        put(it, n, v)


I.MODELS['pandas.get_option'] = lambda it, n: get(it, f'pandas.{n}')
I.MODELS['pandas.reset_option'] = lambda it, n: put(it, f'pandas.{n}', 'the default')
I.MODELS['pandas.option_context'] = lambda it, *a: Setting(it, _pairs(a))

# -- xarray, numexpr

I.MODELS['xarray.set_options'] = lambda it, **k: Setting(it, {f'xarray.{n}': v for n, v in k.items()}, at_once=True)
I.MODELS['xarray.get_options'] = lambda it: {'keep_attrs': get(it, 'xarray.keep_attrs')}
for _m in ('numexpr.', 'numexpr.utils.'):
    _simple(_m + 'set_num_threads', 'the number of threads of numexpr')
    _simple(_m + 'set_vml_num_threads', 'the number of threads of VML')
    _simple(_m + 'set_vml_accuracy_mode', 'the accuracy of VML')
    I.MODELS[_m + 'detect_number_of_cores'] = lambda it: 8
    I.MODELS[_m + 'detect_number_of_threads'] = lambda it: 8

# -- warnings

FILTERS = 'warnings.filters'


@model('warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings')
def _filter(it, *a, **k):
    v = (get(it, FILTERS), repr(a), repr(sorted(k.items(), key=str)))
    put(it, FILTERS, v)


@model('warnings.catch_warnings')
def _catch(it, *, record=False, module=None, action=None, **k):
    log = []
    return Setting(it, lambda: {FILTERS: get(it, FILTERS) if action is None else (get(it, FILTERS), repr(action))}, log if record else None)


I.MODELS['warnings.warn'] = lambda it, *a, **k: None

# -- loguru and logging

def _muted(it, name):
    if not isinstance(name, str):
        return False
    best, state = -1, False
    for n, off in it.loguru.items():
        if (name == n or name.startswith(n + '.') or n == '') and len(n) > best:
            best, state = len(n), off
    return state


def _activation(off):
    def f(it, name):
        if not isinstance(name, str) or name != 'sunwhere' and not name.startswith('sunwhere.'):
            put(it, f'loguru messages of {name!r}', 'off' if off else 'on')
        else:
            for n in list(it.loguru):
                if n == name or n.startswith(name + '.'):
                    del it.loguru[n]
            it.loguru[name] = off
    return f


def _log(it, *a, **k):
    if not _muted(it, it.fr.module.name if it.frames else None):
        effect(it, 'writes a message of the log to the terminal')


for _n in ('debug', 'info', 'warning', 'error', 'success', 'critical', 'exception', 'log'):
    I.MODELS['loguru.logger.' + _n] = _log
I.MODELS['loguru.logger.trace'] = lambda it, *a, **k: None
I.MODELS['loguru.logger.disable'] = _activation(True)
I.MODELS['loguru.logger.enable'] = _activation(False)
for _n in ('bind', 'opt', 'patch'):
    I.MODELS['loguru.logger.' + _n] = lambda it, *a, **k: ExtVal('loguru.logger')
for _n, _w in (('add', 'adds an output of the log'), ('remove', 'removes the outputs of the log'), ('configure', 'configures the log'),
               ('level', 'changes the levels of the log')):
    I.MODELS['loguru.logger.' + _n] = functools.partial(lambda it, *a, _w=_w, **k: effect(it, _w))


@model('logging.basicConfig', 'logging.debug', 'logging.info', 'logging.warning', 'logging.error', 'logging.critical', 'logging.exception',
       'logging.log', 'logging.disable', 'logging.captureWarnings')
def _logging(it, *a, **k):
    effect(it, 'configures the root logger of logging')


class Logger(Obj):
    tname = 'Logger'

    def __init__(self, name):
        self.name = name

    def own(self):
        return isinstance(self.name, str) and (self.name == 'sunwhere' or self.name.startswith('sunwhere.'))

    def getattr(self, it, name):
        if name == 'name':
            return self.name
        if name in ('debug', 'info'):
            return Builtin(lambda it, *a, **k: None, name)              # below the level of the root logger
        if name in ('warning', 'error', 'critical', 'exception', 'warn'):
            return Builtin(lambda it, *a, **k: effect(it, 'writes a message of the log to the terminal'), name)
        if name in ('setLevel', 'addHandler', 'removeHandler', 'addFilter'):
            return Builtin(lambda it, *a, **k: None if self.own() else effect(it, f'configures the logger {self.name!r}'), name)
        if name in ('isEnabledFor', 'hasHandlers'):
            return Builtin(lambda it, *a, **k: False, name)
        return Opaque('logger.' + name)

    def setattr(self, it, name, v):
        if not self.own():
            effect(it, f'configures the logger {self.name!r}')


I.MODELS['logging.getLogger'] = lambda it, name=None: Logger(name)
I.MODELS['logging.NullHandler'] = lambda it, *a: Opaque('NullHandler')

# -- the interpreter and the operating system

for _p, _w in {
        'os.chdir': 'changes the working directory', 'os.umask': 'changes the umask', 'os.putenv': 'changes the environment',
        'os.unsetenv': 'changes the environment', 'os.nice': 'changes the priority', 'time.tzset': 'changes the time zone',
        'signal.signal': 'installs a signal handler', 'gc.disable': 'stops the garbage collector', 'gc.enable': 'starts the garbage collector',
        'gc.freeze': 'changes the garbage collector', 'gc.set_threshold': 'changes the garbage collector',
        'sys.setrecursionlimit': 'changes the limit of recursion', 'sys.setswitchinterval': 'changes the switch interval',
        'sys.settrace': 'traces the process', 'sys.setprofile': 'profiles the process', 'atexit.register': 'registers a function to be run at exit',
        'locale.resetlocale': 'changes the locale', 'decimal.setcontext': 'changes the decimal context', 'matplotlib.use': 'changes the backend of matplotlib',
        'faulthandler.enable': 'enables the fault handler', 'multiprocessing.set_start_method': 'changes how processes are started',
        'socket.setdefaulttimeout': 'changes the timeout of sockets', 'tracemalloc.start': 'traces the memory', 'importlib.reload': 'loads a module again',
        'sys.stderr.write': 'writes to the terminal'}.items():
    I.MODELS[_p] = functools.partial(lambda it, *a, _w=_w, **k: effect(it, _w))


@model('threading.stack_size')
def _stack_size(it, n=None):
    if n is not None:
        effect(it, 'changes the stack size of threads')
    return 0


class SysModules(Obj):
    tname = 'dict'

    def contains(self, it, k):
        return k in it.modules

    def getitem(self, it, k):
        if k in it.modules:
            return it.modules[k]
        if k.partition('.')[0] in EXT_MODULES:
            return ExtVal(k)
        raise PyExc(KeyError, repr(k))

    def m_get(self, it, k, d=None):
        return self.getitem(it, k) if k in it.modules else d

    def setitem(self, it, k, v):
        effect(it, f'changes sys.modules[{k!r}]')

    def m_pop(self, it, k, *d):
        effect(it, f'changes sys.modules[{k!r}]')
        return it.modules.get(k, d[0] if d else None)


CONSTS['sys.modules'] = lambda: SysModules()


class DecimalContext(Obj):
    tname = 'Context'

    def setattr(self, it, name, v):
        put(it, f'decimal context {name}', v)


I.MODELS['decimal.getcontext'] = lambda it: DecimalContext()
I.MODELS['gc.collect'] = I.MODELS['sys.stdout.flush'] = I.MODELS['sys.stderr.flush'] = lambda it, *a: None


@model('locale.setlocale')
def _setlocale(it, category=None, loc=None):
    key = f'locale {category}'
    if loc is None:
        return get(it, key) if key in it.settings else 'C'
    put(it, key, loc)
    return 'C'


class Environ(Obj):
    """The environment; what it holds is not known to the library, and nothing is assumed to be set."""
    tname = 'environ'

    def key(self, k):
        return f'environment variable {k}'

    def m_get(self, it, k, d=None):
        v = it.settings.get(self.key(k))
        return d if v is None else v[0]

    def getitem(self, it, k):
        if self.key(k) not in it.settings:
            raise PyExc(KeyError, repr(k))
        return it.settings[self.key(k)][0]

    def setitem(self, it, k, v):
        put(it, self.key(k), v)

    def m_setdefault(self, it, k, d=None):
        if self.key(k) not in it.settings:
            put(it, self.key(k), d)
        return it.settings[self.key(k)][0]

    def m_pop(self, it, k, *d):
        v = it.settings.pop(self.key(k), None)
        if v is None:
            effect(it, f'removes the {self.key(k)}')
            if not d:
                raise PyExc(KeyError, repr(k))
            return d[0]
        return v[0]

    def m_update(self, it, *a, **k):
        for x in a:
            for n, v in (x.items() if isinstance(x, dict) else x):
                put(it, self.key(n), v)
        for n, v in k.items():
            put(it, self.key(n), v)

    def contains(self, it, k):
        return self.key(k) in it.settings


_ENV = Environ()
CONSTS['os.environ'] = lambda: _ENV
I.MODELS['os.getenv'] = lambda it, k, d=None: _ENV.m_get(it, k, d)


class SysPath(Obj):
    tname = 'list'

    def getattr(self, it, name):
        if name in ('append', 'insert', 'extend', 'remove', 'pop', 'clear'):
            return Builtin(lambda it, *a: effect(it, 'changes sys.path'), name)
        raise AnalysisGap(f'sys.path.{name}')


CONSTS['sys.path'] = lambda: SysPath()


def set_ext(it, ext, name, v):
    """module.name = v"""
    p = f'{ext.path}.{name}'
    if isinstance(v, ExtVal) and v.path == p:
        it.settings.pop(p, None)
    else:
        put(it, p, v)


def standing(it):
    """(what, location) of everything that is not as it was."""
    return [(f'leaves {k} set to {v[0]!r}' if not isinstance(v[0], tuple) else f'leaves {k} changed', v[1]) for k, v in it.settings.items()] + \
        list(it.effects)
