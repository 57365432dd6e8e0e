"""Recording of the accesses to state that calls share: module and class attributes, containers in them, closures, defaults.

install(roots) replaces, in place, the namespaces of the objects reachable from the roots by recording ones. A location is
(path of the container, key)."""

from . import interp as I
from . import m_xarray as X
from . import m_time as MT
from . import terms as T
from .arrays import Arr
from .values import BoundMethod, Builtin, ClassMethod, ClassVal, FuncVal, Instance, ModuleVal, MISSING, PropertyVal, StaticMethod


class Recorder:
    def __init__(self, it):
        self.it = it
        self.active = False
        self.events = []          # (kind, location, region, source location)
        self.values = {}          # location -> {image: source location}
        self.seen = {}            # id of the original -> (original, replacement)
        self.places = []          # (container, path)

    def region(self):
        return self.it.env.get('lock_region')

    def read(self, path, k):
        if self.active:
            self.events.append(('r', (path, key_image(k)), self.region(), T.Loc.cur))

    def write(self, path, k, v):
        if self.active:
            loc = (path, key_image(k))
            self.events.append(('w', loc, self.region(), T.Loc.cur))
            self.values.setdefault(loc, {}).setdefault(image(v), T.Loc.cur)

    # -- replacement of containers

    def wrap(self, v, path):
        """The value to be kept at the path in place of v."""
        if isinstance(v, (SharedDict, SharedList)):
            return v
        if type(v) in (dict, I.DefaultDict, I.OwnedDict) or type(v) is list:
            h = self.seen.get(id(v))
            if h is not None and h[0] is v:
                return h[1]
            cls = SharedList if type(v) is list else {dict: SharedDict, I.DefaultDict: SharedDefault, I.OwnedDict: SharedOwned}[type(v)]
            n = cls()
            n.__dict__.update(getattr(v, '__dict__', {}))
            n.rec, n.path = None, path
            self.seen[id(v)] = (v, n)
            if type(v) is list:
                list.extend(n, [self.wrap(x, path + (i,)) for i, x in enumerate(v)])
            else:
                for k, x in v.items():
                    dict.__setitem__(n, k, self.wrap(x, path + (key_image(k),)))
            n.rec = self
            self.places.append(n)
            return n
        self.visit(v, path)
        return v

    def visit(self, v, path):
        if isinstance(v, (ModuleVal, ClassVal, Instance, FuncVal, PropertyVal, StaticMethod, ClassMethod, BoundMethod, tuple)):
            if id(v) in self.seen:
                return
            self.seen[id(v)] = (v, v)
        if isinstance(v, ModuleVal):
            v.ns = self.wrap(v.ns, (v.name,))
        elif isinstance(v, ClassVal):
            v.ns = self.wrap(v.ns, (getattr(v.module, 'name', '?'), v.name))
            for b in v.bases:
                self.visit(b, path)
        elif isinstance(v, Instance):
            v.attrs = self.wrap(v.attrs, path)
        elif isinstance(v, FuncVal):
            p = (v.module.name, v.qualname)
            v.attrs = self.wrap(v.attrs, p + ('attributes',))
            v.defaults = [self.wrap(d, p + ('default', i)) for i, d in enumerate(v.defaults)]
            v.kwdefaults = {k: self.wrap(d, p + ('default', k)) for k, d in v.kwdefaults.items()}
            f = v.parent
            while f is not None:
                if id(f) not in self.seen:
                    self.seen[id(f)] = (f, f)
                    f.locals = self.wrap(f.locals, (f.module.name, f.func.qualname if f.func else '?', 'variables'))
                f = f.parent
        elif isinstance(v, (PropertyVal, StaticMethod, ClassMethod, BoundMethod)):
            for n in ('f', 'fget', 'fset', 'func', 'obj'):
                if getattr(v, n, None) is not None:
                    self.visit(getattr(v, n), path)
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                self.visit(x, path + (i,))
        elif isinstance(v, Builtin):
            w = getattr(v, 'attrs', {}).get('__wrapped__') if hasattr(v, 'attrs') else None
            if w is not None:
                self.visit(w, path)

    def start(self):
        self.before = self.contents()
        self.active = True

    def stop(self):
        """Ends a call: arrays changed in place count as written."""
        self.active = False
        after = self.contents()
        for loc, im in after.items():
            if loc in self.values and im is not MISSING:
                self.values[loc].setdefault(im, None)
            elif loc in self.before and self.before[loc] != im:
                self.values.setdefault(loc, {})[im] = None
        ev, self.events = self.events, []
        return ev

    def contents(self):
        out = {}
        for c in self.places:
            if isinstance(c, SharedList):
                out[(c.path, '*')] = ('list',) + tuple(image(x) for x in list.__iter__(c))
            else:
                for k, v in dict.items(c):
                    if not isinstance(v, (ModuleVal, ClassVal, FuncVal)):
                        out[(c.path, key_image(k))] = image(v)
        return out


def key_image(k):
    return k if isinstance(k, (str, int, bool, type(None))) else repr(image(k))


def image(v):
    """A comparable image of a value; containers that are locations of their own are named."""
    if isinstance(v, (SharedDict, SharedList)):
        return ('at',) + v.path
    if isinstance(v, X.DataArray):
        return ('da', tuple(v.dims), image(v.arr), v.name)
    if isinstance(v, MT.PdTimes):
        return ('times', image(v.arr), v.tz and v.tz.name)
    if isinstance(v, Arr):
        return ('arr', v.dtype, tuple(repr(a) for a in v.axes), tuple((c.fp, c.valid.fp) for c in v.cells))
    if isinstance(v, T.Term):
        return ('t', v.fp, v.valid.fp)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(image(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((key_image(k), image(x)) for k, x in v.items())
    if v is None or isinstance(v, (bool, int, float, str)):
        return (type(v).__name__, v)
    if isinstance(v, Instance):
        return ('instance', v.cls.name)
    if isinstance(v, I.AKey):
        return ('key',) + v.image()
    return (type(v).__name__, repr(v))


class _Rec:
    rec = None
    path = ()


class SharedDict(_Rec, dict):
    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if self.rec is not None:
            self.rec.read(self.path, k)
        return v

    def __iter__(self):
        return dict.__iter__(self)

    def _all(self):
        if self.rec is not None and self.rec.active:
            for k in dict.keys(self):
                self.rec.read(self.path, k)

    def get(self, k, d=None):
        if self.rec is not None:
            self.rec.read(self.path, k)
        return dict.get(self, k, d)

    def items(self):
        self._all()
        return dict.items(self)

    def values(self):
        self._all()
        return dict.values(self)

    def copy(self):
        self._all()
        return dict(dict.items(self))

    def __setitem__(self, k, v):
        if self.rec is not None:
            v = self._keep(k, v)
            self.rec.write(self.path, k, v)
        dict.__setitem__(self, k, v)

    def _keep(self, k, v):
        r = self.rec
        if isinstance(v, Instance) and r.active and not isinstance(v.attrs, SharedDict):
            r.visit(v, self.path + (key_image(k),))
            for n, x in dict.items(v.attrs):
                r.write(v.attrs.path, n, x)
        return v

    def __delitem__(self, k):
        dict.__delitem__(self, k)
        if self.rec is not None:
            self.rec.write(self.path, k, MISSING)

    def pop(self, k, *d):
        if self.rec is not None:
            self.rec.read(self.path, k)
            self.rec.write(self.path, k, MISSING)
        return dict.pop(self, k, *d)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def update(self, *a, **k):
        for x in a:
            for n, v in (x.items() if isinstance(x, dict) else x):
                self[n] = v
        for n, v in k.items():
            self[n] = v

    def clear(self):
        for k in list(dict.keys(self)):
            del self[k]


class SharedDefault(SharedDict, I.DefaultDict):
    pass


class SharedOwned(SharedDict, I.OwnedDict):
    pass


def _reader(name):
    f = getattr(list, name)

    def g(self, *a, **k):
        if self.rec is not None:
            self.rec.read(self.path, '*')
        return f(self, *a, **k)
    return g


def _writer(name):
    f = getattr(list, name)

    def g(self, *a, **k):
        r = f(self, *a, **k)
        if self.rec is not None:
            self.rec.write(self.path, '*', tuple(list.__iter__(self)))
        return r
    return g


class SharedList(_Rec, list):
    pass


for _n in ('__getitem__', '__iter__', 'index', 'count', 'copy'):
    setattr(SharedList, _n, _reader(_n))
for _n in ('__setitem__', '__delitem__', 'append', 'extend', 'insert', 'remove', 'clear', 'sort', 'reverse', '__iadd__'):
    setattr(SharedList, _n, _writer(_n))


def _list_pop(self, *a):
    if self.rec is not None:
        self.rec.read(self.path, '*')
    r = list.pop(self, *a)
    if self.rec is not None:
        self.rec.write(self.path, '*', tuple(list.__iter__(self)))
    return r


SharedList.pop = _list_pop


def interference(events, variable):
    """The first access of a call to a location whose value another call may have changed: (kind, location, source location)."""
    written = {}
    read = None
    for kind, loc, region, src in events:
        if loc not in variable:
            continue
        if kind == 'w':
            written.setdefault(loc, region)
        elif loc in written:
            if region is None or written[loc] != region:
                return 'written and read back', loc, src
        elif read is None:
            read = (loc, region, src)
        elif region is None or read[1] != region:
            return 'read twice', loc, src
    return None


def place(loc):
    return '.'.join(str(x) for x in loc[0]) + (f'[{loc[1]!r}]' if loc[1] != '*' else '')
