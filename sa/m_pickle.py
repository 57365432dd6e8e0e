"""The copy and pickle protocols over abstract values: a transfer function from one interpreter to another (or to the same)."""

from . import arrays as A
from . import interp as I
from .arrays import Arr, PyExc
from .interp import DefaultDict, EXT_MODULES, GenVal, MODELS, Super
from .m_builtins import ContextVar, Lock, ThreadLocal
from .m_files import Closing, FileObj, Pool, Response
from .m_more import ExitStack, GenCM
from .terms import AnalysisGap, Term
from .values import (MISSING, BoundMethod, Builtin, ClassMethod, ClassVal, ExtVal, FuncVal, Instance, ModuleVal, Obj, Opaque, PropertyVal,
                     StaticMethod, SymIter, SymList, SymStr)


class WeakRef(Obj):
    tname = 'weakref.ReferenceType'

    def __init__(self, v):
        self.v = v

    def call(self, it, args, kwargs):
        return self.v


I.MODELS['weakref.ref'] = lambda it, v, cb=None: WeakRef(v)
UNPICKLABLE = (Lock, ThreadLocal, ContextVar, FileObj, Closing, Pool, Response, ExitStack, GenCM)
REGISTERED = 'copyreg'


def _copyreg(it, cls, f, c=None):
    it.env.setdefault(REGISTERED, []).append((cls, f))


I.MODELS['copyreg.pickle'] = _copyreg
EXT_MODULES.update(('copyreg', 'pickle'))


def cannot(v, it):
    if isinstance(v, FuncVal):
        what = f"function {v.qualname}: it is not the attribute of that name of module {v.module.name}"
    elif isinstance(v, ClassVal):
        what = f'class {v.name}: it is not an attribute of module {v.module.name}'
    elif isinstance(v, ModuleVal):
        what = "'module' object"
    elif isinstance(v, Builtin):
        what = f'{v.name}'
    else:
        what = f"'{v.tname if isinstance(v, Obj) else 'generator' if isinstance(v, GenVal) else type(v).__name__}' object"
    return PyExc(TypeError, f'cannot pickle {what}')


def reference(it, v):
    """(module, path) under which a function or class is found by importing its module, or None."""
    name = v.name if isinstance(v, ClassVal) else v.qualname if isinstance(v, FuncVal) else None
    mods = [v.module] if not isinstance(v, Builtin) else [m for n, m in it.modules.items() if isinstance(m, ModuleVal)]
    for m in mods:
        if isinstance(v, Builtin):
            for k, x in list(m.ns.items()):
                if x is v:
                    return m.name, (k,)
            continue
        def search(ns, path, depth):
            for k, x in list(ns.items()):
                if x is v or isinstance(x, (StaticMethod, ClassMethod)) and x.f is v:
                    if isinstance(v, ClassVal) and k == name or isinstance(v, FuncVal) and '.'.join(path + (k,)) == name:
                        return path + (k,)
            if depth:
                for k, x in list(ns.items()):
                    if isinstance(x, ClassVal) and x.module is m and x.name == k:
                        r = search(x.ns, path + (k,), depth - 1)
                        if r:
                            return r
            return None
        r = search(m.ns, (), 3)
        if r:
            return m.name, r
    return None


def resolve(s, ref):
    mod, path = ref
    m = s.load(mod)
    for k in path:
        m = (m.ns if isinstance(m, (ModuleVal, ClassVal)) else m).get(k, MISSING)
        if isinstance(m, (StaticMethod, ClassMethod)):
            m = m.f
        if m is MISSING:
            raise PyExc(AttributeError, f'module {mod!r} has no attribute {".".join(path)}')
    return m


class Transfer:
    """go(v): what v is after pickling and unpickling in interpreter s (how = 'pickle'), or copy.deepcopy (how = 'deepcopy')."""

    def __init__(self, it, s, how):
        self.it, self.s, self.how = it, s, how
        self.memo = {}
        self.open = set()

    def keep(self, v, new):
        self.memo[id(v)] = (v, new)
        return new

    def go(self, v):
        if v is None or isinstance(v, (bool, int, float, complex, str, bytes, Term, SymStr, type, range, slice)) or v is Ellipsis or v is NotImplemented:
            return v
        if id(v) in self.memo:
            return self.memo[id(v)][1]
        pickle = self.how == 'pickle'
        if isinstance(v, Arr):
            new = A.copy(v, kind=v.kind)
            new.dtype = v.dtype
            return self.keep(v, new)
        if isinstance(v, list):
            new = self.keep(v, [])
            new.extend(self.go(x) for x in v)
            return new
        if isinstance(v, tuple):
            new = [self.go(x) for x in v]
            return self.keep(v, type(v)(*new) if hasattr(v, '_fields') else tuple(new))
        if isinstance(v, dict):
            new = self.keep(v, v.__class__.__new__(v.__class__))
            if isinstance(v, DefaultDict):
                new.factory = self.go(v.factory)
            for k, x in v.items():
                new[self.go(k)] = self.go(x)
            return new
        if isinstance(v, (set, frozenset)):
            return self.keep(v, type(v)(self.go(x) for x in v))
        if isinstance(v, SymList):
            return self.keep(v, SymList(v.size, v.name, self.go(v.elem)))
        if isinstance(v, Instance):
            return self.instance(v)
        if isinstance(v, BoundMethod):
            f = v.func
            if not pickle:
                return BoundMethod(f, self.go(v.obj))
            obj = self.go(v.obj)
            name = getattr(f, 'name', '').rsplit('.', 1)[-1]
            m = self.s.getattr(obj, name) if name and name != '<lambda>' else MISSING
            if not isinstance(m, BoundMethod):
                raise cannot(f, self.it)
            return m
        if isinstance(v, Builtin):
            return self.builtin(v, pickle)
        if isinstance(v, (FuncVal, ClassVal)):
            if not pickle:
                return v
            ref = reference(self.it, v)
            if ref is None:
                raise cannot(v, self.it)
            return self.keep(v, resolve(self.s, ref))
        if isinstance(v, ExtVal):
            if v.path in EXT_MODULES:
                raise PyExc(TypeError, "cannot pickle 'module' object")
            return v
        if isinstance(v, WeakRef):
            if pickle:
                raise cannot(v, self.it)
            return v
        if isinstance(v, (GenVal, ModuleVal)) or isinstance(v, UNPICKLABLE):
            raise cannot(v, self.it)
        if isinstance(v, (Super, PropertyVal, StaticMethod, ClassMethod, SymIter)):
            raise cannot(v, self.it)
        if isinstance(v, PyExc) or isinstance(v, Opaque) and not hasattr(v, 'picklable'):
            raise AnalysisGap(f'pickling of {type(v).__name__} {v!r}')
        if isinstance(v, Obj):
            if not v.__class__.__module__.rsplit('.', 1)[-1] in ('m_xarray', 'm_time', 'm_frame', 'm_numpy', 'm_files', 'm_builtins', 'm_more', 'm_misc'):
                raise AnalysisGap(f'pickling of {type(v).__name__}')
            new = self.keep(v, object.__new__(type(v)))
            for k, x in v.__dict__.items():
                new.__dict__[k] = self.go(x)
            return new
        if type(v).__name__ == 'Ax' or isinstance(v, type(MISSING)):
            return v
        raise AnalysisGap(f'pickling of {type(v).__name__}')

    def builtin(self, v, pickle):
        parts = getattr(v, 'parts', None)
        if parts is not None:
            if parts[0] == 'partial':
                return MODELS['functools.partial'](self.s, self.go(parts[1]), *[self.go(x) for x in parts[2]],
                                                   **{k: self.go(x) for k, x in parts[3].items()})
            if parts[0] == 'method':
                return self.s.getattr(self.go(parts[1]), parts[2])
        if not pickle:
            return v
        if v.name == 'copyreg.__newobj__' or any(v is b for b in I.BUILTINS.values()):
            return v
        ref = reference(self.it, v)
        if ref is not None:
            return resolve(self.s, ref)
        if hasattr(v, 'attrs') and '__wrapped__' in v.attrs:
            raise cannot(v, self.it)
        raise AnalysisGap(f'pickling of {v!r}')

    # -- instances
    def instance(self, v):
        it, pickle = self.it, self.how == 'pickle'
        if not pickle:
            m = special(it, v, '__deepcopy__')
            if m is not None:
                return self.keep(v, it.call(m, [{}], {}))
        red = reduced(it, v)
        if red is not None:
            return self.rebuild(v, red)
        cls = self.go(v.cls)
        new = self.keep(v, Instance(cls))
        if '__tuple__' in v.attrs:
            for k, x in v.attrs.items():
                new.attrs[k] = self.go(x)
            return new
        state = state_of(it, v)
        self.install(new, self.go(state), falsy_ok=False)
        return new

    def rebuild(self, v, red):
        if isinstance(red, str):
            ref = (v.cls.module.name, tuple(red.split('.')))
            return resolve(self.s, ref)
        if not isinstance(red, tuple) or not 2 <= len(red) <= 6:
            raise PyExc(TypeError, '__reduce__ must return a string or tuple')
        if id(v) in self.open:
            raise PyExc(RecursionError, 'maximum recursion depth exceeded: the arguments of __reduce__ hold the object itself')
        self.open.add(id(v))
        f, args = self.go(red[0]), self.go(red[1])
        self.open.discard(id(v))
        new = self.keep(v, self.s.call(f, list(args), {}))
        rest = list(red[2:]) + [None]*4
        if rest[0] is not None:
            st = self.go(rest[0])
            if rest[3] is not None:
                self.s.call(self.go(rest[3]), [new, st], {})
            else:
                self.install(new, st)
        if rest[1] is not None or rest[2] is not None:
            raise AnalysisGap('items of __reduce__')
        return new

    def install(self, new, state, falsy_ok=True):
        """What pickle and copy do with the state."""
        if state is None:
            return
        m = special(self.s, new, '__setstate__')
        if m is not None:
            self.s.call(m, [state], {})
            return
        slots = None
        if isinstance(state, tuple) and len(state) == 2:
            state, slots = state
        if state is not None and not isinstance(state, dict):
            raise PyExc(TypeError, 'state is not a dictionary')
        new.attrs.update(state or {})
        for k, x in (slots or {}).items():
            self.s.setattr(new, k, x)


def special(it, v, name):
    """getattr(v, name, None), through __getattr__ if the class has none of that name."""
    try:
        m = it.instance_attr(v, name)
    except PyExc as e:
        if isinstance(e.etype, type) and issubclass(e.etype, AttributeError):
            return None
        raise
    except AnalysisGap as g:
        if 'recursion too deep' in str(g):
            raise PyExc(RecursionError, f'maximum recursion depth exceeded when {name} is looked up') from None
        raise
    return None if m is MISSING else m


def reduced(it, v):
    """What __reduce_ex__ or __reduce__ of the class returns; None if it has none."""
    for c, f in it.env.get(REGISTERED, ()):
        if c is v.cls:
            return it.call(f, [v], {})
    m = v.cls.lookup('__reduce_ex__')
    if m is not MISSING:
        return it.call(BoundMethod(m, v), [4], {})
    m = v.cls.lookup('__reduce__')
    if m is not MISSING:
        return it.call(BoundMethod(m, v), [], {})
    for n in ('__getnewargs__', '__getnewargs_ex__'):
        if v.cls.lookup(n) is not MISSING:
            raise AnalysisGap(n)
    return None


def state_of(it, v):
    m = v.cls.lookup('__getstate__')
    if m is not MISSING:
        return it.call(BoundMethod(m, v), [], {})
    return dict(v.attrs) or None


def shallow(it, v):
    """copy.copy of an instance."""
    m = v.cls.lookup('__copy__')
    if m is not MISSING:
        return it.call(BoundMethod(m, v), [], {})
    red = reduced(it, v)
    t = Transfer(it, it, 'copy')
    t.go = lambda x: x
    if red is not None:
        return t.rebuild(v, red)
    new = Instance(v.cls)
    if '__tuple__' in v.attrs:
        new.attrs = dict(v.attrs)
        return new
    t.install(new, state_of(it, v))
    return new


_copy_other = I.MODELS['copy.copy']


def _copy(it, v):
    return shallow(it, v) if isinstance(v, Instance) else _copy_other(it, v)


I.MODELS['copy.copy'] = _copy
I.MODELS['copy.deepcopy'] = lambda it, v, memo=None: Transfer(it, it, 'deepcopy').go(v)


class Pickled(Obj):
    tname = 'bytes'

    def __init__(self, v):
        self.v = v


I.MODELS['pickle.dumps'] = lambda it, v, *a, **k: Pickled(Transfer(it, it, 'pickle').go(v))
I.MODELS['pickle.loads'] = lambda it, b, **k: Transfer(it, it, 'pickle').go(b.v)


def store(it, v, n, x):
    it.setattr(v, n, x, plain=True)


def plain_attr(it, v, n):
    r = it.instance_attr(v, n)
    if r is MISSING:
        raise PyExc(AttributeError, f'{v.cls.name!r} object has no attribute {n!r}')
    return r


def object_type_attr(it, name):
    """object.__new__ and the like."""
    if name == '__new__':
        return NEW
    if name in ('__setattr__', '__getattribute__', '__getstate__', '__reduce__', '__reduce_ex__'):
        return Builtin(lambda it, v, *a: it.call(_object_attr(it, Super(v.cls, v), name), list(a), {}), 'object.' + name)
    return MISSING


def _object_attr(it, sup, name):
    """super().__reduce__() and the like: what object does."""
    v = sup.obj
    if name == '__new__':
        return NEW
    if not isinstance(v, Instance):
        return MISSING
    if name == '__setattr__':
        return Builtin(lambda it, n, x: store(it, v, n, x), 'object.__setattr__')
    if name == '__getattribute__':
        return Builtin(lambda it, n: plain_attr(it, v, n), 'object.__getattribute__')
    if name == '__getstate__':
        return Builtin(lambda it: dict(v.attrs) or None, 'object.__getstate__')
    if name in ('__reduce__', '__reduce_ex__'):
        return Builtin(lambda it, *a: (Builtin(lambda it, c: Instance(c), 'copyreg.__newobj__'), (v.cls,), state_of(it, v)), 'object.' + name)
    return MISSING


NEW = Builtin(lambda it, c, *a, **k: Instance(c), 'object.__new__')
I.OBJECT_ATTR = _object_attr
