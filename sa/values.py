"""Runtime values of the abstract interpreter other than numbers."""

from . import terms as T
from .terms import AnalysisGap


class Obj:
    """Base of modelled library objects."""
    tname = 'object'

    def getattr(self, it, name):
        m = getattr(type(self), 'm_' + name, None)
        if m is not None:
            b = Builtin(lambda it_, *a, **k: m(self, it_, *a, **k), f'{self.tname}.{name}')
            b.parts = ('method', self, name)
            return b
        p = getattr(type(self), 'p_' + name, None)
        if p is not None:
            return p(self, it)
        return MISSING

    def truth(self, it):
        return True


class _Missing:
    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()


class Builtin:
    """A callable implemented by the analyser: fn(it, *args, **kwargs)."""
    def __init__(self, fn, name=''):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return f'<builtin {self.name}>'


class FuncVal:
    def __init__(self, node, module, parent, name, qualname, defaults, kwdefaults, is_gen):
        self.node = node
        self.module = module
        self.parent = parent          # defining Frame or None
        self.name = name
        self.qualname = qualname
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.is_gen = is_gen
        self.attrs = {}
        self._refs = None

    def __repr__(self):
        return f'<function {self.qualname}>'


class BoundMethod:
    def __init__(self, func, obj):
        self.func = func
        self.obj = obj

    def __repr__(self):
        return f'<bound {self.func!r}>'


class PropertyVal:
    def __init__(self, fget=None, fset=None, cached=False, name=None):
        self.fget, self.fset = fget, fset
        self.cached, self.name = cached, name


class StaticMethod:
    def __init__(self, f):
        self.f = f


class ClassMethod:
    def __init__(self, f):
        self.f = f


class ClassVal:
    def __init__(self, name, bases, ns, module):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassVal) and name in c.ns:
                return c.ns[name]
        return MISSING

    def is_subclass(self, other):
        for c in self.mro():
            if c is other:
                return True
            if isinstance(c, type) and isinstance(other, type) and issubclass(c, other):
                return True
        return False

    def __repr__(self):
        return f'<class {self.name}>'


class Instance:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.sealed = None      # label: attribute stores are recorded

    def __repr__(self):
        return f'<{self.cls.name} instance>'


class ModuleVal:
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.ns = {'__name__': name, '__file__': path, '__doc__': None}

    def __repr__(self):
        return f'<module {self.name}>'


class ExtVal:
    """A name of an external library: a function, type, module or constant."""
    _cache = {}

    def __new__(cls, path):
        o = cls._cache.get(path)
        if o is None:
            o = object.__new__(cls)
            o.path = path
            cls._cache[path] = o
        return o

    def __repr__(self):
        return f'<ext {self.path}>'

    def __deepcopy__(self, memo):
        return self


class SymStr:
    """A string whose content depends on abstract values."""
    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'SymStr' + repr(self.parts)

    def text(self):
        return ''.join(p if isinstance(p, str) else '{}' for p in self.parts)


class SymList:
    """A list with one generic element per value of an index variable."""
    def __init__(self, size, name, elem):
        self.size = size      # Term
        self.name = name      # index variable
        self.elem = elem      # value mentioning idxvar(name)


class SymIter:
    """Iteration over a symbolic number of elements."""
    def __init__(self, size, elem):
        self.size = size
        self.elem = elem      # function (index Term) -> value


class Opaque(Obj):
    """A value whose content is irrelevant to every property."""
    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return f'<opaque {self.label}>'

    def getattr(self, it, name):
        return Opaque(f'{self.label}.{name}')
