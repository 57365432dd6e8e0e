"""Abstract interpreter over the syntax tree of /repo/src.

Evaluates the analysed modules over the value-number domain.  Conditions that
the domain does not decide split the analysis into one trace per outcome
(trace partitioning); `explore` enumerates the traces.
"""

import ast
import builtins as _b
import os
import re
from fractions import Fraction

from . import terms as T
from . import arrays as A
from . import symstr
from .arrays import Arr, PyExc
from .terms import AnalysisGap
from .names import NAMES
from .values import (MISSING, BoundMethod, Builtin, ClassMethod, ClassVal, ExtVal, FuncVal,
                     Instance, ModuleVal, Obj, Opaque, PropertyVal, StaticMethod, SymIter,
                     SymList, SymStr)


class ReturnExc(Exception):
    def __init__(self, value):
        self.value = value


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class TooManyPaths(AnalysisGap):
    pass


class Frame:
    __slots__ = ('locals', 'module', 'parent', 'func', 'globals_', 'nonlocals', 'yields',
                 'cls', 'exc')

    def __init__(self, module, parent=None, func=None):
        self.locals = {}
        self.module = module
        self.parent = parent
        self.func = func
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None
        self.cls = None
        self.exc = None


_AST = {}
ROOT = os.environ.get('SA_ROOT', '/repo/src')

_SRC = {}


def parse_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _AST:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        try:
            _AST[key] = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisGap(f'{path}: does not parse: {e}')
        _SRC[path] = src
    return _AST[key]


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
       ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
       ast.MatMult: '@', ast.LShift: '<<', ast.RShift: '>>'}
CMPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}

MODELS = {}          # 'numpy.sin' -> fn(it, *args, **kwargs)
CONSTS = {}          # 'numpy.pi' -> value factory (callable without arguments) or value
EXT_MODULES = set()  # importable external modules
EXT_TYPES = {}       # path -> predicate(it, value)


def model(*paths):
    def deco(f):
        for p in paths:
            MODELS[p] = f
        return f
    return deco


class Stats:
    """What a run covered."""
    def __init__(self):
        self.functions = set()
        self.calls = set()
        self.statements = set()
        self.paths = 0
        self.ext_calls = set()

    def merge(self, o):
        self.functions |= o.functions
        self.calls |= o.calls
        self.statements |= o.statements
        self.ext_calls |= o.ext_calls
        self.paths += o.paths


def is_abstract(k):
    return isinstance(k, AKey) or isinstance(k, tuple) and any(is_abstract(x) for x in k)


class AKey(Obj):
    """An abstract value as the key of a dictionary: the value of a number ('value'), all bytes of an array ('bytes'), an identity ('id')."""

    def __init__(self, what, arr, obj=None):
        self.what = what
        self.arr = arr
        self.obj = obj

    def image(self):
        if self.what == 'id':
            return ('id', id(self.obj))
        if isinstance(self.arr, Arr):
            return (self.what, tuple(a.size.fp if isinstance(a, A.Ax) else a for a in self.arr.axes), tuple(c.fp for c in self.arr.cells))
        return (self.what, repr(self.arr))

    def __hash__(self):
        return hash(self.image())

    def __eq__(self, o):
        return isinstance(o, AKey) and self.image() == o.image()

    def lossless(self):
        """Does the key determine the input it is made of?"""
        if self.what == 'id':
            return False
        if not isinstance(self.arr, Arr):
            return True
        for c in self.arr.cells:
            atoms = [a for _, a in c.lin.values() if a is not None]
            if len(atoms) > 1 or any(a.op != 'atom' or not all(x.op == 'idx' for x in a.args) for a in atoms):
                return False
        return True


class Interp:
    MAX_PATHS = 96
    MAX_CALLS = 400

    def __init__(self, root=ROOT, stats=None):
        self.root = root
        self.modules = {}
        self.frames = []
        self.decisions = []
        self.trace = []           # [(term, choice)]
        self.facts = {}           # bool atom value number -> bool
        self.stats = stats or Stats()
        self.depth = 0
        self.written = []         # stores into caller-owned buffers
        self.attr_stores = []     # stores on sealed instances
        self.output = []          # printed text (CLI)
        self.opened = []          # file objects opened
        self.env = {}             # configuration: names of inputs etc.
        self.loopn = 0
        self.load_hook = None
        self.missing_modules = set()
        self.settings = {}        # settings of other packages that are changed (m_state.py)
        self.effects = []         # other changes to the process
        self.loguru = {}          # name -> messages disabled
        self.stubs = {}           # qualified function name -> replacement
        self.some_missing = set() # inputs of which an element is known to be missing
        self.restart = []         # sets of inputs without missing elements, to be explored too

    # -- modules ---------------------------------------------------------

    def find_module(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return (f if os.path.isfile(f) else None), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path, pkg = self.find_module(name)
        if pkg is None:
            top = name.split('.')[0]
            if os.path.exists(os.path.join(self.root, top)) or os.path.exists(
                    os.path.join(self.root, top + '.py')):
                raise PyExc(ModuleNotFoundError, f'No module named {name!r}')
            return self.load_ext(name)
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        m = ModuleVal(name, path)
        m.ns['__package__'] = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.ns['__path__'] = [os.path.dirname(path or '')]
        self.modules[name] = m
        if path:
            tree = parse_file(path)
            fr = Frame(m)
            fr.locals = m.ns
            self.frames.append(fr)
            old = T.Loc.cur
            try:
                self.exec_block(tree.body)
            except PyExc:
                del self.modules[name]
                raise
            finally:
                self.frames.pop()
                T.Loc.cur = old
        if '.' in name:
            parent.ns[name.rsplit('.', 1)[1]] = m
        return m

    def load_ext(self, name):
        if name in self.missing_modules:
            raise PyExc(ModuleNotFoundError, f'No module named {name!r}')
        top = name.partition('.')[0]
        if top in self.missing_modules:
            raise PyExc(ModuleNotFoundError, f'No module named {top!r}')
        if top in EXT_MODULES:
            return ExtVal(name)
        raise PyExc(ModuleNotFoundError, f'No module named {name!r}')

    def resolve_relative(self, module, level, name):
        pkg = module.ns.get('__package__') or ''
        parts = pkg.split('.')
        if level > 1:
            parts = parts[:len(parts) - (level - 1)]
        if not parts or parts == ['']:
            raise PyExc(ImportError, 'attempted relative import beyond top-level package')
        return '.'.join(parts + ([name] if name else []))

    def import_from(self, module, name):
        if isinstance(module, ModuleVal):
            if name in module.ns:
                return module.ns[name]
            if '__getattr__' in module.ns:
                return self.call(module.ns['__getattr__'], [name])
            if '__path__' in module.ns:
                try:
                    return self.load(module.name + '.' + name)
                except PyExc as e:
                    if e.etype is ModuleNotFoundError and module.name + '.' + name in e.msg:
                        raise PyExc(ImportError, f'cannot import name {name!r} from {module.name!r}')
                    raise
            raise PyExc(ImportError, f'cannot import name {name!r} from {module.name!r}')
        return self.ext_attr(module, name)

    # -- external names ----------------------------------------------------

    def ext_attr(self, ext, name):
        p = ext.path + '.' + name
        if p in self.settings:
            return self.settings[p][0]
        if p in CONSTS:
            c = CONSTS[p]
            return c() if callable(c) and not isinstance(c, (type, Builtin)) else c
        return ExtVal(p)

    # -- statements ----------------------------------------------------------

    @property
    def fr(self):
        return self.frames[-1]

    def setloc(self, node):
        fr = self.frames[-1]
        T.Loc.cur = (fr.module.path, fr.func.qualname if fr.func else '<module>', node.lineno)

    def exec_block(self, body):
        for s in body:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.setloc(s)
        if self.frames[-1].func is not None:
            self.stats.statements.add((self.frames[-1].module.path, s.lineno))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisGap(f'statement {type(s).__name__} at {T.Loc.cur}')
        return m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_TypeAlias(self, s):
        self.store_name(s.name.id, Opaque(s.name.id))

    def s_Import(self, s):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.store_name(top, self.modules.get(top) or ExtVal(top))

    def s_ImportFrom(self, s):
        if s.module == '__future__':
            return
        name = s.module
        if s.level:
            name = self.resolve_relative(self.fr.module, s.level, s.module)
        m = self.load(name)
        for a in s.names:
            if a.name == '*':
                names = m.ns.get('__all__') or [k for k in m.ns if not k.startswith('_')]
                for k in names:
                    self.store_name(k, m.ns[k])
                continue
            self.store_name(a.asname or a.name, self.import_from(m, a.name))

    def s_FunctionDef(self, s):
        f = self.make_func(s)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), [v])
        self.store_name(s.name, v)

    def s_AsyncFunctionDef(self, s):
        raise AnalysisGap('async function')

    def make_func(self, node, name=None):
        fr = self.fr
        a = node.args
        defaults = [self.eval(x) for x in a.defaults]
        kwd = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = name or getattr(node, 'name', '<lambda>')
        pre = ''
        if fr.cls is not None:
            pre = fr.cls + '.'
        elif fr.func is not None:
            pre = fr.func.qualname + '.<locals>.'
        parent = fr if (fr.func is not None) else None
        if fr.cls is not None:
            parent = fr.parent
        return FuncVal(node, fr.module, parent, name, pre + name, defaults, kwd, _is_gen(node))

    def s_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        fr = Frame(self.fr.module, self.fr if self.fr.func is not None else None, self.fr.func)
        fr.cls = s.name
        fr.locals = {'__module__': self.fr.module.name, '__qualname__': s.name,
                     '__annotations__': {}}
        self.frames.append(fr)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        c = ClassVal(s.name, bases, fr.locals, self.fr.module)
        for b in bases:
            if isinstance(b, ExtVal) and b.path == 'typing.NamedTuple':
                fields = list(c.ns['__annotations__'])
                c.ns['_fields'] = tuple(fields)
                c.bases = [_b.tuple]
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), [v])
        self.store_name(s.name, v)

    def s_Return(self, s):
        raise ReturnExc(self.eval(s.value) if s.value is not None else None)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))
        if self.fr.cls is not None and isinstance(s.target, ast.Name):
            self.fr.locals['__annotations__'][s.target.id] = None

    def s_AugAssign(self, s):
        op = OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id)
            new = self.inplace(op, old, self.eval(s.value))
            self.store_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, old, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            old = self.getitem(o, k)
            v = self.eval(s.value)
            if isinstance(old, Arr) and old.axes:
                new = self.binop(op, old, v)
            else:
                new = self.inplace(op, old, v)
            self.setitem(o, k, new)
        else:
            raise AnalysisGap('augmented assignment target')

    def inplace(self, op, old, v):
        if isinstance(old, Arr) and old.kind == 'nd':
            r = self.binop(op, old, v)
            if not isinstance(r, Arr):
                return r
            if A.is_int(old.dtype) and A.is_float(r.dtype) or \
                    A.is_bool(old.dtype) and not A.is_bool(r.dtype):
                raise PyExc(TypeError, f'cannot cast ufunc output from {r.dtype} to {old.dtype}')
            A.setitem(old, Ellipsis, r, self.written)
            return old
        if isinstance(old, list) and op == '+':
            old.extend(self.to_list(v))
            return old
        if isinstance(old, Obj) and hasattr(old, 'inplace'):
            return old.inplace(self, op, v)
        if isinstance(old, (dict, set)) and op in '|&-^':
            r = self.binop(op, old, v)
            old.clear()
            old.update(r)
            return old
        return self.binop(op, old, v)

    def s_If(self, s):
        if self.truth(self.eval(s.test)):
            self.exec_block(s.body)
        else:
            self.exec_block(s.orelse)

    def s_While(self, s):
        n = 0
        while self.truth(self.eval(s.test)):
            n += 1
            if n > 20000:
                raise AnalysisGap(f'while loop not bounded at {T.Loc.cur}')
            try:
                self.exec_block(s.body)
            except BreakExc:
                return
            except ContinueExc:
                continue
            self.setloc(s)
        self.exec_block(s.orelse)

    def s_For(self, s):
        itr = self.eval(s.iter)
        if isinstance(itr, Obj) and hasattr(itr, 'loop') and len(itr.its) > 1:
            return itr.loop(self, s)
        if isinstance(itr, Obj) and hasattr(itr, 'stream'):
            itr = itr.stream(self)
        if isinstance(itr, GenVal):
            def pull(g):
                while not g.empty():
                    yield g.pop()
            itr = pull(itr)
        else:
            itr = self.iterate(itr)
        if isinstance(itr, SymIter):
            return self.sym_for(s, itr)
        for v in itr:
            self.assign(s.target, v)
            try:
                self.exec_block(s.body)
            except BreakExc:
                return
            except ContinueExc:
                continue
        self.exec_block(s.orelse)

    # one generic iteration of a loop over a symbolic number of elements
    def sym_for(self, s, itr):
        self.loopn += 1
        iname = f'loop{self.loopn}'
        i = T.idxvar(iname)
        before = dict(self.fr.locals)
        lens = {id(v): (v, len(v)) for v in before.values() if isinstance(v, list)}
        arrs = {}
        for v in self._reachable_arrays(before.values()):
            arrs[id(v)] = (v, list(v.cells))
        mark = len(self.written)
        self.assign(s.target, itr.elem(i))
        try:
            self.exec_block(s.body)
        except ContinueExc:
            pass
        except BreakExc:
            raise AnalysisGap('break in a loop over a symbolic range')
        size = itr.size
        last = T.sub(size, T.const(1))
        # stores
        for v in list(self._reachable_arrays(self.fr.locals.values())):
            old = arrs.get(id(v))
            if old is None:
                continue
            v = old[0]
            if any(p is not q for p, q in zip(v.cells, old[1])):
                v.cells = [self._fold_store(c, o, iname, i, size, v)
                           for c, o in zip(v.cells, old[1])]
        # appends
        for v, n in lens.values():
            if len(v) == n:
                continue
            if len(v) != n + 1 or n != 0:
                raise AnalysisGap('unsupported list growth in a loop over a symbolic range')
            sl = SymList(size, iname, v[0])
            for k, w in list(self.fr.locals.items()):
                if w is v:
                    self.fr.locals[k] = sl
        # scalars: the value of the last iteration
        assigned = _assigned_names(s)
        for k in assigned:
            if k in self.fr.locals:
                new = self.fr.locals[k]
                if k in before and before[k] is not new and isinstance(new, Arr):
                    if self._uses_before_assign(s, k):
                        ov = before[k]
                        self.fr.locals[k] = self._fold_accum(ov, new, iname, size)
                        continue
                if isinstance(new, Arr):
                    if any(iname in T.idx_deps(c) for c in new.cells) and not isinstance(new, SymList):
                        self.fr.locals[k] = Arr(new.axes, [T.subst(c, {iname: last}) for c in new.cells],
                                                new.dtype, new.kind)
        del self.written[mark:mark]
        self.exec_block(s.orelse)

    def _uses_before_assign(self, s, name):
        """Is `name` read in the loop body before it is assigned there?"""
        for st in s.body:
            loads = [n for n in ast.walk(st) if isinstance(n, ast.Name) and n.id == name]
            if not loads:
                continue
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
                return True
            return any(isinstance(n.ctx, ast.Load) for n in loads)
        return False

    def _fold_accum(self, old, new, iname, size):
        old, new = A.lift(old), A.lift(new)
        if len(old.cells) != 1 or len(new.cells) != 1 or new.axes != old.axes and (new.axes or old.axes):
            if len(new.cells) != 1:
                raise AnalysisGap('loop-carried array')
        d = T.sub(new.cells[0], old.cells[0])
        ax = A.Ax(size, iname)
        s = A.reduce_term('sum', d, ax)
        return Arr(new.axes, [T.add(old.cells[0], s)], new.dtype, new.kind)

    def _fold_store(self, c, old, iname, i, size, arr):
        if iname not in T.idx_deps(c):
            return c
        if c.op == 'ite':
            g, x, y = c.args
            if iname not in T.idx_deps(g):
                # a test of the outer index
                return T.ite(g, self._fold_store(x, old, iname, i, size, arr), self._fold_store(y, old, iname, i, size, arr))
            for gg, v, w in ((g, x, y), (T.bnot(g), y, x)):
                if gg.op == 'and' and iname not in T.idx_deps(w):
                    mine, rest = [], T.TRUE
                    todo = [gg]
                    while todo:
                        q = todo.pop()
                        if q.op == 'and':
                            todo += list(q.args)
                        elif iname in T.idx_deps(q):
                            mine.append(q)
                        else:
                            rest = T.band(rest, q)
                    if len(mine) == 1 and rest is not T.TRUE:
                        return self._fold_store(T.ite(mine[0], T.ite(rest, v, w), w), old, iname, i, size, arr)
                if gg.op == 'eq0' and iname not in T.idx_deps(w):
                    # guard: some index expression equals i
                    e = gg.args[0]
                    lin = e.lin.get(i.fp)
                    if lin is None:
                        continue
                    coef = lin[0]
                    t = T.sub(T.scale(i, coef), e)          # coef*i - e, free of i
                    t = T.scale(t, T.c_inv(coef))
                    if iname in T.idx_deps(A._simplify(t)):
                        continue
                    t = A._simplify(t)
                    full = any(isinstance(a, A.Ax) and t.op == 'idx' and a.name == t.data and
                               A.same_size(a, A.Ax(size, 'x')) for a in arr.axes)
                    v2 = T.subst(v, {iname: t})
                    if full:
                        return v2
                    inr = T.band(T.le(T.const(0), t), T.lt(t, size))
                    return T.ite(inr, v2, w)
        if c.op == 'masked':
            # stores into an array of NaN: defined where the store was made
            todo, parts = [c.valid], []
            while todo:
                q = todo.pop()
                if q.op == 'and':
                    todo += list(q.args)
                else:
                    parts.append(q)
            for q in parts:
                if q.op != 'eq0' or iname not in T.idx_deps(q):
                    continue
                lin = q.args[0].lin.get(i.fp)
                if lin is None:
                    continue
                t = T.scale(T.sub(T.scale(i, lin[0]), q.args[0]), T.c_inv(lin[0]))
                t = A._simplify(t)
                if iname in T.idx_deps(t):
                    continue
                full = any(isinstance(a, A.Ax) and t.op == 'idx' and a.name == t.data and
                           A.same_size(a, A.Ax(size, 'x')) for a in arr.axes)
                rest = T.TRUE if full else T.band(T.le(T.const(0), t), T.lt(t, size))
                for r in parts:
                    if r is not q:
                        rest = T.band(rest, r)
                return T.subst(T.revalid(c.args[0], rest), {iname: t})
        raise AnalysisGap('store in a loop over a symbolic range')

    def _reachable_arrays(self, vals, seen=None):
        seen = set() if seen is None else seen
        stack = list(vals)
        while stack:
            v = stack.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, Arr):
                yield v
                if v.base is not None:
                    stack.append(v.base)
            elif isinstance(v, dict):
                stack.extend(v.values())
            elif isinstance(v, (list, tuple)):
                stack.extend(v)
            elif isinstance(v, Instance):
                stack.extend(v.attrs.values())

    def s_Break(self, s):
        raise BreakExc()

    def s_Continue(self, s):
        raise ContinueExc()

    def s_Raise(self, s):
        if s.exc is None:
            if self.fr.exc is not None:
                raise self.fr.exc
            for f in reversed(self.frames):
                if f.exc is not None:
                    raise f.exc
            raise PyExc(RuntimeError, 'No active exception to reraise')
        raise self.to_exc(self.eval(s.exc))

    def to_exc(self, v):
        if isinstance(v, PyExc):
            return PyExc(v.etype, v.msg, T.Loc.cur, v.value) if v.loc is None else v
        if isinstance(v, Instance):
            return PyExc(v.cls, '', value=v)
        if isinstance(v, ClassVal):
            return PyExc(v, '', value=self.call(v, []))
        if isinstance(v, type) and issubclass(v, BaseException):
            return PyExc(v, '')
        if isinstance(v, ExtVal):
            return PyExc(v, '')
        raise PyExc(TypeError, 'exceptions must derive from BaseException')

    def exc_matches(self, e, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(e, c) for c in cls)
        t = e.etype
        if isinstance(t, type) and isinstance(cls, type):
            return issubclass(t, cls)
        if isinstance(t, ClassVal):
            return t.is_subclass(cls)
        if isinstance(t, ExtVal):
            if t is cls:
                return True
            base = EXT_EXC.get(t.path, Exception)
            return isinstance(cls, type) and issubclass(base, cls)
        return False

    def s_Try(self, s):
        try:
            try:
                self.exec_block(s.body)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e, self.eval(h.type)):
                        if h.name:
                            self.store_name(h.name, e.value if e.value is not None else e)
                        old = self.fr.exc
                        self.fr.exc = e
                        try:
                            self.exec_block(h.body)
                        finally:
                            self.fr.exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody)

    def s_With(self, s):
        self._with(s.items, s.body)

    def _with(self, items, body):
        if not items:
            self.exec_block(body)
            return
        cm = self.eval(items[0].context_expr)
        if hasattr(cm, 'within'):
            def body_(v):
                if items[0].optional_vars is not None:
                    self.assign(items[0].optional_vars, v)
                self._with(items[1:], body)
            cm.within(self, body_)
            return
        v = self.call(self.getattr(cm, '__enter__'), [])
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v)
        try:
            self._with(items[1:], body)
        except PyExc as e:
            if self.truth(self.call(self.getattr(cm, '__exit__'), [e.etype, e, None])):
                return
            raise
        except (ReturnExc, BreakExc, ContinueExc):
            self.call(self.getattr(cm, '__exit__'), [None, None, None])
            raise
        self.call(self.getattr(cm, '__exit__'), [None, None, None])

    def s_Assert(self, s):
        c = self.eval(s.test)
        if not self.truth(c):
            raise PyExc(AssertionError, self.text(self.eval(s.msg)) if s.msg else '')

    def s_Global(self, s):
        self.fr.globals_.update(s.names)

    def s_Nonlocal(self, s):
        self.fr.nonlocals.update(s.names)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval_index(t.slice)
                if isinstance(o, (list, dict)):
                    try:
                        del o[k]
                    except (KeyError, IndexError) as e:
                        raise PyExc(type(e), str(k))
                elif isinstance(o, Obj) and hasattr(o, 'delitem'):
                    o.delitem(self, k)
                else:
                    raise AnalysisGap('del of a library object item')
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, Instance):
                    o.attrs.pop(t.attr, None)
            else:
                raise AnalysisGap('del target')

    def s_Match(self, s):
        v = self.eval(s.subject)
        for c in s.cases:
            if self.match(c.pattern, v) and (c.guard is None or self.truth(self.eval(c.guard))):
                self.exec_block(c.body)
                return

    def match(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('==', v, self.eval(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v):
                return False
            if p.name:
                self.store_name(p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)) or len(v) != len(p.patterns) or any(
                    isinstance(q, ast.MatchStar) for q in p.patterns):
                return False
            return all(self.match(q, x) for q, x in zip(p.patterns, v))
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance(v, self.eval(p.cls))
        raise AnalysisGap('match pattern')

    # -- names -----------------------------------------------------------------

    def store_name(self, name, v):
        fr = self.fr
        if name in fr.globals_:
            fr.module.ns[name] = v
            return
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.locals:
                    p.locals[name] = v
                    return
                p = p.parent
        fr.locals[name] = v

    def load_name(self, name):
        fr = self.fr
        if name in fr.locals and name not in fr.globals_:
            return fr.locals[name]
        f = fr
        if f.func is not None and name not in f.globals_ and f.cls is None and \
                name in _local_names(f.func.node) and name not in fr.nonlocals and \
                fr.locals is not fr.module.ns and not isinstance(f.func.node, ast.GeneratorExp):
            raise PyExc(UnboundLocalError, 'cannot access local variable '
                        f'{name!r} where it is not associated with a value')
        p = fr.parent
        while p is not None:
            if name in p.locals:
                return p.locals[name]
            p = p.parent
        if name in fr.module.ns:
            return fr.module.ns[name]
        v = BUILTINS.get(name, MISSING)
        if v is not MISSING:
            return v
        h = getattr(_b, name, None)
        if isinstance(h, type) and issubclass(h, BaseException):
            return h
        if name in ('float', 'int', 'bool', 'str', 'list', 'dict', 'tuple', 'set', 'object', 'type',
                    'bytes', 'complex', 'frozenset', 'slice', 'range', 'property', 'staticmethod',
                    'classmethod', 'super'):
            return h
        if hasattr(_b, name):
            raise AnalysisGap(f'builtin {name}')
        raise PyExc(NameError, f'name {name!r} is not defined')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.to_list(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if len(items) < n:
                    raise PyExc(ValueError, 'not enough values to unpack')
                k = len(items) - (n - i)
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, items[i:k])
                for e, x in zip(t.elts[i + 1:], items[k:]):
                    self.assign(e, x)
                return
            if len(items) != len(t.elts):
                raise PyExc(ValueError, f'expected {len(t.elts)} values to unpack, got {len(items)}')
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            self.setitem(o, self.eval_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise AnalysisGap('assignment target')

    # -- expressions -------------------------------------------------------------

    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisGap(f'expression {type(e).__name__}')
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.load_name(e.id)

    def e_Tuple(self, e):
        return tuple(self._elts(e.elts))

    def e_List(self, e):
        return self._elts(e.elts)

    def e_Set(self, e):
        return set(self.hashable(x) for x in self._elts(e.elts))

    def _elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_list(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v)
                d.update(m)
            else:
                kk = self.hashable(self.eval(k))
                d[kk] = self.eval(v)
        return d

    def hashable(self, k):
        if isinstance(k, Arr):
            f = T.const_fraction(k.term) if not k.axes else None
            if f is not None:
                return int(f) if f.denominator == 1 else float(f)
            if k.kind == 'nd':
                raise PyExc(TypeError, "unhashable type: 'numpy.ndarray'")
            return AKey('value', k)
        if isinstance(k, SymList):
            return AKey('list', k.elem, k)
        if isinstance(k, (list, dict, set)):
            raise PyExc(TypeError, f'unhashable type: {type(k).__name__!r}')
        if isinstance(k, tuple):
            return tuple(self.hashable(x) for x in k)
        return k

    def key_in(self, o, k):
        """The key of the dictionary or set o that equals k (k itself when there is none)."""
        k = self.hashable(k)
        if k in o or not o:
            return k
        ab = is_abstract(k)
        for s in list(o):
            if (ab or is_abstract(s)) and self.key_eq(s, k):
                return s
        return k

    def key_eq(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            pairs = sorted(zip(a, b), key=lambda p: is_abstract(p[0]) or is_abstract(p[1]))
            return all(self.key_eq(x, y) for x, y in pairs)
        if not is_abstract(a) and not is_abstract(b):
            return a == b
        if isinstance(a, AKey) and isinstance(b, AKey):
            if a == b:
                return True
            if a.what != b.what:
                return False
            if a.what == 'id':
                # the address of an object no longer in use may be that of another
                return True
            if a.lossless() and b.lossless():
                return False
            va, vb = a.arr, b.arr
            if not isinstance(va, Arr) or not isinstance(vb, Arr) or len(va.cells) != 1 or len(vb.cells) != 1:
                return False
            if [getattr(x, 'size', T.const(0)).fp if isinstance(x, A.Ax) else x for x in va.axes] != \
                    [getattr(x, 'size', T.const(0)).fp if isinstance(x, A.Ax) else x for x in vb.axes]:
                return False
            c = T.eq(va.cells[0], vb.cells[0])
        else:
            a, b = (a, b) if isinstance(a, AKey) else (b, a)
            if a.what != 'value' or not isinstance(b, (int, float)) or not isinstance(a.arr, Arr) or a.arr.axes:
                return False
            c = T.eq(a.arr.term, T.const(b))
        return self.branch(c) if c is not T.TRUE and c is not T.FALSE else c is T.TRUE

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        self.setloc(e)
        return self.binop(OPS[type(e.op)], a, b)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        self.setloc(e)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Arr) and not v.axes and v.cells[0].isbool:
                return A.pybool(T.bnot(v.cells[0]))
            return not self.truth(v)
        op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
        return self.unary(op, v)

    def unary(self, op, v):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return {'-': -v, '+': v, '~': ~v}[op]
        if isinstance(v, float):
            return -v if op == '-' else v
        if isinstance(v, Arr):
            return A.unary(op, v)
        if isinstance(v, Obj) and hasattr(v, 'unary'):
            return v.unary(self, op)
        if isinstance(v, Instance):
            f = v.cls.lookup({'-': '__neg__', '+': '__pos__', '~': '__invert__'}[op])
            if f is not MISSING:
                return self.call(BoundMethod(f, v), [])
        raise PyExc(TypeError, f'bad operand type for unary {op}: {self.tname(v)}')

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not (isinstance(v, Arr)) else False
            if not isand and t:
                return v if not (isinstance(v, Arr) and v.cells[0].isbool) else True
        return v

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r)
            self.setloc(e)
            c = self.compare_op(op, left, right)
            if i == 0:
                res = c
            else:
                if isinstance(res, Arr) and not res.axes and res.kind != 'nd' and \
                        (isinstance(c, bool) or isinstance(c, Arr) and not c.axes):
                    res = A.pybool(T.band(res.cells[0], A.lift(c).cells[0]))
                elif not self.truth(res):
                    return res
                else:
                    res = c
            if res is False:
                return False
            left = right
        return res

    def compare_op(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else A.pybool(T.bnot(r.cells[0]))
        return self.compare(CMPS[type(op)], a, b)

    def is_(self, a, b):
        if isinstance(b, bool) and isinstance(a, Arr) and a.kind == 'py' and a.dtype == 'pyb':
            t = self.truth(a)
            return t is b
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            return a is b
        return a is b or (isinstance(a, (int, str)) and type(a) is type(b) and a == b)

    def compare(self, op, a, b):
        if isinstance(a, Obj) and hasattr(a, 'compare'):
            return a.compare(self, op, b)
        if isinstance(b, Obj) and hasattr(b, 'compare'):
            inv = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]
            return b.compare(self, inv, a)
        if isinstance(a, Instance):
            n = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '>': '__gt__', '<=': '__le__',
                 '>=': '__ge__'}[op]
            f = a.cls.lookup(n)
            if f is not MISSING:
                return self.call(BoundMethod(f, a), [b])
            if '__eq_fields__' in a.cls.ns and isinstance(b, Instance) and b.cls is a.cls and op in ('==', '!='):
                r = self.compare('==', tuple(a.attrs.values()), tuple(b.attrs.values()))
                return r if op == '==' else self.unary_not(r)
        num = (bool, int, float, Fraction, Arr)
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, Arr) and not isinstance(b, Arr):
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
                        '==': a == b, '!=': a != b}[op]
            r = A.compare(op, a, b)
            if not r.axes and r.kind == 'py':
                return A.pybool(r.cells[0])
            return r
        if isinstance(a, Arr) and isinstance(b, (list, tuple)):
            return A.compare(op, a, A.from_nested(b))
        if isinstance(b, Arr) and isinstance(a, (list, tuple)):
            return A.compare(op, A.from_nested(a), b)
        if isinstance(a, (tuple, list)) and type(a) is type(b):
            if op in ('==', '!='):
                if len(a) != len(b):
                    return op == '!='
                r = T.TRUE
                for x, y in zip(a, b):
                    c = self.compare('==', x, y) if not (x is y) else True
                    if isinstance(c, bool):
                        c = T.TRUE if c else T.FALSE
                    elif isinstance(c, Arr):
                        if c.axes:
                            self.truth(c)
                        c = c.cells[0]
                    else:
                        c = T.TRUE if self.truth(c) else T.FALSE
                    r = T.band(r, c)
                return A.pybool(r if op == '==' else T.bnot(r))
            for x, y in zip(a, b):
                if not self.truth(self.compare('==', x, y)):
                    return self.compare(op, x, y)
            return self.compare(op, len(a), len(b))
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if op in ('==', '!='):
                if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)):
                    return op == '!='
                return symstr.equals(a, b) == (op == '==')
            raise AnalysisGap('comparison of abstract strings')
        if op == '==':
            return self._native_eq(a, b)
        if op == '!=':
            return not self._native_eq(a, b)
        if isinstance(a, (str, bytes, set, frozenset)) and isinstance(b, (str, bytes, set, frozenset)):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        raise PyExc(TypeError, f'{op} not supported between {self.tname(a)} and {self.tname(b)}')

    def unary_not(self, r):
        return (not r) if isinstance(r, bool) else A.pybool(T.bnot(r.cells[0]))

    def _native_eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, (dict, set, frozenset, str, bytes, type(None), range, slice)) and \
                isinstance(b, (dict, set, frozenset, str, bytes, type(None), range, slice)):
            if isinstance(a, dict) and isinstance(b, dict):
                if set(a) != set(b):
                    return False
                return all(self.truth(self.compare('==', a[k], b[k])) for k in a)
            return a == b
        return False

    def contains(self, c, x):
        if isinstance(c, Obj) and hasattr(c, 'contains'):
            return c.contains(self, x)
        if isinstance(c, dict):
            return self.key_in(c, x) in c if not isinstance(x, SymStr) else False
        if isinstance(c, (set, frozenset)):
            return self.key_in(c, x) in c
        if isinstance(c, (str, bytes)):
            if isinstance(x, SymStr):
                raise AnalysisGap('abstract string membership')
            if not isinstance(x, (str, bytes)):
                raise PyExc(TypeError, "'in <string>' requires string as left operand")
            return x in c
        if isinstance(c, SymStr):
            if isinstance(x, (str, SymStr)):
                return symstr.contains(c, x)
            raise AnalysisGap('abstract string membership')
        if isinstance(c, (list, tuple, range)):
            res = T.FALSE
            for y in c:
                r = self.compare('==', x, y) if x is not y else True
                if isinstance(r, Arr):
                    if r.axes:
                        if self.truth(r):
                            return True
                        continue
                    res = T.bor(res, r.cells[0])
                elif self.truth(r):
                    return True
            return A.pybool(res)
        if isinstance(c, Arr):
            r = A.compare('==', c, x)
            for ax in range(r.ndim):
                r = A.reduce_axis('any', r, 0)
            return A.pybool(r.cells[0])
        if isinstance(c, Instance):
            f = c.cls.lookup('__contains__')
            if f is not MISSING:
                return self.truth(self.call(BoundMethod(f, c), [x]))
        raise PyExc(TypeError, f'argument of type {self.tname(c)} is not iterable')

    def e_IfExp(self, e):
        return self.eval(e.body) if self.truth(self.eval(e.test)) else self.eval(e.orelse)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.store_name(e.target.id, v)
        return v

    def e_Lambda(self, e):
        return self.make_func(e, '<lambda>')

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value)
                spec = self.eval(x.format_spec) if x.format_spec is not None else ''
                if x.conversion == ord('r'):
                    v = self.repr(v)
                elif x.conversion == ord('s'):
                    v = self.str(v)
                parts.append(self.format(v, spec))
        return join_parts(parts)

    def e_FormattedValue(self, e):
        v = self.eval(e.value)
        return self.format(v, self.eval(e.format_spec) if e.format_spec is not None else '')

    def format(self, v, spec=''):
        if isinstance(v, Arr) and not v.axes:
            f = T.const_fraction(v.term)
            if f is not None and v.dtype != 'U':
                v = int(f) if (A.is_int(v.dtype)) else float(f)
        if isinstance(v, (int, float, str, bool)) or v is None:
            if isinstance(spec, SymStr):
                return SymStr([('call', 'format', v, spec)])
            try:
                return format(v, spec)
            except ValueError as e:
                raise PyExc(ValueError, str(e))
            except TypeError as e:
                raise PyExc(TypeError, str(e))
        if isinstance(v, Obj) and hasattr(v, 'format'):
            return v.format(self, spec)
        if isinstance(v, Arr) and not v.axes and v.dtype not in ('O', 'U'):
            return symstr.number(v, spec)
        if isinstance(v, SymStr) and isinstance(spec, str) and re.fullmatch(r'[<>^]?[0-9]*s?', spec):
            return v
        if spec == '':
            return self.str(v)
        return SymStr([('fmt', spec, v)])

    def str(self, v):
        if isinstance(v, (str, SymStr)):
            return v
        if isinstance(v, PyExc):
            return v.msg
        if isinstance(v, Obj) and hasattr(v, 'str'):
            return v.str(self)
        if isinstance(v, Instance):
            f = v.cls.lookup('__str__')
            if f is MISSING:
                f = v.cls.lookup('__repr__')
            if f is not MISSING:
                return self.call(BoundMethod(f, v), [])
        return self.repr(v)

    def repr(self, v):
        if isinstance(v, (bool, int, float, str, bytes, type(None))):
            return repr(v)
        if isinstance(v, (tuple, list)):
            parts = ['(' if isinstance(v, tuple) else '[']
            for i, x in enumerate(v):
                if i:
                    parts.append(', ')
                parts.append(self.repr(x))
            if isinstance(v, tuple) and len(v) == 1:
                parts.append(',')
            parts.append(')' if isinstance(v, tuple) else ']')
            return join_parts(parts)
        if isinstance(v, dict) and all(isinstance(k, str) for k in v):
            parts = ['{']
            for i, (k, x) in enumerate(v.items()):
                parts += [', ' if i else '', repr(k), ': ', self.repr(x)]
            return join_parts(parts + ['}'])
        if isinstance(v, Arr) and not v.axes:
            f = T.const_fraction(v.term)
            if f is not None:
                return repr(int(f) if A.is_int(v.dtype) else float(f))
            if v.dtype not in ('O', 'U'):
                return symstr.number(v)
        return SymStr([('val', v)])

    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, SymStr):
            return v.text()
        return str(v)[:200]

    # comprehensions ---------------------------------------------------------

    def e_ListComp(self, e):
        return self._comp(e, lambda: self.eval(e.elt))

    def e_SetComp(self, e):
        return set(self.hashable(x) for x in self._comp(e, lambda: self.eval(e.elt)))

    def e_GeneratorExp(self, e):
        # evaluated eagerly; order of effects is that of consumption by the caller
        v = self._comp(e, lambda: self.eval(e.elt))
        return GenVal(v) if isinstance(v, list) else v

    def e_DictComp(self, e):
        d = {}

        def one():
            k = self.hashable(self.eval(e.key))
            d[k] = self.eval(e.value)
        self._comp(e, one)
        return d

    def _comp(self, e, fn):
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        fr = self.fr
        saved = {n: fr.locals.get(n, MISSING) for n in names}
        out = []
        sym = []

        def rec(i):
            if i == len(e.generators):
                out.append(fn())
                return
            g = e.generators[i]
            itr = self.iterate(self.eval(g.iter))
            if isinstance(itr, SymIter):
                if len(e.generators) != 1 or g.ifs:
                    raise AnalysisGap('nested comprehension over a symbolic range')
                self.loopn += 1
                iname = f'loop{self.loopn}'
                self.assign(g.target, itr.elem(T.idxvar(iname)))
                sym.append(SymList(itr.size, iname, fn()))
                return
            for v in itr:
                self.assign(g.target, v)
                if all(self.truth(self.eval(c)) for c in g.ifs):
                    rec(i + 1)
        try:
            rec(0)
        finally:
            for n, v in saved.items():
                if v is MISSING:
                    fr.locals.pop(n, None)
                else:
                    fr.locals[n] = v
        if sym:
            return sym[0]
        return out

    def e_Starred(self, e):
        raise AnalysisGap('starred expression')

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        fr = self.fr
        if fr.yields is None:
            raise AnalysisGap('yield outside a generator')
        fr.yields(v)
        return None

    def e_YieldFrom(self, e):
        for v in self.to_list(self.eval(e.value)):
            self.fr.yields(v)
        return None

    def e_Attribute(self, e):
        o = self.eval(e.value)
        self.setloc(e)
        return self.getattr(o, e.attr)

    def eval_index(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self._elts(s.elts) if not any(isinstance(x, ast.Slice) for x in s.elts)
                         else [self.eval_index(x) for x in s.elts])
        if isinstance(s, ast.Slice):
            f = lambda x: self._sl(self.eval(x)) if x is not None else None   # noqa: E731
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.eval(s)

    def e_Slice(self, s):
        return self.eval_index(s)

    def _sl(self, v):
        if isinstance(v, Arr) and not v.axes:
            if A.is_float(v.dtype):
                raise PyExc(TypeError, 'slice indices must be integers or None')
            if v.kind == 'sc' or v.kind == 'py':
                f = T.const_fraction(v.term)
                return int(f) if f is not None else v
        if isinstance(v, float):
            raise PyExc(TypeError, 'slice indices must be integers or None')
        return v

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval_index(e.slice)
        self.setloc(e)
        return self.getitem(o, k)

    def e_Call(self, e):
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.to_list(self.eval(a.value)))
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.eval(k.value)
                if not isinstance(m, dict):
                    raise PyExc(TypeError, 'argument after ** must be a mapping')
                for kk, v in m.items():
                    if kk in kwargs:
                        raise PyExc(TypeError, f'multiple values for keyword argument {kk!r}')
                    kwargs[kk] = v
            else:
                kwargs[k.arg] = self.eval(k.value)
        self.setloc(e)
        self.stats.calls.add(T.Loc.cur)
        loc = T.Loc.cur
        r = self.call(f, args, kwargs)
        T.Loc.cur = loc
        return r

    def e_Await(self, e):
        raise AnalysisGap('await')

    # -- calls -------------------------------------------------------------------

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundMethod):
            if isinstance(f.func, (FuncVal, Builtin, ExtVal)):
                return self.call(f.func, [f.obj] + list(args), kwargs)
            return self.call(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, Builtin):
            try:
                return f.fn(self, *args, **kwargs)
            except TypeError as e:
                if _is_signature_error(e, f.fn):
                    raise AnalysisGap(f'call of {f.name} with {len(args)} args {sorted(kwargs)}: {e}')
                raise
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExtVal):
            m = MODELS.get(f.path)
            if m is None:
                raise AnalysisGap(f'call of {f.path} is not modelled (at {fmt_loc(T.Loc.cur)})')
            self.stats.ext_calls.add(f.path)
            try:
                return m(self, *args, **kwargs)
            except TypeError as e:
                if _is_signature_error(e, m):
                    raise AnalysisGap(f'call of {f.path} with {len(args)} args {sorted(kwargs)}: {e} '
                                      f'(at {fmt_loc(T.Loc.cur)})')
                raise
        if isinstance(f, type):
            return self.call_type(f, args, kwargs)
        if isinstance(f, Instance):
            c = f.cls.lookup('__call__')
            if c is not MISSING:
                return self.call(BoundMethod(c, f), args, kwargs)
        if isinstance(f, Opaque):
            return Opaque(f.label + '()')
        if isinstance(f, Obj) and hasattr(f, 'call'):
            return f.call(self, args, kwargs)
        raise PyExc(TypeError, f'{self.tname(f)} object is not callable')

    def call_func(self, f, args, kwargs, at_yield=None):
        stub = self.stubs.get(f.module.name + '.' + f.qualname)
        if stub is not None:
            return stub(self, *args, **kwargs)
        if len(self.frames) > self.MAX_CALLS:
            raise AnalysisGap('recursion too deep')
        fr = Frame(f.module, f.parent, f)
        fr.locals = self.bind(f, args, kwargs)
        self.stats.functions.add((f.module.path, f.qualname))
        node = f.node
        self.frames.append(fr)
        loc = T.Loc.cur
        try:
            if isinstance(node, ast.Lambda):
                T.Loc.cur = (f.module.path, f.qualname, node.lineno)
                return self.eval(node.body)
            if at_yield is not None:
                if not f.is_gen:
                    raise AnalysisGap('a context manager that is not a generator function')
                fr.yields = at_yield
                try:
                    self.exec_block(node.body)
                except ReturnExc:
                    pass
                return None
            if f.is_gen:
                out = []
                fr.yields = out.append
                try:
                    self.exec_block(node.body)
                except ReturnExc:
                    pass
                return GenVal(out)
            try:
                self.exec_block(node.body)
            except ReturnExc as r:
                return r.value
            return None
        finally:
            self.frames.pop()
            T.Loc.cur = loc

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kwargs = dict(kwargs)
        for n, v in zip(pos, args):
            loc[n] = v
        rest = args[len(pos):]
        if rest:
            if a.vararg is None:
                raise PyExc(TypeError, f'{f.name}() takes {len(pos)} positional arguments but '
                            f'{len(args)} were given')
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(rest)
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        extra = {}
        for k, v in kwargs.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in loc:
                    raise PyExc(TypeError, f'{f.name}() got multiple values for argument {k!r}')
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc(TypeError, f'{f.name}() got an unexpected keyword argument {k!r}')
        if a.kwarg is not None:
            loc[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            loc.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            loc.setdefault(n, d)
        miss = [n for n in pos + kwonly if n not in loc]
        if miss:
            raise PyExc(TypeError, f'{f.name}() missing required arguments: {", ".join(miss)}')
        return loc

    def instantiate(self, cls, args, kwargs):
        if any(isinstance(c, type) and issubclass(c, BaseException) for c in cls.mro()):
            o = Instance(cls)
            o.attrs['args'] = tuple(args)
            init = cls.lookup('__init__')
            if init is not MISSING:
                self.call(BoundMethod(init, o), args, kwargs)
            return o
        if '_fields' in cls.ns and _b.tuple in cls.bases:
            fields = cls.ns['_fields']
            o = Instance(cls)
            vals = dict(zip(fields, args))
            vals.update(kwargs)
            for n in fields:
                if n not in vals:
                    if n in cls.ns:
                        vals[n] = cls.ns[n]
                    else:
                        raise PyExc(TypeError, f'missing argument {n}')
            o.attrs = {n: vals[n] for n in fields}
            o.attrs['__tuple__'] = tuple(vals[n] for n in fields)
            return o
        new = cls.lookup('__new__')
        if new is not MISSING:
            o = self.call(new.f if isinstance(new, StaticMethod) else new, [cls] + list(args), kwargs)
            if not (isinstance(o, Instance) and o.cls.is_subclass(cls)):
                return o
            if cls.lookup('__init__') is MISSING:
                return o
        else:
            o = Instance(cls)
        init = cls.lookup('__init__')
        if init is not MISSING:
            self.call(BoundMethod(init, o), args, kwargs)
        elif args or kwargs:
            raise PyExc(TypeError, f'{cls.name}() takes no arguments')
        return o

    def call_type(self, t, args, kwargs):
        if issubclass(t, BaseException):
            msg = self.text(args[0]) if args else ''
            e = PyExc(t, msg)
            e.args_ = tuple(args)
            return e
        f = BUILTINS_TYPES.get(t)
        if f is None:
            raise AnalysisGap(f'call of {t.__name__}')
        return f(self, *args, **kwargs)

    # -- attributes ----------------------------------------------------------------

    def tname(self, v):
        if isinstance(v, Arr):
            return {'nd': 'numpy.ndarray', 'sc': 'numpy.generic', 'py': {'pyf': 'float', 'pyi': 'int',
                    'pyb': 'bool'}.get(v.dtype, v.dtype)}[v.kind]
        if isinstance(v, Instance):
            return v.cls.name
        if isinstance(v, SymStr):
            return 'str'
        if isinstance(v, Obj):
            return v.tname
        if isinstance(v, (FuncVal, Builtin)):
            return 'function'
        return type(v).__name__

    def getattr(self, o, name, default=MISSING):
        v = self._getattr(o, name)
        if v is MISSING:
            names = NAMES.get(self.tname(o))
            if names and name in names and not (isinstance(o, Arr) and o.tag == 'index'):
                raise AnalysisGap(f'attribute {name} of {self.tname(o)}')
            if default is not MISSING:
                return default
            raise PyExc(AttributeError, f'{self.tname(o)!r} object has no attribute {name!r}')
        return v

    def _getattr(self, o, name):
        if isinstance(o, ModuleVal):
            if name in o.ns:
                return o.ns[name]
            if name == '__dict__':
                return o.ns
            if '__getattr__' in o.ns:
                return self.call(o.ns['__getattr__'], [name])
            return MISSING
        if isinstance(o, ExtVal):
            if name in ('__name__', '__qualname__'):
                return o.path.rsplit('.', 1)[-1]
            if name == '__module__':
                return o.path.rsplit('.', 1)[0]
            return self.ext_attr(o, name)
        if isinstance(o, Instance):
            m = o.cls.lookup('__getattribute__')
            if m is not MISSING:
                return self.call(BoundMethod(m, o), [name])
            return self.instance_attr(o, name)
        if isinstance(o, ClassVal):
            v = o.lookup(name)
            if v is MISSING:
                if name in ('__name__', '__qualname__'):
                    return o.name
                if name == '__dict__':
                    return o.ns
                if name == '__new__' and not any(isinstance(b, type) and b is not object for b in o.mro()):
                    return Builtin(lambda it, c, *a, **k: Instance(c), 'object.__new__')
                if name == '__module__':
                    return o.module.name
                return MISSING
            if isinstance(v, StaticMethod):
                return v.f
            if isinstance(v, ClassMethod):
                return BoundMethod(v.f, o)
            return v
        if isinstance(o, Super):
            mro = (o.obj if isinstance(o.obj, ClassVal) else o.obj.cls).mro()
            for c in mro[mro.index(o.cls) + 1:]:
                if isinstance(c, ClassVal) and name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, ClassMethod):
                        return BoundMethod(v.f, o.obj if isinstance(o.obj, ClassVal) else o.obj.cls)
                    if isinstance(v, StaticMethod) or isinstance(o.obj, ClassVal):
                        return getattr(v, 'f', v)
                    if isinstance(v, FuncVal):
                        return BoundMethod(v, o.obj)
                    if isinstance(v, PropertyVal):
                        return self.call(v.fget, [o.obj])
                    return v
            if name == '__init__':
                return Builtin(lambda it, *a, **k: None, 'object.__init__')
            return OBJECT_ATTR(self, o, name) if OBJECT_ATTR is not None else MISSING
        if isinstance(o, Arr):
            from . import m_numpy
            return m_numpy.arr_attr(self, o, name)
        if isinstance(o, Obj):
            return o.getattr(self, name)
        if isinstance(o, PropertyVal):
            if name == 'setter':
                return Builtin(lambda it, f: PropertyVal(o.fget, f), 'setter')
            if name == 'fget':
                return o.fget
            return MISSING
        if isinstance(o, FuncVal):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__qualname__':
                return o.qualname
            if name == '__module__':
                return o.module.name
            if name == '__doc__':
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == '__wrapped__':
                return MISSING
            return MISSING
        if isinstance(o, BoundMethod):
            if name == '__self__':
                return o.obj
            if name == '__func__':
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, Builtin):
            if name in ('__name__', '__qualname__'):
                return o.name.rsplit('.', 1)[-1]
            if name == '__module__':
                return o.name.rsplit('.', 1)[0]
            return getattr(o, 'attrs', {}).get(name, MISSING)
        if isinstance(o, PyExc):
            if name == 'args':
                return getattr(o, 'args_', (o.msg,))
            if name == '__class__':
                return o.etype
            return MISSING
        return native_attr(self, o, name)

    def instance_attr(self, o, name):
        v = o.cls.lookup(name)
        if isinstance(v, PropertyVal):
            if v.cached and name in o.attrs:
                return o.attrs[name]
            r = self.call(v.fget, [o])
            if v.cached:
                o.attrs[name] = r
            return r
        if name in o.attrs:
            return o.attrs[name]
        if v is not MISSING:
            if isinstance(v, FuncVal) or (isinstance(v, Builtin) and getattr(v, 'bind', False)):
                return BoundMethod(v, o)
            if isinstance(v, StaticMethod):
                return v.f
            if isinstance(v, ClassMethod):
                return BoundMethod(v.f, o.cls)
            return v
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            return o.attrs
        if name == '_asdict' and '__tuple__' in o.attrs:
            return Builtin(lambda it: {k: o.attrs[k] for k in o.cls.ns['_fields']}, '_asdict')
        if name == '_replace' and '__tuple__' in o.attrs:
            return Builtin(lambda it, **k: it.instantiate(
                o.cls, [], {**{f: o.attrs[f] for f in o.cls.ns['_fields']}, **k}), '_replace')
        g = o.cls.lookup('__getattr__')
        if g is not MISSING:
            return self.call(BoundMethod(g, o), [name])
        return MISSING

    def setattr(self, o, name, v, plain=False):
        if isinstance(o, Instance):
            if not plain:
                m = o.cls.lookup('__setattr__')
                if m is not MISSING:
                    self.call(BoundMethod(m, o), [name, v])
                    return
            p = o.cls.lookup(name)
            if isinstance(p, PropertyVal) and not p.cached:
                if p.fset is None:
                    raise PyExc(AttributeError, f'property {name!r} has no setter')
                self.call(p.fset, [o, v])
                return
            if o.sealed is not None:
                self.attr_stores.append((o.sealed, name, T.Loc.cur, o.attrs.get(name, MISSING), v))
            o.attrs[name] = v
            return
        if isinstance(o, ModuleVal):
            o.ns[name] = v
            return
        if isinstance(o, FuncVal):
            o.attrs[name] = v
            return
        if isinstance(o, ClassVal):
            o.ns[name] = v
            return
        if isinstance(o, ExtVal):
            from .m_state import set_ext
            return set_ext(self, o, name, v)
        if isinstance(o, Opaque):
            return
        if isinstance(o, Obj) and hasattr(o, 'setattr'):
            return o.setattr(self, name, v)
        if isinstance(o, Arr):
            if name == 'shape':
                r = A.reshape(o, list(v) if isinstance(v, (tuple, list)) else [v])
                o.axes, o.cells = r.axes, r.cells
                return
        raise PyExc(AttributeError, f'{self.tname(o)!r} object attribute {name!r} is read-only')

    # -- items ---------------------------------------------------------------------

    def getitem(self, o, k):
        if isinstance(o, Arr):
            return A.getitem(o, self._npkey(k))
        if isinstance(o, SymStr):
            if isinstance(k, slice):
                k = self._nslice(k)
            return symstr.getitem(self, o, k)
        if isinstance(o, (list, tuple, str, bytes, range)):
            if isinstance(k, slice):
                return o[self._nslice(k)]
            if isinstance(k, Arr) and k.dtype == 'pyb':
                k = int(self.truth(k))
            if isinstance(k, Arr):
                if A.is_float(k.dtype):
                    raise PyExc(TypeError, f'{self.tname(o)} indices must be integers or slices')
                f = T.const_fraction(k.term)
                if f is None:
                    if isinstance(o, (list, tuple)) and all(A.is_num(x) for x in o):
                        return A.getitem(A.from_nested(list(o)), k)
                    raise AnalysisGap('abstract index into a list')
                k = int(f)
            if not isinstance(k, int):
                raise PyExc(TypeError, f'{self.tname(o)} indices must be integers or slices, '
                            f'not {self.tname(k)}')
            try:
                return o[k]
            except IndexError as e:
                raise PyExc(IndexError, str(e))
        if isinstance(o, dict):
            k = self.key_in(o, k)
            if k not in o:
                if isinstance(o, DefaultDict):
                    o[k] = self.call(o.factory, [])
                    return o[k]
                raise PyExc(KeyError, repr(k))
            return o[k]
        if isinstance(o, SymList):
            if isinstance(k, int) and k >= 0:
                return self.subst_value(o.elem, {o.name: T.const(k)})
            if isinstance(k, int):
                return self.subst_value(o.elem, {o.name: T.add(o.size, T.const(k))})
            if isinstance(k, Arr):
                return self.subst_value(o.elem, {o.name: k.term})
        if isinstance(o, Instance):
            if '__tuple__' in o.attrs:
                return self.getitem(o.attrs['__tuple__'], k)
            f = o.cls.lookup('__getitem__')
            if f is not MISSING:
                return self.call(BoundMethod(f, o), [k])
        if isinstance(o, Obj) and hasattr(o, 'getitem'):
            return o.getitem(self, k)
        if isinstance(o, (ExtVal, type, ClassVal)):
            return o          # generic alias such as list[int]
        if isinstance(o, GenVal):
            raise PyExc(TypeError, "'generator' object is not subscriptable")
        raise PyExc(TypeError, f'{self.tname(o)!r} object is not subscriptable')

    def subst_value(self, v, m):
        if isinstance(v, Arr):
            return Arr(v.axes, [T.subst(c, m) for c in v.cells], v.dtype, v.kind)
        if isinstance(v, tuple):
            return tuple(self.subst_value(x, m) for x in v)
        if isinstance(v, list):
            return [self.subst_value(x, m) for x in v]
        if isinstance(v, Obj) and hasattr(v, 'subst'):
            return v.subst(m)
        return v

    def _nslice(self, s):
        def c(v):
            if isinstance(v, Arr):
                f = T.const_fraction(v.term)
                if f is None:
                    raise AnalysisGap('abstract slice of a list')
                return int(f)
            return v
        return slice(c(s.start), c(s.stop), c(s.step))

    def _npkey(self, k):
        from . import m_numpy
        return m_numpy.norm_index(self, k)

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            from . import m_numpy
            A.setitem(o, self._npkey(k), m_numpy.to_arr(self, v), self.written)
            return
        if isinstance(o, dict):
            if getattr(o, 'owner', None):
                self.written.append((o.owner, T.Loc.cur))
            o[self.key_in(o, k)] = v
            return
        if isinstance(o, list):
            if isinstance(k, Arr):
                f = T.const_fraction(k.term)
                if f is None:
                    raise AnalysisGap('abstract index store into a list')
                k = int(f)
            try:
                o[k] = v
            except (IndexError, TypeError) as e:
                raise PyExc(type(e), str(e))
            return
        if isinstance(o, Instance):
            f = o.cls.lookup('__setitem__')
            if f is not MISSING:
                self.call(BoundMethod(f, o), [k, v])
                return
        if isinstance(o, Obj) and hasattr(o, 'setitem'):
            return o.setitem(self, k, v)
        raise PyExc(TypeError, f'{self.tname(o)!r} object does not support item assignment')

    # -- operators -----------------------------------------------------------------

    def binop(self, op, a, b):
        if isinstance(a, Obj) and hasattr(a, 'binop'):
            return a.binop(self, op, b, False)
        if isinstance(b, Obj) and hasattr(b, 'binop'):
            return b.binop(self, op, a, True)
        num = (bool, int, float, Fraction, Arr)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, int) and isinstance(b, int):
                if isinstance(a, bool) and isinstance(b, bool) and op in '&|^':
                    return {'&': a & b, '|': a | b, '^': a ^ b}[op]
                if op in ('//', '%', '/') and b == 0:
                    raise PyExc(ZeroDivisionError, 'division by zero')
                if op == '**' and b < 0:
                    return norm_scalar(A.binop(op, a, b))
                if op != '/':
                    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                            '//': lambda: a // b, '%': lambda: a % b, '**': lambda: a ** b,
                            '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                            '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
            if op == '@':
                from . import m_numpy
                return m_numpy.matmul(self, a, b)
            return norm_scalar(A.binop(op, a, b))
        if isinstance(a, (str, SymStr)) and op == '%':
            return self.percent(a, b)
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and op == '+':
            return join_parts([a, b])
        if op == '*' and isinstance(a, (list, tuple, str)) and isinstance(b, int):
            return a * b
        if op == '*' and isinstance(b, (list, tuple, str)) and isinstance(a, int):
            return a * b
        if isinstance(a, Arr) and a.kind != 'py' and isinstance(b, (list, tuple)):
            return A.binop(op, a, A.from_nested(b))
        if isinstance(b, Arr) and b.kind != 'py' and isinstance(a, (list, tuple)):
            return A.binop(op, A.from_nested(a), b)
        if op == '+' and isinstance(a, (list, tuple)) and type(a) is type(b):
            return a + b
        if op in ('|', '&', '-', '^') and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {'|': a | b, '&': a & b, '-': a - b, '^': a ^ b}[op]
        if op == '|' and isinstance(a, dict) and isinstance(b, dict):
            return {**a, **b}
        if op == '|' and isinstance(a, (type, ClassVal, ExtVal, type(None), tuple)) and \
                isinstance(b, (type, ClassVal, ExtVal, type(None), tuple)):
            f = lambda x: x if isinstance(x, tuple) else (x,)    # noqa: E731
            return f(a) + f(b)
        if isinstance(a, Instance):
            f = a.cls.lookup(DUNDER.get(op, ''))
            if f is not MISSING:
                return self.call(BoundMethod(f, a), [b])
        if isinstance(b, Instance):
            f = b.cls.lookup('__r' + DUNDER.get(op, '')[2:])
            if f is not MISSING:
                return self.call(BoundMethod(f, b), [a])
        if op == '/' and type(a).__name__ == 'PathVal':
            return a.join(b)
        raise PyExc(TypeError, f'unsupported operand type(s) for {op}: {self.tname(a)!r} and {self.tname(b)!r}')

    def percent(self, a, b):
        if isinstance(a, str) and (isinstance(b, (str, int, float)) or isinstance(b, tuple) and all(
                isinstance(x, (str, int, float)) for x in b)):
            try:
                return a % b
            except (TypeError, ValueError) as e:
                raise PyExc(type(e), str(e))
        return symstr.percent(self, a, b)

    # -- truth / branching -----------------------------------------------------------

    def truth(self, v):
        if isinstance(v, (bool, int, float, str, bytes, list, tuple, dict, set, frozenset, range, type(None))):
            return bool(v)
        if isinstance(v, Arr):
            if v.axes:
                if len(v.cells) == 1 and all(isinstance(a, int) for a in v.axes):
                    return self.branch(T.astype_bool(v.cells[0]))
                if any(isinstance(a, int) and a == 0 for a in v.axes):
                    return False
                raise PyExc(ValueError, 'The truth value of an array with more than one element is ambiguous')
            return self.branch(self._nz(v.cells[0]))
        if isinstance(v, Obj):
            return v.truth(self)
        if isinstance(v, Instance):
            for n in ('__bool__', '__len__'):
                f = v.cls.lookup(n)
                if f is not MISSING:
                    return self.truth(self.call(BoundMethod(f, v), []))
            return True
        if isinstance(v, SymStr):
            return any(not isinstance(p, str) or p for p in v.parts)
        if isinstance(v, SymList):
            return self.branch(T.lt(T.const(0), v.size))
        return True

    def _nz(self, t):
        if t.isbool:
            return t
        # NaN is truthy
        return T.bor(T.bnot(t.valid), T.astype_bool(t))

    def known(self, c):
        """Value of a boolean term under the facts of the current trace, or None."""
        d = T.decide(c)
        if d is not None:
            return d
        if c.fp in self.facts:
            return self.facts[c.fp]
        ml = c.ml
        if ml is None:
            return None
        res = {}
        for mono, k in ml.items():
            rest = []
            z = False
            for a in mono:
                f = self.facts.get(a)
                if f is None:
                    b = T._BATOM.get(a)
                    f = T.decide(b) if b is not None else None
                if f is False:
                    z = True
                    break
                if f is None:
                    rest.append(a)
            if z:
                continue
            m = frozenset(rest)
            res[m] = res.get(m, 0) + k
        res = {m: k for m, k in res.items() if k}
        if not res:
            return False
        if res == {frozenset(): 1}:
            return True
        return None

    def branch(self, c):
        d = self.known(c)
        if d is not None:
            return d
        miss = if_missing(c)
        if miss is not None:
            name, none, some = miss
            if some is not None and (none == some or name in self.some_missing):
                return some
            if none is not None and some is not None:
                # the condition says whether an element is missing
                n = len(self.trace)
                if not (n < len(self.decisions)):
                    self.restart.append(T.FORCED | {name})
                self.trace.append((c, some))
                self.add_fact(c, some)
                self.some_missing.add(name)
                return some
        if os.environ.get('SA_TRACE'):
            print('FORK', T.show(c), fmt_loc(T.Loc.cur))
        n = len(self.trace)
        choice = self.decisions[n] if n < len(self.decisions) else True
        self.trace.append((c, choice))
        if len(self.trace) > 40:
            raise TooManyPaths(f'too many undecided branches (last at {fmt_loc(T.Loc.cur)})')
        self.add_fact(c, choice)
        return choice

    def add_fact(self, c, truth):
        self.facts[c.fp] = truth
        self.facts[T.bnot(c).fp] = not truth
        if c.op == 'not':
            self.add_fact(c.args[0], not truth)
        elif c.op == 'and' and truth:
            for a in c.args:
                self.add_fact(a, True)
        elif c.ml is not None and len(c.ml) == 1 and truth:
            (mono, k), = c.ml.items()
            for a in mono:
                self.facts[a] = True

    # -- iteration ---------------------------------------------------------------------

    def iterate(self, v):
        if isinstance(v, (list, tuple, range, set, frozenset)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (SymIter,)):
            return v
        if isinstance(v, GenVal):
            return v.take()
        if isinstance(v, SymList):
            return SymIter(v.size, lambda i: self.subst_value(v.elem, {v.name: i}))
        if isinstance(v, Arr):
            if not v.axes:
                raise PyExc(TypeError, 'iteration over a 0-d array')
            ax = v.axes[0]
            if isinstance(ax, int):
                return [A.getitem(v, j) for j in range(ax)]
            return SymIter(ax.size, lambda i: A.getitem(v, Arr((), [i], 'i8', 'sc')))
        if isinstance(v, Obj) and hasattr(v, 'iterate'):
            return v.iterate(self)
        if isinstance(v, Instance):
            if '__tuple__' in v.attrs:
                return list(v.attrs['__tuple__'])
            f = v.cls.lookup('__iter__')
            if f is not MISSING:
                return self.iterate(self.call(BoundMethod(f, v), []))
        if isinstance(v, ExtVal):
            raise AnalysisGap(f'iteration over {v.path}')
        raise PyExc(TypeError, f'{self.tname(v)!r} object is not iterable')

    def to_list(self, v):
        r = self.iterate(v)
        if isinstance(r, SymIter):
            raise AnalysisGap('unpacking a symbolic number of elements')
        return r

    # -- isinstance ----------------------------------------------------------------------

    def isinstance(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance(v, c) for c in cls)
        if cls is None:
            return v is None
        if isinstance(cls, ClassVal):
            if isinstance(v, Instance):
                return v.cls.is_subclass(cls)
            if isinstance(v, PyExc) and isinstance(v.etype, ClassVal):
                return v.etype.is_subclass(cls)
            return False
        if isinstance(cls, ExtVal):
            p = EXT_TYPES.get(cls.path)
            if p is None:
                if isinstance(v, (type(None), str)):
                    return False
                raise AnalysisGap(f'isinstance against {cls.path}')
            return p(self, v)
        if isinstance(cls, type):
            if isinstance(v, Arr):
                if cls is object:
                    return True
                if cls is float:
                    return not v.axes and v.dtype in ('pyf', 'f8') and v.kind != 'nd'
                if cls is int:
                    return v.dtype in ('pyi', 'pyb') and v.kind == 'py'
                if cls is bool:
                    return v.dtype == 'pyb' and v.kind == 'py'
                return False
            if isinstance(v, SymStr):
                return cls in (str, object)
            if isinstance(v, SymList):
                return cls in (list, object)
            if isinstance(v, PyExc):
                return self.exc_matches(v, cls)
            if isinstance(v, Instance):
                return cls is object or v.cls.is_subclass(cls)
            if isinstance(v, (Obj, FuncVal, Builtin, ExtVal, ClassVal, ModuleVal, BoundMethod)):
                return cls is object or (cls is type and isinstance(v, ClassVal))
            return isinstance(v, cls)
        raise AnalysisGap(f'isinstance against {cls!r}')


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class GenVal:
    """A generator, evaluated eagerly, consumed once."""
    def __init__(self, items):
        self.items = list(items)

    @staticmethod
    def over(queue):
        """An iterator consuming a shared list."""
        g = GenVal(())
        g.items = queue
        return g

    def empty(self):
        return not self.items

    def pop(self):
        return self.items.pop(0)

    def take(self):
        r = list(self.items)
        del self.items[:]
        return r


class MapGen(GenVal):
    """fn applied to the elements of another iterator as they are consumed."""
    def __init__(self, src, fn):
        self.src, self.fn = src, fn

    def empty(self):
        return self.src.empty()

    def pop(self):
        return self.fn(self.src.pop())

    def take(self):
        return [self.fn(x) for x in self.src.take()]


class DefaultDict(dict):
    factory = None


class OwnedDict(dict):
    owner = None


OBJECT_ATTR = None          # see m_pickle
EXT_EXC = {}
BUILTINS = {}
BUILTINS_TYPES = {}
DUNDER = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '//': '__floordiv__',
          '%': '__mod__', '**': '__pow__', '&': '__and__', '|': '__or__', '^': '__xor__',
          '@': '__matmul__'}


def norm_scalar(a):
    """Concrete Python ints/bools become native."""
    if a.kind == 'py' and not a.axes:
        if a.dtype == 'pyi':
            return A.pyint(a.cells[0])
        if a.dtype == 'pyb':
            return A.pybool(a.cells[0])
    return a


def fmt_loc(loc):
    if not loc:
        return '?'
    p = loc[0] or '?'
    i = p.find('/src/')
    return f'{p[i + 1:] if i >= 0 else p}:{loc[2]} in {loc[1]}'


join_parts = symstr.join


def _is_signature_error(e, fn):
    tb = e.__traceback__
    depth = 0
    while tb is not None:
        depth += 1
        tb = tb.tb_next
    return depth <= 2 and 'argument' in str(e)


_LOCALS = {}


def _local_names(node):
    r = _LOCALS.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    names = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    nonl = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    names.add(c.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nonl.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, ast.MatchAs) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body:
            visit(s)
    names -= nonl
    _LOCALS[id(node)] = (node, names)
    return names


def _assigned_names(s):
    out = []
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
            out.append(n.id)
    return out


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


# ---------------------------------------------------------------------------
# native attributes (str, list, dict, ...)

def native_attr(it, o, name):
    if o is object:
        from .m_pickle import object_type_attr
        return object_type_attr(it, name)
    if isinstance(o, (str, SymStr)):
        return str_attr(it, o, name)
    if isinstance(o, bool) or isinstance(o, int) or isinstance(o, float):
        if name in ('real',):
            return o
        if name == 'is_integer':
            return Builtin(lambda it: float(o).is_integer(), 'is_integer')
        if name == 'conjugate':
            return Builtin(lambda it: o, 'conjugate')
        if name in ('item', 'ndim', 'shape', 'dtype', 'size', 'astype', 'tz', 'zone'):
            return MISSING
        return MISSING
    if isinstance(o, dict):
        return dict_attr(it, o, name)
    if isinstance(o, list):
        if name == 'append':
            def append(it, x):
                if getattr(o, 'owner', None):
                    it.written.append((o.owner, T.Loc.cur))
                o.append(x)
            return Builtin(append, 'list.append')
        if name == 'extend':
            return Builtin(lambda it, x: o.extend(it.to_list(x)), 'list.extend')
        if name in ('insert', 'pop', 'remove', 'reverse', 'clear', 'copy', 'index', 'count'):
            def lm(it, *a):
                try:
                    return getattr(o, name)(*a)
                except (IndexError, ValueError) as e:
                    raise PyExc(type(e), str(e))
            return Builtin(lm, 'list.' + name)
        if name == 'sort':
            def sort(it, key=None, reverse=False):
                o[:] = BUILTINS['sorted'].fn(it, o, key=key, reverse=reverse)
            return Builtin(sort, 'list.sort')
        return MISSING
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            return Builtin(lambda it, *a: getattr(o, name)(*a), 'tuple.' + name)
        return MISSING
    if isinstance(o, (set, frozenset)):
        if name in ('add', 'discard', 'remove', 'union', 'intersection', 'difference', 'issubset',
                    'issuperset', 'update', 'copy', 'symmetric_difference'):
            def sm(it, *a):
                a = [set(it.to_list(x)) if not isinstance(x, (set, frozenset)) and name not in (
                    'add', 'discard', 'remove') else x for x in a]
                try:
                    return getattr(o, name)(*a)
                except KeyError as e:
                    raise PyExc(KeyError, str(e))
            return Builtin(sm, 'set.' + name)
        return MISSING
    if isinstance(o, slice):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
    if isinstance(o, range):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
    if isinstance(o, type):
        if name in ('__name__', '__qualname__'):
            return o.__name__
        if o is dict and name == 'fromkeys':
            return Builtin(lambda it, ks, v=None: {it.hashable(k): v for k in it.to_list(ks)}, 'dict.fromkeys')
        if o is str and name == 'join':
            return Builtin(lambda it, s, xs: it.call(it.getattr(s, 'join'), [xs]), 'str.join')
        if o is str and hasattr(str, name):
            return Builtin(lambda it, s, *a: it.call(it.getattr(s, name), list(a)), 'str.' + name)
        if name == '__init__':
            return Builtin(lambda it, *a, **k: None, '__init__')
    if isinstance(o, SymList):
        if name == 'append':
            raise AnalysisGap('append to an abstract list')
    if name == '__class__':
        return type(o)
    return MISSING


def str_attr(it, o, name):
    if isinstance(o, str):
        if name == 'join':
            def join(it, xs):
                parts = []
                for i, x in enumerate(it.to_list(xs)):
                    if i:
                        parts.append(o)
                    if not isinstance(x, (str, SymStr)):
                        raise PyExc(TypeError, 'sequence item: expected str instance')
                    parts.append(x)
                return join_parts(parts)
            return Builtin(join, 'str.join')
        if name == 'format':
            def fmt(it, *a, **k):
                if all(isinstance(x, (str, int, float)) for x in list(a) + list(k.values())):
                    try:
                        return o.format(*a, **k)
                    except (KeyError, IndexError, ValueError) as e:
                        raise PyExc(type(e), str(e))
                return symstr.str_format(it, o, a, k)
            return Builtin(fmt, 'str.format')
        if hasattr(str, name):
            def sm(it, *a, **k):
                if any(isinstance(x, (SymStr, Arr)) for x in a):
                    return SymStr([('call', name, o) + a])
                try:
                    return getattr(o, name)(*a, **k)
                except (ValueError, TypeError, IndexError, KeyError, LookupError) as e:
                    raise PyExc(type(e), str(e))
            return Builtin(sm, 'str.' + name)
        return MISSING
    m = symstr.method(it, o, name)
    if m is not None:
        return Builtin(m, 'str.' + name)
    if hasattr(str, name):
        raise AnalysisGap(f'str.{name} of an abstract string')
    return MISSING


def dict_attr(it, o, name):
    def chk():
        if getattr(o, 'owner', None):
            it.written.append((o.owner, T.Loc.cur))
    if name == 'get':
        return Builtin(lambda it, k, d=None: o.get(it.key_in(o, k), d), 'dict.get')
    if name == 'keys':
        return Builtin(lambda it: list(o.keys()), 'dict.keys')
    if name == 'values':
        return Builtin(lambda it: list(o.values()), 'dict.values')
    if name == 'items':
        return Builtin(lambda it: list(o.items()), 'dict.items')
    if name == 'update':
        def update(it, *a, **k):
            chk()
            if a:
                if isinstance(a[0], dict):
                    o.update(a[0])
                else:
                    for kv in it.to_list(a[0]):
                        kk, vv = it.to_list(kv)
                        o[it.hashable(kk)] = vv
            o.update(k)
        return Builtin(update, 'dict.update')
    if name == 'pop':
        def pop(it, k, *d):
            chk()
            k = it.key_in(o, k)
            if k in o:
                return o.pop(k)
            if d:
                return d[0]
            raise PyExc(KeyError, repr(k))
        return Builtin(pop, 'dict.pop')
    if name == 'setdefault':
        def sd(it, k, d=None):
            chk()
            return o.setdefault(it.key_in(o, k), d)
        return Builtin(sd, 'dict.setdefault')
    if name == 'popitem':
        def popitem(it, last=True):
            chk()
            if not o:
                raise PyExc(KeyError, 'popitem(): dictionary is empty')
            k = list(o)[-1 if last else 0]
            return k, o.pop(k)
        return Builtin(popitem, 'dict.popitem')
    if name == 'move_to_end':
        def mte(it, k, last=True):
            k = it.key_in(o, k)
            if k not in o:
                raise PyExc(KeyError, repr(k))
            v = o.pop(k)
            rest = list(o.items())
            o.clear()
            o.update(rest + [(k, v)] if last else [(k, v)] + rest)
        return Builtin(mte, 'dict.move_to_end')
    if name == 'copy':
        return Builtin(lambda it: dict(o), 'dict.copy')
    if name == 'clear':
        return Builtin(lambda it: (chk(), o.clear())[0], 'dict.clear')
    return MISSING


# ---------------------------------------------------------------------------
# trace enumeration

class Path:
    def __init__(self, trace, result, exc, it):
        self.trace = trace
        self.result = result
        self.exc = exc
        self.it = it

    def condition(self):
        return ' and '.join(('' if ch else 'not ') + T.show(c, 3) for c, ch in self.trace) or 'always'


_MISSING = {}


def if_missing(c):
    """(input, value if none of its elements is missing, value if some is) of a condition on the number of missing elements."""
    r = _MISSING.get(c.fp, MISSING)
    if r is not MISSING:
        return r
    found, name = {}, None
    for x in T.walk(c):
        if x.op == 'bred' or x.op == 'fn' and x.data == 'count' or x.op == 'reduce' and x.data == ('sum',):
            body, n = x.args
            no = not (body.op == 'ok')
            if no and body.isbool:
                body = T.bnot(body)
            if body.op != 'ok' or len(body.args) != 1 or body.args[0].op not in ('bvar', 'bound', 'idx') or n.op != 'atom' or \
                    not n.data.startswith('dim:') or name not in (None, body.data):
                continue
            name = body.data
            found[x.fp] = (x, no, n)
    r = None
    if found:
        T.ATOMS.setdefault('@more missing', T.AtomInfo(lo=0, integer=True))
        more = T.atom('@more missing')

        def value(some):
            m = {}
            for fp, (x, no, n) in found.items():
                k = T.add(more, T.const(1)) if some else T.const(0)
                if x.op == 'bred':
                    m[fp] = T.bnot(T.TRUE) if some != no else T.TRUE
                    if no and some:
                        return None          # whether all are missing
                else:
                    m[fp] = k if no else T.sub(n, k)
            return T.decide(T.replace(c, m))
        r = (name, value(False), value(True))
        if r[1] is None or r[2] is None:
            r = None
    _MISSING[c.fp] = r
    return r


def explore(setup, max_paths=Interp.MAX_PATHS, stats=None):
    """Run setup(it) -> result on every trace."""
    out = []
    stack = [([], frozenset())]
    begun = set()
    while stack:
        dec, T.FORCED = stack.pop()
        if not dec:
            if T.FORCED in begun:
                continue
            begun.add(T.FORCED)
            if T.FORCED:
                T.reset_memo()
        it = Interp(stats=stats)
        it.decisions = dec
        A.BRANCH[:] = [it.branch]
        A.FACTS[:] = [it.known]
        forced = T.FORCED
        try:
            r, e = setup(it), None
        except PyExc as ex:
            r, e = None, ex
        finally:
            T.FORCED = frozenset()
        if len(out) >= max_paths:
            raise TooManyPaths('too many traces')
        out.append(Path(list(it.trace), r, e, it))
        for k in range(len(dec), len(it.trace)):
            if if_missing(it.trace[k][0]) is None:
                stack.append(([c for _, c in it.trace[:k]] + [not it.trace[k][1]], forced))
        stack += [([], f) for f in it.restart]
        if stats is not None:
            stats.paths += 1
    return out
