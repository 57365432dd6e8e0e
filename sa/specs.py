"""The reference formulas in /verif/spec, interpreted like the analysed source."""

import os

from . import terms as T
from . import arrays as A
from .arrays import Arr
from .interp import Frame, ModuleVal, parse_file

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


def module(it, name):
    key = 'spec:' + name
    m = it.modules.get(key)
    if m is None:
        path = os.path.join(DIR, name + '.py')
        m = ModuleVal(key, path)
        m.ns['__package__'] = ''
        it.modules[key] = m
        fr = Frame(m)
        fr.locals = m.ns
        it.frames.append(fr)
        try:
            it.exec_block(parse_file(path).body)
        finally:
            it.frames.pop()
    return m


def wrap(t):
    if isinstance(t, T.Term):
        return Arr((), [t], 'f8', 'sc')
    return t


def unwrap(v):
    if isinstance(v, Arr):
        return v.cells[0]
    if isinstance(v, tuple):
        return tuple(unwrap(x) for x in v)
    if isinstance(v, dict):
        return {k: unwrap(x) for k, x in v.items()}
    if isinstance(v, (int, float)):
        return T.number(v)
    return v


def call(it, mod, fn, *args, **kw):
    f = module(it, mod).ns[fn]
    return unwrap(it.call(f, [wrap(a) for a in args], {k: wrap(a) for k, a in kw.items()}))
