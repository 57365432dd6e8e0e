"""Models of pandas.DataFrame and pandas.Series: columns over one axis of rows, with an index.

A column is an Arr of one axis or a PdTimes (aware times); the index is either, or None for 0..n-1.
Operations between columns of different rows are not modelled: all columns of a frame share its rows."""

from . import arrays as A
from . import interp as I
from . import m_numpy as N
from . import m_time as MT
from . import terms as T
from . import m_xarray as X
from .arrays import Arr, PyExc
from .interp import EXT_TYPES, model
from .terms import AnalysisGap
from .values import MISSING, Builtin, FuncVal, Obj, SymStr


def axis_of(v):
    return (v.arr if isinstance(v, MT.PdTimes) else v).axes[0]


def as_column(it, v):
    """v as a column, or None for a scalar."""
    if isinstance(v, Series):
        return v.v
    if isinstance(v, MT.PdTimes):
        return v if v.arr.axes else None
    if isinstance(v, (str, SymStr)) or v is None:
        return None
    if isinstance(v, (list, tuple)) and v and all(isinstance(x, MT.PdTimes) for x in v):
        v = MT._to_datetime(it, list(v))
        return v if v.tz is not None else v.arr
    if isinstance(v, (list, tuple)) and any(isinstance(x, (str, SymStr)) for x in v):
        raise AnalysisGap('a column of text')
    if isinstance(v, (dict, set)):
        raise AnalysisGap('a column given by a dict')
    a = N.to_arr(it, v)
    if not a.axes:
        return None
    if len(a.axes) != 1:
        raise PyExc(ValueError, 'Per-column arrays must each be 1-dimensional')
    d = {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}.get(a.dtype, a.dtype)
    return Arr(a.axes, list(a.cells), d, 'nd')


def filled(it, v, ax):
    """A column holding the scalar v in every row."""
    if isinstance(v, MT.PdTimes):
        c = v.arr
        a = A.broadcast_to(Arr((), c.cells, c.dtype, 'sc'), (ax,))
        return MT.PdTimes(a, v.tz, 'index')
    if isinstance(v, (str, SymStr)) or v is None:
        raise AnalysisGap('a column of text')
    a = N.to_arr(it, v)
    d = {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}.get(a.dtype, a.dtype)
    return A.broadcast_to(Arr((), a.cells, d, 'nd'), (ax,))


def cut(it, v, k):
    """The rows k of a column."""
    if isinstance(v, MT.PdTimes):
        return v.getitem(it, k)
    return A.getitem(v, k)


def same_rows(a, b):
    """Whether two indexes are known to be equal."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, MT.PdTimes) != isinstance(b, MT.PdTimes):
        return False
    if isinstance(a, MT.PdTimes):
        return a.tz == b.tz and X.same_values(a.arr, b.arr)
    return X.same_values(a, b)


class Series(Obj):
    tname = 'Series'

    def __init__(self, v, index=None, name=None, index_name=None):
        self.v = v
        self.index = index
        self.name = name
        self.index_name = index_name

    def new(self, v, **k):
        return Series(v, self.index, k.get('name', self.name), self.index_name)

    @property
    def arr(self):
        return self.v.arr if isinstance(self.v, MT.PdTimes) else self.v

    def to_array(self, it):
        return self.arr

    def buffer(self, it):
        return self.arr

    def length(self, it):
        return A.size_val(self.arr.axes[0])

    def iterate(self, it):
        return it.iterate(self.v)

    def p_values(self, it):
        return self.arr

    p_array = p_values

    def m_to_numpy(self, it, *a, **k):
        return self.arr

    def p_index(self, it):
        return index_value(self.index, self.arr.axes[0])

    def p_name(self, it):
        return self.name

    def p_dtype(self, it):
        return N.DType(self.arr.dtype)

    def p_shape(self, it):
        return A.shape_of(self.arr)

    def p_size(self, it):
        return A.size_val(self.arr.axes[0])

    def p_empty(self, it):
        return it.compare('==', self.p_size(it), 0)

    def p_dt(self, it):
        t = self.v if isinstance(self.v, MT.PdTimes) else MT.PdTimes(self.v, None, 'index')
        return DtAccessor(self, t)

    def m_copy(self, it, *a, **k):
        return self.new(A.copy(self.v) if isinstance(self.v, Arr) else self.v)

    def m_rename(self, it, name=None, **k):
        return self.new(self.v, name=name)

    def m_to_list(self, it):
        return it.to_list(self.v)

    m_tolist = m_to_list

    def m_astype(self, it, d, *a, **k):
        if isinstance(self.v, MT.PdTimes):
            return self.new(self.v.m_astype(it, d))
        return self.new(A.astype(self.v, N.get_dtype(it, d)))

    def m_apply(self, it, f, *a, **k):
        if a or k:
            raise AnalysisGap('Series.apply with arguments')
        if not isinstance(self.v, Arr):
            raise AnalysisGap('Series.apply of aware times')
        ax = self.v.axes[0]
        if isinstance(ax, int):
            xs = [it.call(f, [A.getitem(self.v, i)]) for i in range(ax)]
            return self.new(as_column(it, xs))
        raise AnalysisGap('Series.apply')

    m_map = m_apply

    def m_pipe(self, it, f, *a, **k):
        return it.call(f, [self, *a], k)

    def m_tz_localize(self, it, tz, *a, **k):
        return Series(self.v, localized(it, self.index, tz), self.name, self.index_name)

    def m_tz_convert(self, it, tz):
        return Series(self.v, self.index.m_tz_convert(it, tz), self.name, self.index_name)

    def m_reset_index(self, it, drop=False, **k):
        if not drop:
            raise AnalysisGap('Series.reset_index')
        return Series(self.v, None, self.name)

    def m_to_frame(self, it, name=None):
        n = name if name is not None else self.name
        return Frame({n if n is not None else 0: self.v}, self.index, self.arr.axes[0], self.index_name)

    def _op(self, it, op, o, rev):
        if isinstance(o, Frame):
            raise AnalysisGap('Series with a DataFrame')
        if isinstance(o, Series):
            if not same_rows(o.index, self.index):
                raise AnalysisGap('columns of different tables')
            o = o.v
        return it.binop(op, o, self.v) if rev else it.binop(op, self.v, o)

    def binop(self, it, op, o, rev):
        return self.new(self._op(it, op, o, rev), name=self.name)

    def compare(self, it, op, o):
        return self.new(it.compare(op, self.v, o.v if isinstance(o, Series) else o))

    def unary(self, it, op):
        return self.new(it.unary(op, self.v))

    def getitem(self, it, k):
        if isinstance(k, Series):
            k = k.v
        if isinstance(k, str):
            raise PyExc(KeyError, k)
        if isinstance(k, int):
            raise AnalysisGap('a row of a Series')
        return Series(cut(it, self.v, k), None if self.index is None else cut(it, self.index, k), self.name, self.index_name)

    def p_iloc(self, it):
        return Loc(self)

    def getattr(self, it, name):
        v = super().getattr(it, name)
        if v is not MISSING:
            return v
        ops = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'truediv': '/', 'pow': '**', 'mod': '%', 'subtract': '-',
               'multiply': '*', 'divide': '/', 'floordiv': '//'}
        if name in ops:
            return Builtin(lambda it_, o, **k: self.binop(it_, ops[name], o, False), name)
        if name[0] == 'r' and name[1:] in ops:
            return Builtin(lambda it_, o, **k: self.binop(it_, ops[name[1:]], o, True), name)
        if name in ('clip', 'abs', 'round', 'cumsum', 'fillna', 'where', 'mask', 'between', 'isin', 'isna', 'notna'):
            return Builtin(lambda it_, *a, **k: self._method(it_, name, a, k), name)
        if name in ('sum', 'mean', 'min', 'max', 'all', 'any', 'std', 'prod'):
            return Builtin(lambda it_, *a, **k: it_.call(it_.getattr(self.v, name), a, k), name)
        if name in SERIES_OTHER:
            raise AnalysisGap(f'Series.{name}')
        return MISSING

    def _method(self, it, name, a, k):
        a = [x.v if isinstance(x, Series) else x for x in a]
        if name == 'abs':
            return self.new(I.MODELS['numpy.abs'](it, self.v))
        if name in ('isna', 'notna'):
            return self.new(I.MODELS['pandas.' + name](it, self.v))
        if name in ('clip', 'round', 'cumsum'):
            return self.new(it.call(it.getattr(self.v, name), a, k))
        raise AnalysisGap(f'Series.{name}')


SERIES_OTHER = {'loc', 'at', 'iat', 'sort_values', 'sort_index', 'groupby', 'resample', 'shift', 'diff', 'interpolate',
                'dropna', 'drop_duplicates', 'str', 'replace', 'reindex', 'rolling', 'ffill', 'bfill', 'head', 'tail', 'unique',
                'transform', 'agg', 'combine_first', 'update', 'items', 'quantile', 'to_dict', 'rename_axis', 'set_axis'}


class DtAccessor(Obj):
    def __init__(self, s, t):
        self.s, self.t = s, t

    def getattr(self, it, name):
        v = self.t.getattr(it, name)
        if isinstance(v, Builtin):
            return Builtin(lambda it_, *a, **k: self.s.new(it_.call(v, a, k)), name)
        return self.s.new(v) if isinstance(v, (Arr, MT.PdTimes)) else v


class Loc(Obj):
    def __init__(self, o):
        self.o = o

    def getitem(self, it, k):
        o = self.o
        if isinstance(o, Series):
            if isinstance(k, int):
                return cut(it, o.v, k)
            return o.getitem(it, k)
        if isinstance(k, tuple):
            if len(k) == 2 and isinstance(k[1], int):
                c = o.column(list(o.cols)[k[1]])
                return c if k[0] == slice(None) else Loc(c).getitem(it, k[0])
            raise AnalysisGap('DataFrame.iloc')
        if isinstance(k, int):
            raise AnalysisGap('DataFrame.iloc')
        return o.rows(it, k)


def index_value(index, ax):
    if index is not None:
        return index if isinstance(index, MT.PdTimes) else index
    if isinstance(ax, int):
        return Arr((ax,), [T.const(i) for i in range(ax)], 'i8')
    return Arr((ax,), [T.idxvar(ax.name)], 'i8')


def as_index(it, v):
    if isinstance(v, Series):
        v = v.v
    if isinstance(v, MT.PdTimes):
        return MT.PdTimes(v.arr, v.tz, 'index')
    c = as_column(it, v)
    if c is None:
        raise PyExc(TypeError, 'Index(...) must be called with a collection of some kind')
    if isinstance(c, Arr) and c.dtype[0] == 'M':
        c = MT.PdTimes(c, None, 'index')
    return c


def localized(it, index, tz):
    if not isinstance(index, MT.PdTimes):
        raise PyExc(TypeError, 'index is not a valid DatetimeIndex or PeriodIndex')
    return index.m_tz_localize(it, tz)


class Frame(Obj):
    tname = 'DataFrame'

    def __init__(self, cols, index, ax, index_name=None):
        self.cols = dict(cols)          # label -> column
        self.index = index
        self.ax = ax
        self.index_name = index_name

    def new(self, cols=None, index=MISSING, index_name=MISSING):
        return Frame(self.cols if cols is None else cols, self.index if index is MISSING else index, self.ax,
                     self.index_name if index_name is MISSING else index_name)

    def column(self, name):
        return Series(self.cols[name], self.index, name, self.index_name)

    def rows(self, it, k):
        if isinstance(k, Series):
            k = k.v
        index = cut(it, index_value(self.index, self.ax), k)
        cols = {n: cut(it, v, k) for n, v in self.cols.items()}
        return Frame(cols, index, axis_of(index), self.index_name)

    def value(self, it, v):
        """The column stored for an assigned value."""
        if isinstance(v, (FuncVal, Builtin)):
            v = it.call(v, [self])
        if isinstance(v, Series) and not same_rows(v.index, self.index):
            raise AnalysisGap('a column of another table')
        if isinstance(v, Frame):
            raise AnalysisGap('a table assigned to a column')
        c = as_column(it, v)
        if c is None:
            return filled(it, v, self.ax)
        if not A.same_size(axis_of(c), self.ax):
            raise PyExc(ValueError, 'Length of values does not match length of index')
        return c

    # -- structure
    def length(self, it):
        return A.size_val(self.ax)

    def truth(self, it):
        raise PyExc(ValueError, 'The truth value of a DataFrame is ambiguous.')

    def p_shape(self, it):
        return (A.size_val(self.ax), len(self.cols))

    def p_columns(self, it):
        return Labels(list(self.cols))

    def p_index(self, it):
        i = index_value(self.index, self.ax)
        return i

    def p_empty(self, it):
        return it.compare('==', A.size_val(self.ax), 0)

    def p_values(self, it):
        return A.stack([self.cols[n] for n in self.cols], axis=1)

    def m_to_numpy(self, it, *a, **k):
        return self.p_values(it)

    def to_array(self, it):
        return self.p_values(it)

    def p_iloc(self, it):
        return Loc(self)

    def p_T(self, it):
        raise AnalysisGap('DataFrame.T')

    def iterate(self, it):
        return list(self.cols)

    def contains(self, it, k):
        return k in self.cols

    def getattr(self, it, name):
        v = super().getattr(it, name)
        if v is not MISSING:
            return v
        if name in self.cols:
            return self.column(name)
        if name in FRAME_OTHER:
            raise AnalysisGap(f'DataFrame.{name}')
        return MISSING

    def setattr(self, it, name, v):
        if name == 'columns':
            self._set_labels(it.to_list(v))
        elif name == 'index':
            self.index = self._index(it, v)
            self.index_name = None
        elif name in self.cols:
            self.cols[name] = self.value(it, v)
        else:
            raise PyExc(AttributeError, f'attribute {name!r} of a DataFrame')

    def _set_labels(self, names):
        if len(names) != len(self.cols):
            raise PyExc(ValueError, f'Length mismatch: Expected axis has {len(self.cols)} elements, new values have {len(names)} elements')
        self.cols = dict(zip(names, self.cols.values()))

    def _index(self, it, v):
        i = as_index(it, v)
        if not A.same_size(axis_of(i), self.ax):
            raise PyExc(ValueError, 'Length mismatch')
        return i

    def getitem(self, it, k):
        if isinstance(k, (list, Labels)):
            k = it.to_list(k)
            if all(isinstance(x, (str, int)) for x in k):
                for x in k:
                    self._need(x)
                return self.new({x: self.cols[x] for x in k})
        if isinstance(k, (str, int)):
            self._need(k)
            return self.column(k)
        if isinstance(k, SymStr):
            raise AnalysisGap('abstract column label')
        return self.rows(it, k)

    def _need(self, k):
        if k not in self.cols:
            raise PyExc(KeyError, str(k))

    def setitem(self, it, k, v):
        if not isinstance(k, (str, int)):
            raise AnalysisGap('assignment to rows of a table')
        self.cols[k] = self.value(it, v)

    def delitem(self, it, k):
        self._need(k)
        del self.cols[k]

    # -- methods
    def m_copy(self, it, deep=True):
        return self.new({n: A.copy(v) if isinstance(v, Arr) else v for n, v in self.cols.items()})

    def m_pipe(self, it, f, *a, **k):
        return it.call(f, [self, *a], k)

    def m_set_index(self, it, keys, drop=True, append=False, inplace=False, verify_integrity=False):
        if append:
            raise AnalysisGap('set_index(append=True)')
        r = self.new()
        if isinstance(keys, list) and len(keys) == 1:
            keys = keys[0]
        if isinstance(keys, (str, int)):
            self._need(keys)
            r.index, r.index_name = as_index(it, self.cols[keys]), keys
            if drop:
                del r.cols[keys]
        elif isinstance(keys, list):
            raise AnalysisGap('set_index with several keys')
        else:
            r.index = self._index(it, keys)
            r.index_name = keys.name if isinstance(keys, Series) else None
        return self._done(r, inplace)

    def _done(self, r, inplace):
        if inplace:
            self.__dict__.update(r.__dict__)
            return None
        return r

    def m_reset_index(self, it, drop=False, inplace=False, names=None, **k):
        r = self.new(index=None, index_name=None)
        if not drop:
            n = names or self.index_name or 'index'
            i = index_value(self.index, self.ax)
            r.cols = {n: i if not isinstance(i, MT.PdTimes) or i.tz is not None else i.arr, **self.cols}
        return self._done(r, inplace)

    def m_drop(self, it, labels=None, axis=0, index=None, columns=None, level=None, inplace=False, errors='raise'):
        if columns is None and axis in (1, 'columns'):
            columns = labels
        elif columns is None or index is not None or labels is not None:
            raise AnalysisGap('drop of rows')
        names = [columns] if isinstance(columns, (str, int)) else it.to_list(columns)
        for n in names:
            if errors == 'raise':
                self._need(n)
        return self._done(self.new({n: v for n, v in self.cols.items() if n not in names}), inplace)

    def m_set_axis(self, it, labels, axis=0, copy=None):
        r = self.new()
        if axis in (1, 'columns'):
            r._set_labels(it.to_list(labels))
        else:
            r.index, r.index_name = self._index(it, labels), None
        return r

    def m_rename(self, it, mapper=None, index=None, columns=None, axis=None, copy=None, inplace=False, errors='ignore', level=None):
        if columns is None and axis in (1, 'columns'):
            columns = mapper
        elif mapper is not None or index is not None:
            raise AnalysisGap('rename of rows')
        f = (lambda n: columns.get(n, n)) if isinstance(columns, dict) else (lambda n: it.call(columns, [n]))
        if errors == 'raise' and isinstance(columns, dict):
            for n in columns:
                self._need(n)
        return self._done(self.new({f(n): v for n, v in self.cols.items()}), inplace)

    def m_rename_axis(self, it, mapper=MISSING, index=MISSING, columns=MISSING, axis=0, inplace=False, **k):
        if mapper is not MISSING and axis in (0, 'index'):
            index = mapper
        r = self.new()
        if index is not MISSING:
            r.index_name = index
        return self._done(r, inplace)

    def m_assign(self, it, **k):
        r = self.new()
        for n, v in k.items():
            r.cols[n] = r.value(it, v)
        return r

    def m_eval(self, it, *a, **k):
        raise AnalysisGap('DataFrame.eval')

    def m_insert(self, it, loc, column, value, allow_duplicates=False):
        if column in self.cols:
            raise PyExc(ValueError, f'cannot insert {column}, already exists')
        items = list(self.cols.items())
        items.insert(loc, (column, self.value(it, value)))
        self.cols = dict(items)

    def m_pop(self, it, name):
        self._need(name)
        s = self.column(name)
        del self.cols[name]
        return s

    def m_get(self, it, name, default=None):
        return self.column(name) if name in self.cols else default

    def m_keys(self, it):
        return Labels(list(self.cols))

    def m_items(self, it):
        return [(n, self.column(n)) for n in self.cols]

    def m_filter(self, it, items=None, like=None, regex=None, axis=None):
        if items is None:
            raise AnalysisGap('DataFrame.filter')
        return self.new({n: self.cols[n] for n in it.to_list(items) if n in self.cols})

    def m_reindex(self, it, labels=None, index=None, columns=None, axis=None, **k):
        if columns is None and axis in (1, 'columns'):
            columns = labels
        elif labels is not None or index is not None:
            raise AnalysisGap('reindex of rows')
        names = it.to_list(columns)
        if any(n not in self.cols for n in names):
            raise AnalysisGap('reindex with new columns')
        return self.new({n: self.cols[n] for n in names})

    def m_astype(self, it, d, *a, **k):
        t = d if isinstance(d, dict) else {n: d for n in self.cols}
        return self.new({n: A.astype(v, N.get_dtype(it, t[n])) if n in t else v for n, v in self.cols.items()})

    def m_tz_localize(self, it, tz, axis=0, level=None, copy=None, **k):
        return self.new(index=localized(it, self.index, tz))

    def m_tz_convert(self, it, tz, *a, **k):
        if not isinstance(self.index, MT.PdTimes):
            raise PyExc(TypeError, 'index is not a valid DatetimeIndex or PeriodIndex')
        return self.new(index=self.index.m_tz_convert(it, tz))

    def m_head(self, it, n=5):
        return self.rows(it, slice(None, n))

    def m_tail(self, it, n=5):
        return self.rows(it, slice(-n, None) if n else slice(0, 0))

    def m_to_parquet(self, it, path=None, *a, **k):
        from . import m_files
        fs = m_files.fs_of(it)
        p = m_files.path_text(it, path)
        if not fs.exists(m_files.posixpath.dirname(p) or '.'):
            raise PyExc(OSError, f'Cannot save file into a non-existent directory: {p}')
        r = self.m_copy(it)
        if k.get('index') is False:
            r.index = r.index_name = None
        bad = [n for n in r.cols if not isinstance(n, str)]
        if bad:
            raise PyExc(ValueError, 'parquet must have string column names')
        fs.files[p] = r
        fs.log.append(('write', p))

    m_to_pickle = m_to_feather = m_to_parquet

    def m_to_csv(self, it, *a, **k):
        raise AnalysisGap('to_csv')

    def binop(self, it, op, o, rev):
        if isinstance(o, (Frame, Series)):
            raise AnalysisGap('arithmetic of tables')
        return self.new({n: it.binop(op, o, v) if rev else it.binop(op, v, o) for n, v in self.cols.items()})

    def compare(self, it, op, o):
        raise AnalysisGap('comparison of a table')


FRAME_OTHER = {'loc', 'at', 'iat', 'sort_values', 'sort_index', 'groupby', 'resample', 'shift', 'diff', 'interpolate', 'dropna',
               'drop_duplicates', 'duplicated', 'apply', 'applymap', 'map', 'query', 'where', 'mask', 'merge', 'join', 'agg',
               'iterrows', 'itertuples', 'describe', 'sum', 'mean', 'replace', 'fillna', 'transpose', 'to_xarray', 'to_dict',
               'set_flags', 'update', 'add', 'sub', 'mul', 'div', 'convert_dtypes', 'squeeze', 'clip', 'round', 'abs', 'nunique'}


class Labels(Obj):
    tname = 'Index'

    def __init__(self, names):
        self.names = names

    def iterate(self, it):
        return list(self.names)

    def length(self, it):
        return len(self.names)

    def contains(self, it, k):
        return k in self.names

    def getitem(self, it, k):
        r = self.names[k]
        return Labels(r) if isinstance(k, slice) else r

    def m_tolist(self, it):
        return list(self.names)

    m_to_list = m_tolist

    def m_get_loc(self, it, k):
        if k not in self.names:
            raise PyExc(KeyError, k)
        return self.names.index(k)

    def m_difference(self, it, o, **k):
        o = it.to_list(o)
        return Labels(sorted(n for n in self.names if n not in o))


def series(it, data=None, index=None, name=None):
    if isinstance(data, Series):
        return Series(data.v, data.index if index is None else as_index(it, index), name if name is not None else data.name)
    c = as_column(it, data)
    if c is None:
        if index is None:
            raise AnalysisGap('Series of a scalar')
        i = as_index(it, index)
        return Series(filled(it, data, axis_of(i)), i, name)
    i = None if index is None else as_index(it, index)
    if i is not None and not A.same_size(axis_of(i), axis_of(c)):
        raise PyExc(ValueError, 'Length of values does not match length of index')
    return Series(c, i, name)


@model('pandas.DataFrame')
def dataframe(it, data=None, index=None, columns=None, dtype=None, copy=None):
    names = None if columns is None else it.to_list(columns)
    if isinstance(data, Frame):
        r = data.m_copy(it)
        if names is not None:
            r = r.getitem(it, names)
        if index is not None:
            raise AnalysisGap('DataFrame of a DataFrame with another index')
        return r
    if isinstance(data, Series):
        r = data.m_to_frame(it)
        if names is not None:
            r._set_labels(names)
        return r
    cols, iname = {}, None
    if isinstance(data, dict):
        i = None if index is None else as_index(it, index)
        scalars = {}
        for n, v in data.items():
            if isinstance(v, Series):
                if i is None:
                    i, iname = v.index, v.index_name
                elif not same_rows(v.index, i):
                    raise AnalysisGap('columns of different tables')
            c = as_column(it, v)
            cols[n] = c
            if c is None:
                scalars[n] = v
        axes = [axis_of(c) for c in cols.values() if c is not None] or ([axis_of(i)] if i is not None else [])
        if not axes:
            raise PyExc(ValueError, 'If using all scalar values, you must pass an index')
        if any(not A.same_size(x, axes[0]) for x in axes):
            raise PyExc(ValueError, 'All arrays must be of the same length')
        if i is not None and not A.same_size(axis_of(i), axes[0]):
            raise PyExc(ValueError, 'Length of values does not match length of index')
        for n, v in scalars.items():
            cols[n] = filled(it, v, axes[0])
        r = Frame(cols, i, axes[0], iname)
        if names is not None:
            r = r.getitem(it, names)
        return r
    if isinstance(data, I.GenVal):
        data = data.take()
    if isinstance(data, (list, tuple)) and data and all(isinstance(x, dict) for x in data):
        keys = list(data[0])
        if any(list(x) != keys for x in data):
            raise AnalysisGap('DataFrame of rows with different keys')
        return dataframe(it, {k: [x[k] for x in data] for k in keys}, index, columns)
    if isinstance(data, (list, tuple)) and data and all(isinstance(x, (list, tuple)) for x in data):
        n = len(data[0])
        if any(len(x) != n for x in data):
            raise AnalysisGap('DataFrame of rows of different lengths')
        parts = {j: as_column(it, [x[j] for x in data]) for j in range(n)}
        ax = len(data)
    else:
        if data is None:
            raise AnalysisGap('an empty DataFrame')
        a = N.to_arr(it, data)
        if len(a.axes) == 1:
            parts = {0: as_column(it, a)}
        elif len(a.axes) == 2:
            if not isinstance(a.axes[1], int):
                raise AnalysisGap('DataFrame with an abstract number of columns')
            parts = {j: A.getitem(a, (slice(None), j)) for j in range(a.axes[1])}
        else:
            raise PyExc(ValueError, 'Must pass 2-d input')
        ax = a.axes[0]
    r = Frame(parts, None, ax)
    if names is not None:
        if len(names) != len(r.cols):
            raise PyExc(ValueError, f'{len(names)} columns passed, passed data had {len(r.cols)} columns')
        r._set_labels(names)
    if index is not None:
        r.index = r._index(it, index)
    if dtype is not None:
        r = r.m_astype(it, dtype)
    return r


I.MODELS['pandas.DataFrame.from_records'] = lambda it, data, columns=None, index=None, **k: dataframe(it, data, index, columns)


@model('pandas.DataFrame.from_dict')
def _from_dict(it, data, orient='columns', columns=None, **k):
    if orient != 'columns':
        raise AnalysisGap('from_dict')
    return dataframe(it, data)


def joined(it, vs):
    """Columns one after the other."""
    if all(isinstance(v, MT.PdTimes) for v in vs):
        if any(v.tz != vs[0].tz for v in vs):
            raise AnalysisGap('tables in different time zones')
        a = I.MODELS['numpy.concatenate'](it, [v.arr for v in vs])
        return MT.PdTimes(a, vs[0].tz, 'index')
    if any(isinstance(v, MT.PdTimes) for v in vs):
        raise AnalysisGap('columns of different types')
    return I.MODELS['numpy.concatenate'](it, list(vs))


@model('pandas.concat')
def concat(it, objs, axis=0, join='outer', ignore_index=False, keys=None, verify_integrity=False, sort=False, copy=None, **k):
    xs = [x for x in it.to_list(objs.values() if isinstance(objs, dict) else objs) if x is not None]
    if not xs:
        raise PyExc(ValueError, 'No objects to concatenate')
    if keys is not None or isinstance(objs, dict):
        raise AnalysisGap('concat with keys')
    if axis in (1, 'columns'):
        if any(not same_rows(x.index, xs[0].index) for x in xs):
            raise AnalysisGap('columns of different tables side by side')
        r = xs[0].m_copy(it) if isinstance(xs[0], Frame) else xs[0].m_to_frame(it)
        for x in xs[1:]:
            for n, v in (x.cols.items() if isinstance(x, Frame) else [(x.name, x.v)]):
                if n in r.cols:
                    raise AnalysisGap('columns of the same name')
                r.cols[n] = v
        return r
    if any(not isinstance(x, Frame) for x in xs):
        raise AnalysisGap('concat of series')
    names = list(xs[0].cols)
    if any(set(x.cols) != set(names) for x in xs):
        raise AnalysisGap('concat of tables with different columns')
    cols = {n: joined(it, [x.cols[n] for x in xs]) for n in names}
    index = joined(it, [index_value(x.index, x.ax) for x in xs])
    iname = xs[0].index_name if all(x.index_name == xs[0].index_name for x in xs) else None
    ax = axis_of(index)
    if ignore_index:
        index = iname = None
    return Frame(cols, index, ax, iname)


@model('pandas.read_parquet', 'pandas.read_pickle', 'pandas.read_feather')
def read_parquet(it, path, *a, columns=None, **k):
    from . import m_files
    fs = m_files.fs_of(it)
    p = m_files.path_text(it, path)
    fs.log.append(('r', p))
    if p not in fs.files:
        raise PyExc(FileNotFoundError, p)
    f = fs.files[p]
    if not isinstance(f, Frame):
        raise PyExc(ValueError, 'Parquet magic bytes not found in footer')
    r = f.m_copy(it)
    return r if columns is None else r.getitem(it, columns)


EXT_TYPES['pandas.DataFrame'] = lambda it, v: isinstance(v, Frame)
_old_series = EXT_TYPES.get('pandas.Series')
EXT_TYPES['pandas.Series'] = lambda it, v: isinstance(v, Series) or bool(_old_series and _old_series(it, v))
