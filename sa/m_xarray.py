"""Model of xarray.DataArray (dims, coordinates, names and attributes over abstract arrays)."""

from fractions import Fraction

from . import terms as T
from . import arrays as A
from .arrays import Arr, PyExc
from .terms import AnalysisGap
from .values import MISSING, Builtin, ExtVal, Instance, Obj, Opaque, SymIter, SymList, SymStr
from . import interp as I
from .interp import EXT_TYPES, model
from . import m_numpy as N
from . import m_time as MT


def canon(a):
    """Value key of an array, independent of axis names."""
    m = {}
    for i, x in enumerate(a.axes):
        if isinstance(x, A.Ax):
            m[x.name] = T.idxvar(f'#{i}')
    cells = [T.subst(c, m) for c in a.cells] if m else a.cells
    if a.dtype[0] in 'Mm':
        cells = MT.secs(Arr((), [T.const(0)], a.dtype)) and [T.scale(c, {0: Fraction(A._UNITS[A.unit(a.dtype)])}) for c in cells] \
            if A.unit(a.dtype) in A._UNITS else cells
    return (tuple(A.size_term(x).fp for x in a.axes), tuple((c.fp, c.valid.fp) for c in cells))


def same_values(a, b):
    return a is b or canon(a) == canon(b)


def as_data(it, v):
    """Data accepted by DataArray()."""
    if isinstance(v, DataArray):
        return v.arr
    if isinstance(v, Arr) and v.kind == 'nd':
        if v.dtype[0] in 'Mm' and A.unit(v.dtype) not in ('s', 'ms', 'us', 'ns'):
            return A.astype(v, MT.fine(v.dtype))
        return v
    if isinstance(v, MT.TimeLike):
        r = v.buffer(it)
        return r
    a = N.to_arr(it, v)
    d = {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}.get(a.dtype, a.dtype)
    r = Arr(a.axes, a.cells, d, 'nd')
    return r


def dim_list(dims):
    if dims is None:
        return None
    if isinstance(dims, str):
        return [dims]
    return list(dims)


class DataArray(Obj):
    tname = 'DataArray'

    def __init__(self, arr, dims, coords=None, name=None, attrs=None):
        self.arr = arr
        self.dims = tuple(dims)
        self.coords = dict(coords or {})       # name -> (dims, Arr)
        self.name = name
        self.attrs = dict(attrs or {})

    def __repr__(self):
        return f'<DataArray {self.name} {self.dims} {self.arr!r}>'

    # -- structure
    def p_dims(self, it):
        return self.dims

    def p_shape(self, it):
        return A.shape_of(self.arr)

    def p_sizes(self, it):
        return dict(zip(self.dims, A.shape_of(self.arr)))

    def p_ndim(self, it):
        return len(self.dims)

    def p_size(self, it):
        r = 1
        for s in A.shape_of(self.arr):
            r = it.binop('*', r, s)
        return r

    def p_dtype(self, it):
        return N.DType(self.arr.dtype)

    def p_name(self, it):
        return self.name

    def p_attrs(self, it):
        return self.attrs

    def p_values(self, it):
        return self.arr

    p_data = p_values
    p_variable = lambda self, it: self       # noqa: E731

    def m_to_numpy(self, it, *a, **k):
        return self.arr

    def m___array__(self, it, dtype=None, **k):
        return N.np_asarray(it, self.arr, dtype)

    def to_array(self, it):
        return self.arr

    def buffer(self, it):
        return self.arr

    def length(self, it):
        if not self.dims:
            raise PyExc(TypeError, 'len() of unsized object')
        return A.size_val(self.arr.axes[0])

    def p_coords(self, it):
        return Coords(self)

    def p_indexes(self, it):
        return Coords(self)

    def p_T(self, it):
        return self.m_transpose(it)

    def p_loc(self, it):
        raise AnalysisGap('DataArray.loc')

    def p_dt(self, it):
        if self.arr.dtype[0] not in 'Mm':
            raise PyExc(AttributeError, "'.dt' accessor only available for datetimelike data")
        return DtAcc(self)

    def coord(self, name):
        d, a = self.coords[name]
        return DataArray(a, d, {k: v for k, v in self.coords.items() if set(v[0]) <= set(d)}, name)

    def getattr(self, it, name):
        v = super().getattr(it, name)
        if v is MISSING:
            if name in self.coords:
                return self.coord(name)
            if name in self.attrs:
                return self.attrs[name]
            if name in N.ARR_METHODS and name not in ('flatten', 'ravel', 'reshape', 'resize', 'sort', 'fill'):
                raise AnalysisGap(f'DataArray.{name}')
            if name in DA_OTHER:
                raise AnalysisGap(f'DataArray.{name}')
        return v

    def setattr(self, it, name, v):
        if name == 'name':
            self.name = v
        elif name == 'attrs':
            self.attrs = dict(v)
        elif name in ('values', 'data'):
            A.setitem(self.arr, Ellipsis, N.to_arr(it, v), it.written)
        else:
            raise PyExc(AttributeError, f"cannot set attribute {name!r} on a 'DataArray' object")

    def new(self, arr=None, dims=None, coords=None, name=MISSING, attrs=MISSING):
        return DataArray(self.arr if arr is None else arr, self.dims if dims is None else dims,
                         self.coords if coords is None else coords, self.name if name is MISSING else name,
                         self.attrs if attrs is MISSING else attrs)

    # -- metadata
    def m_rename(self, it, new=None, **k):
        if isinstance(new, dict) or k:
            m = dict(new or {}, **k)
            return self.new(dims=[m.get(d, d) for d in self.dims],
                            coords={m.get(n, n): (tuple(m.get(d, d) for d in v[0]), v[1]) for n, v in self.coords.items()},
                            name=m.get(self.name, self.name))
        return self.new(name=new)

    def m_assign_attrs(self, it, *a, **k):
        at = dict(self.attrs)
        for x in a:
            at.update(x)
        at.update(k)
        return self.new(attrs=at)

    def m_drop_attrs(self, it, **k):
        return self.new(attrs={})

    def m_drop_vars(self, it, names, **k):
        ns = [names] if isinstance(names, str) else list(names)
        for n in ns:
            if n not in self.coords and k.get('errors') != 'ignore':
                raise PyExc(ValueError, f'{n} not found')
        return self.new(coords={n: v for n, v in self.coords.items() if n not in ns})

    def m_reset_coords(self, it, names=None, drop=False):
        if not drop:
            raise AnalysisGap('reset_coords')
        ns = [n for n in self.coords if n not in self.dims] if names is None else \
            [names] if isinstance(names, str) else list(names)
        return self.m_drop_vars(it, ns)

    def m_assign_coords(self, it, coords=None, **k):
        c = dict(coords or {}, **k)
        return self.new(coords={**self.coords, **make_coords(it, c, self.dims, self.arr, self.coords)})

    # -- copies and conversions
    def m_copy(self, it, deep=True, data=None):
        if data is not None:
            a = as_data(it, data)
            if len(a.axes) != len(self.dims) or any(not A.same_size(x, y) for x, y in zip(a.axes, self.arr.axes)):
                raise PyExc(ValueError, f'Data shape {[A._axs(x) for x in a.axes]} must match shape of object')
            return self.new(arr=a)
        return self.new(arr=A.copy(self.arr) if deep else self.arr)

    def copy_(self, it):
        return self.m_copy(it)

    m___copy__ = m_copy

    def m_astype(self, it, dtype, copy=True, **k):
        d = N.get_dtype(it, dtype)
        if d == 'M8' and self.arr.dtype[0] == 'M' or d == 'm8' and self.arr.dtype[0] == 'm':
            d = self.arr.dtype
        a = A.astype(self.arr, d)
        if a.dtype[0] in 'Mm' and A.unit(a.dtype) not in ('s', 'ms', 'us', 'ns'):
            a = A.astype(a, MT.fine(a.dtype))
        a.kind = 'nd'
        return self.new(arr=a)

    def m_astype_(self, it, d):
        return self.m_astype(it, N.DType(d))

    astype_ = m_astype_

    def map_data(self, it, f):
        return self.new(arr=f(self.arr))

    def m_item(self, it, *a):
        return N.am_item(it, self.arr, *a)

    def to_scalar(self, it):
        if self.dims:
            raise PyExc(TypeError, 'only 0-dimensional arrays can be converted to Python scalars')
        return N.am_item(it, self.arr)

    def m_tolist(self, it):
        return N.arr_attr(it, self.arr, 'tolist').fn(it)

    def m_load(self, it, **k):
        return self

    m_compute = m_persist = m_load

    def m_pipe(self, it, f, *a, **k):
        return it.call(f, [self] + list(a), k)

    def m_as_numpy(self, it):
        return self

    def to_dt64(self, it):
        return self.arr

    def truth(self, it):
        if self.dims and not all(x == 1 for x in self.arr.axes):
            raise PyExc(ValueError, 'The truth value of an array with more than one element is ambiguous')
        return it.truth(Arr((), [self.arr.cells[0]], self.arr.dtype, 'sc'))

    def format(self, it, spec):
        if self.dims:
            if spec:
                raise PyExc(TypeError, 'unsupported format string passed to DataArray.__format__')
            return SymStr([('DataArray', self)])
        return it.format(N.am_item(it, self.arr) if self.arr.dtype[0] not in 'Mm' else self.arr, spec)

    def str(self, it):
        return SymStr([('DataArray', self)])

    def subst(self, m):
        a = self.arr
        return self.new(arr=Arr(a.axes, [T.subst(c, m) for c in a.cells], a.dtype),
                        coords={n: (d, Arr(c.axes, [T.subst(x, m) for x in c.cells], c.dtype))
                                for n, (d, c) in self.coords.items()})

    # -- arithmetic
    def binop(self, it, op, other, rev):
        return combine(it, lambda x, y: A.binop(op, x, y), [other, self] if rev else [self, other])

    def compare(self, it, op, other):
        return combine(it, lambda x, y: A.compare(op, x, y), [self, other])

    def unary(self, it, op):
        return self.new(arr=_nd(A.unary(op, self.arr)))

    def inplace(self, it, op, v):
        r = self.binop(it, op, v, False)
        if r.dims != self.dims:
            raise PyExc(ValueError, 'dimensions cannot change for in-place operations')
        A.setitem(self.arr, Ellipsis, r.arr, it.written)
        return self

    def ufunc(self, it, name):
        if name in ('isnat',):
            return self.new(arr=_nd(N.apply1(it, name, self.arr)))
        return self.new(arr=_nd(N.apply1(it, name, self.arr)))

    def ufunc2(self, it, name, other, rev):
        return combine(it, lambda x, y: N.apply2(it, name, x, y), [other, self] if rev else [self, other])

    def m_round(self, it, decimals=0):
        return self.new(arr=_nd(N.np_round(it, self.arr, decimals)))

    def m_clip(self, it, min=None, max=None, keep_attrs=None, **k):
        r = self
        if min is not None:
            r = combine(it, lambda x, y: N.apply2(it, 'maximum', x, y), [r, min])
        if max is not None:
            r = combine(it, lambda x, y: N.apply2(it, 'minimum', x, y), [r, max])
        return r.new(name=self.name, attrs=self.attrs)

    def m_where(self, it, cond, other=MISSING, drop=False):
        if callable(getattr(cond, 'fn', None)) or type(cond).__name__ in ('FuncVal', 'BoundMethod'):
            cond = it.call(cond, [self])
        if drop:
            raise AnalysisGap('where(drop=True)')
        nat = self.arr.dtype[0] in 'Mm'
        if other is MISSING:
            other = Arr((), [T.nan()], self.arr.dtype if nat else 'f8', 'sc')

        def f(x, c, o):
            return N.np_where(it, c, x, o)
        r = combine(it, f, [self, cond, other])
        return r.new(name=self.name, attrs=self.attrs)

    def where3(self, it, c, x, y):
        # numpy.where over DataArrays: plain arrays come back
        ar = [N.to_arr(it, v) for v in (c, x, y)]
        return N.np_where(it, *ar)

    def fill_like(self, it, t, d):
        a = self.arr
        d = d or a.dtype
        return self.new(arr=Arr(a.axes, [t] * len(a.cells), d))

    def m_fillna(self, it, v):
        return self.m_where(it, self.m_notnull(it), v)

    def m_isnull(self, it, **k):
        return self.new(arr=_nd(A.elementwise(lambda c: T.bnot(c.valid), [self.arr], 'b')))

    m_isna = m_isnull

    def m_notnull(self, it, **k):
        return self.new(arr=_nd(A.elementwise(lambda c: c.valid, [self.arr], 'b')))

    m_notna = m_notnull

    def m_dot(self, it, *a, **k):
        raise AnalysisGap('DataArray.dot')

    # -- shape
    def m_transpose(self, it, *dims, **k):
        dims = [d for d in dims]
        if not dims:
            dims = list(self.dims[::-1])
        if Ellipsis in dims:
            i = dims.index(Ellipsis)
            rest = [d for d in self.dims if d not in dims]
            dims = dims[:i] + rest + dims[i + 1:]
        if sorted(dims) != sorted(self.dims):
            raise PyExc(ValueError, f'{dims} must be a permuted list of {self.dims}')
        if tuple(dims) == self.dims:
            return self
        return self.new(arr=A.transpose(self.arr, [self.dims.index(d) for d in dims]), dims=dims)

    def m_expand_dims(self, it, dim=None, axis=None, **k):
        ds = [dim] if isinstance(dim, str) else list(dim)
        if axis not in (None, 0) or k:
            raise AnalysisGap('expand_dims')
        if isinstance(dim, dict):
            raise AnalysisGap('expand_dims')
        a = Arr((1,) * len(ds) + tuple(self.arr.axes), self.arr.cells, self.arr.dtype, base=self.arr)
        co = dict(self.coords)
        for d in ds:
            if d in co and co[d][0] == ():
                co[d] = ((d,), Arr((1,), co[d][1].cells, co[d][1].dtype))
        return self.new(arr=a, dims=tuple(ds) + self.dims, coords=co)

    def m_squeeze(self, it, dim=None, drop=False, axis=None):
        r = self
        for d in list(self.dims):
            i = r.dims.index(d)
            ax = r.arr.axes[i]
            one = isinstance(ax, int) and ax == 1 or not isinstance(ax, int) and it.truth(
                it.compare('==', A.size_val(ax), 1))
            if dim is None and one or dim == d or isinstance(dim, (list, tuple)) and d in dim:
                if not one:
                    raise PyExc(ValueError, 'cannot select a dimension to squeeze out which has length greater than one')
                r = r.m_isel(it, {d: 0}, drop=drop)
        return r

    def m_isel(self, it, indexers=None, drop=False, missing_dims='raise', **k):
        k = dict(indexers or {}, **k)
        key = []
        for d in k:
            if d not in self.dims:
                raise PyExc(ValueError, f'Dimensions {{{d!r}}} do not exist. Expected one or more of {self.dims}')
        return self._index(it, k, drop)

    def _index(self, it, k, drop=False):
        def ix(dims, a):
            key = tuple(N.norm_index(it, k[d]) if d in k else slice(None) for d in dims)
            if not any(d in k for d in dims):
                return dims, a
            r = A.getitem(a, key)
            r = _nd(r)
            nd = tuple(d for d, q in zip(dims, key) if not A._is_scalar_index(q))
            if len(nd) != len(r.axes):
                raise AnalysisGap('DataArray indexing')
            return nd, r
        dims, arr = ix(self.dims, self.arr)
        co = {}
        for n, (cd, ca) in self.coords.items():
            d2, a2 = ix(cd, ca)
            if drop and not d2 and cd:
                continue
            co[n] = (d2, a2)
        return self.new(arr=arr, dims=dims, coords=co)

    def m_sel(self, it, indexers=None, method=None, tolerance=None, drop=False, **k):
        raise AnalysisGap('DataArray.sel')

    def getitem(self, it, k):
        if isinstance(k, str):
            if k in self.coords:
                return self.coord(k)
            if k in self.dims:
                ax = self.arr.axes[self.dims.index(k)]
                return DataArray(N.np_arange(it, A.size_val(ax)), (k,), {}, k)
            raise PyExc(KeyError, k)
        if isinstance(k, dict):
            return self._index(it, k)
        ks = list(k) if isinstance(k, tuple) else [k]
        if Ellipsis in [x for x in ks if not isinstance(x, (Arr, Obj))]:
            i = next(j for j, x in enumerate(ks) if x is Ellipsis)
            ks = ks[:i] + [slice(None)] * (len(self.dims) - len(ks) + 1) + ks[i + 1:]
        if len(ks) > len(self.dims):
            raise PyExc(IndexError, 'too many indices')
        return self._index(it, dict(zip(self.dims, ks)))

    def setitem(self, it, k, v):
        if isinstance(k, str):
            self.coords.update(make_coords(it, {k: v}, self.dims, self.arr, self.coords))
            return
        if isinstance(k, DataArray):
            k = k.m_transpose(it, *self.dims).arr if set(k.dims) == set(self.dims) else k.arr
        A.setitem(self.arr, N.norm_index(it, k), N.to_arr(it, v), it.written)

    def iterate(self, it):
        if not self.dims:
            raise PyExc(TypeError, 'iteration over a 0-d array')
        ax = self.arr.axes[0]
        if isinstance(ax, int):
            return [self._index(it, {self.dims[0]: j}) for j in range(ax)]
        return SymIter(ax.size, lambda i: self._index(it, {self.dims[0]: Arr((), [i], 'i8', 'sc')}))

    def m_broadcast_like(self, it, other, exclude=None):
        r = combine(it, lambda x, y: A.broadcast_to(x, A.broadcast_axes([x.axes, y.axes])), [self, other], order=other.dims)
        return r.new(name=self.name, attrs=self.attrs)

    def m_equals(self, it, o):
        return isinstance(o, DataArray) and o.dims == self.dims and same_values(self.arr, o.arr)

    m_identical = m_equals

    # -- reductions
    def reduce(self, it, op, axis=None, dim=None, **k):
        if dim is not None:
            axis = tuple(self.dims.index(d) for d in dim_list(dim)) if dim is not Ellipsis else None
        if axis is None:
            r = N.reduce_(it, op, self.arr)
            return DataArray(_nd(N.to_arr(it, r)), (), {n: v for n, v in self.coords.items() if not v[0]}, self.name)
        axs = axis if isinstance(axis, tuple) else (axis,)
        axs = tuple(x % len(self.dims) for x in axs)
        r = self.arr
        for x in sorted(axs, reverse=True):
            r = N.to_arr(it, N.reduce_(it, op, r, axis=x))
        dims = tuple(d for i, d in enumerate(self.dims) if i not in axs)
        return DataArray(_nd(r), dims, {n: v for n, v in self.coords.items() if set(v[0]) <= set(dims)}, self.name)


def _red(op, skip):
    def f(self, it, dim=None, axis=None, skipna=None, **k):
        o = op
        if skip and skipna is not False and A.is_float(self.arr.dtype) and any(c.valid is not T.TRUE for c in self.arr.cells):
            o = 'nan' + op
        return self.reduce(it, o, axis, dim)
    return f


for _o, _s in (('sum', True), ('prod', True), ('mean', True), ('min', True), ('max', True), ('all', False), ('any', False),
               ('std', True), ('var', True)):
    setattr(DataArray, 'm_' + _o, _red(_o, _s))


DA_OTHER = {'interp', 'reindex', 'groupby', 'resample', 'rolling', 'stack', 'unstack', 'to_dataset', 'to_dataframe',
            'to_series', 'to_pandas', 'diff', 'shift', 'roll', 'argmax', 'argmin', 'idxmax', 'swap_dims', 'map',
            'set_index', 'to_index', 'get_index', 'quantile', 'sortby', 'xindexes', 'encoding', 'chunk', 'real', 'str',
            'set_axis', 'cumsum', 'cumprod', 'nbytes', 'broadcast_equals', 'get_axis_num', 'head', 'tail', 'thin',
            'interpolate_na', 'ffill', 'bfill', 'combine_first', 'isin', 'searchsorted', 'rank', 'median', 'count',
            'to_netcdf', 'plot', 'drop_sel', 'drop_isel', 'dropna', 'differentiate', 'integrate', 'polyfit', 'pad',
            'weighted', 'curvefit', 'conj', 'to_dict', 'to_masked_array', 'reduce', 'drop', 'argsort', 'flags', 'swapaxes'}


def _nd(a):
    if a.kind == 'nd':
        return a
    d = {'pyf': 'f8', 'pyi': 'i8', 'pyb': 'b'}.get(a.dtype, a.dtype)
    return Arr(a.axes, a.cells, d, 'nd')


class DtAcc(Obj):
    tname = 'DatetimeAccessor'

    def __init__(self, da):
        self.da = da

    def getattr(self, it, name):
        da = self.da
        t = (MT.PdTimes if da.arr.dtype[0] == 'M' else MT.PdDelta)(da.arr, **({'flavor': 'index'} if da.dims else {}))
        if name in ('floor', 'round', 'ceil', 'strftime', 'total_seconds'):
            def call(it_, *a, **k):
                r = it_.call(t.getattr(it_, name), list(a), k)
                return da.new(arr=_nd(N.to_arr(it_, r)), attrs={})
            return Builtin(call, 'dt.' + name)
        v = t.getattr(it, name)
        if v is MISSING:
            return v
        if name == 'date':
            return da.new(arr=_nd(A.astype(da.arr, 'M8[s]')) if False else _nd(A.astype(A.astype(da.arr, 'M8[D]'), 'M8[s]')))
        return da.new(arr=_nd(N.to_arr(it, v)), attrs={})


class Coords(Obj):
    tname = 'DataArrayCoordinates'

    def __init__(self, da):
        self.da = da

    def getitem(self, it, k):
        if k not in self.da.coords:
            raise PyExc(KeyError, str(k))
        return self.da.coord(k)

    def m_get(self, it, k, d=None):
        return self.da.coord(k) if k in self.da.coords else d

    def contains(self, it, k):
        return k in self.da.coords

    def iterate(self, it):
        return list(self.da.coords)

    def m_keys(self, it):
        return list(self.da.coords)

    def m_values(self, it):
        return [self.da.coord(k) for k in self.da.coords]

    def m_items(self, it):
        return [(k, self.da.coord(k)) for k in self.da.coords]

    def length(self, it):
        return len(self.da.coords)

    def setitem(self, it, k, v):
        self.da.coords.update(make_coords(it, {k: v}, self.da.dims, self.da.arr, self.da.coords))

    def getattr(self, it, name):
        v = super().getattr(it, name)
        if v is MISSING and name in self.da.coords:
            return self.da.coord(name)
        return v

    def asdict(self):
        return {k: self.da.coord(k) for k in self.da.coords}


def make_coords(it, coords, dims, arr, existing=None):
    out = {}
    if coords is None:
        return out
    if isinstance(coords, Coords):
        coords = coords.asdict()
    if isinstance(coords, (list, tuple)):
        if len(coords) != len(dims):
            raise PyExc(ValueError, 'different number of coordinates and dimensions on data')
        new = {}
        for d, c in zip(dims, coords):
            if isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], str):
                new[c[0]] = c[1]
            else:
                new[d] = c
        coords = new
    if not isinstance(coords, dict):
        raise PyExc(TypeError, 'coords must be a dict')
    sizes = dict(zip(dims, arr.axes))
    for n, v in coords.items():
        if isinstance(v, DataArray):
            cd, ca = v.dims, v.arr
            if n in dims and len(cd) == 1 and cd[0] != n:
                raise PyExc(ValueError, f'coordinate {n} has dimension {cd[0]}')
        elif isinstance(v, tuple) and len(v) >= 2 and isinstance(v[0], (str, list, tuple)):
            cd = tuple(dim_list(v[0]))
            ca = as_data(it, v[1])
        else:
            ca = as_data(it, v)
            if len(ca.axes) == 0:
                cd = ()
            elif len(ca.axes) == 1:
                cd = (n,)
            else:
                raise PyExc(ValueError, f'coordinate {n} has more than one dimension and no dims')
        if len(cd) != len(ca.axes):
            raise PyExc(ValueError, f'dimensions {cd} must have the same length as the number of data dimensions')
        for d, x in zip(cd, ca.axes):
            if d not in sizes:
                raise PyExc(ValueError, f'coordinate {n} has dimensions {cd}, but these are not a subset of the DataArray dimensions {dims}')
            if not A.same_size(x, sizes[d]):
                raise PyExc(ValueError, f'conflicting sizes for dimension {d!r}: {A._axs(sizes[d])} on the data but {A._axs(x)} on coordinate {n!r}')
        if n in dims:
            ca = Arr(ca.axes, ca.cells, ca.dtype, owner=ca.owner, base=ca.base)      # an index is kept apart from the data
        out[n] = (cd, ca)
    return out


@model('xarray.DataArray')
def da_ctor(it, data=MISSING, coords=None, dims=None, name=None, attrs=None, **k):
    if data is MISSING:
        raise AnalysisGap('DataArray without data')
    if isinstance(data, DataArray):
        arr = data.arr
        if dims is None:
            dims = data.dims
        if coords is None:
            coords = Coords(data)
        name = name if name is not None else data.name
        attrs = attrs if attrs is not None else data.attrs
    else:
        arr = as_data(it, data)
    arr = _nd(arr)
    dims = dim_list(dims)
    if dims is None:
        if isinstance(coords, dict) and len(arr.axes) == len(coords) and arr.axes and False:
            dims = list(coords)
        elif isinstance(coords, (list, tuple)):
            dims = [c[0] if isinstance(c, tuple) and isinstance(c[0], str) else f'dim_{i}' for i, c in enumerate(coords)]
        elif isinstance(coords, dict) and coords and arr.axes:
            raise PyExc(ValueError, 'inferring DataArray dimensions from dictionary like ``coords`` is no longer supported. '
                        'Use an explicit list of ``dims`` instead.')
        else:
            dims = [f'dim_{i}' for i in range(len(arr.axes))]
    if len(dims) != len(arr.axes):
        raise PyExc(ValueError, f'different number of dimensions on data and dims: {len(arr.axes)} vs {len(dims)}')
    if len(set(dims)) != len(dims):
        raise PyExc(ValueError, 'repeated dimensions')
    co = make_coords(it, coords, dims, arr)
    for i, (d, x) in enumerate(zip(dims, arr.axes)):
        if d in co and isinstance(co[d][1], Arr):
            pass
    return DataArray(arr, dims, co, name, dict(attrs) if attrs else {})


class Dataset(Obj):
    """Named arrays with common dimensions and coordinates."""
    tname = 'Dataset'

    def __init__(self, vars=None, coords=None, attrs=None):
        self.vars = dict(vars or {})           # name -> DataArray, with the coordinates of its dimensions
        self.shared = dict(coords or {})       # name -> (dims, Arr)
        self.attrs = dict(attrs or {})

    def sizes_(self):
        out = {}
        for d, arr in list(self.shared.values()) + [(v.dims, v.arr) for v in self.vars.values()]:
            for n, x in zip(d, arr.axes):
                if n in out and not A.same_size(out[n], x):
                    raise PyExc(ValueError, f'conflicting sizes for dimension {n!r}')
                out.setdefault(n, x)
        return out

    def put(self, it, name, v):
        if isinstance(v, tuple):
            if len(v) < 2:
                raise PyExc(ValueError, 'a variable needs dimensions and data')
            v = da_ctor(it, as_data(it, v[1]) if not isinstance(v[1], DataArray) else v[1].arr, dims=dim_list(v[0]), attrs=v[2] if len(v) > 2 else None)
        elif not isinstance(v, DataArray):
            a = as_data(it, v)
            if a.axes:
                raise PyExc(ValueError, f'could not convert {name!r}: dimensions are needed')
            v = DataArray(a, ())
        for n, (d, arr) in v.coords.items():
            if n in self.shared:
                if not same_values(arr, self.shared[n][1]):
                    raise AnalysisGap('alignment of the variables of a Dataset')
            else:
                self.shared[n] = (d, arr)
        self.vars[name] = DataArray(v.arr, v.dims, {}, name, v.attrs)
        self.sizes_()

    def var(self, name):
        if name in self.vars:
            v = self.vars[name]
            co = {n: c for n, c in self.shared.items() if set(c[0]) <= set(v.dims)}
            r = DataArray(v.arr, v.dims, co, name)
            r.attrs = v.attrs
            return r
        d, arr = self.shared[name]
        co = {n: c for n, c in self.shared.items() if set(c[0]) <= set(d)}
        return DataArray(arr, d, co, name)

    def getitem(self, it, k):
        if isinstance(k, list):
            return Dataset({n: self.vars[n] for n in k}, self.shared, self.attrs)
        if k not in self.vars and k not in self.shared:
            raise PyExc(KeyError, str(k))
        return self.var(k)

    def setitem(self, it, k, v):
        self.put(it, k, v)

    def getattr(self, it, name):
        v = super().getattr(it, name)
        if v is MISSING and (name in self.vars or name in self.shared):
            return self.var(name)
        return v

    def contains(self, it, k):
        return k in self.vars or k in self.shared

    def iterate(self, it):
        return list(self.vars)

    def length(self, it):
        return len(self.vars)

    def m_keys(self, it):
        return list(self.vars)

    def m_values(self, it):
        return [self.var(k) for k in self.vars]

    def m_items(self, it):
        return [(k, self.var(k)) for k in self.vars]

    def m_get(self, it, k, d=None):
        return self.var(k) if k in self.vars or k in self.shared else d

    def p_data_vars(self, it):
        return {k: self.var(k) for k in self.vars}

    def p_coords(self, it):
        return {k: self.var(k) for k in self.shared}

    def p_sizes(self, it):
        return {n: A.shape_of(Arr((x,), [], 'f8'))[0] for n, x in self.sizes_().items()}

    p_dims = p_sizes

    def m_assign(self, it, *a, **k):
        r = Dataset(self.vars, self.shared, self.attrs)
        for n, v in list((a[0] if a else {}).items()) + list(k.items()):
            r.put(it, n, it.call(v, [r], {}) if not isinstance(v, (DataArray, Arr, tuple, list, int, float)) else v)
        return r

    def m_assign_coords(self, it, *a, **k):
        r = Dataset(self.vars, self.shared, self.attrs)
        r.set_coords_(it, {**(a[0] if a else {}), **k})
        return r

    def m_assign_attrs(self, it, *a, **k):
        return Dataset(self.vars, self.shared, {**self.attrs, **(a[0] if a else {}), **k})

    def m_copy(self, it, deep=False, data=None):
        return Dataset({n: v.m_copy(it, deep=deep) for n, v in self.vars.items()}, self.shared, self.attrs)

    def set_coords_(self, it, coords):
        for n, v in coords.items():
            if isinstance(v, DataArray):
                d, arr = v.dims, v.arr
            elif isinstance(v, tuple):
                d, arr = tuple(dim_list(v[0])), as_data(it, v[1])
            else:
                arr = as_data(it, v)
                d = (n,) if len(arr.axes) == 1 else ()
            if len(d) != len(arr.axes):
                raise PyExc(ValueError, f'dimensions {d} must have the same length as the number of data dimensions')
            if n in d:
                arr = Arr(arr.axes, arr.cells, arr.dtype, owner=arr.owner, base=arr.base)
            self.shared[n] = (tuple(d), arr)
        self.sizes_()


@model('xarray.Dataset')
def ds_ctor(it, data_vars=None, coords=None, attrs=None):
    r = Dataset(attrs=attrs)
    if isinstance(coords, Coords):
        coords = coords.asdict()
    r.set_coords_(it, coords or {})
    for n, v in (data_vars or {}).items():
        r.put(it, n, v)
    return r


def merge_coords(it, das):
    """Union of coordinates; index coordinates must agree."""
    out = {}
    dropped = set()
    for da in das:
        for n, (d, a) in da.coords.items():
            if n in dropped:
                continue
            if n not in out:
                out[n] = (d, a)
                continue
            if out[n][0] == d and same_values(out[n][1], a):
                continue
            if n in d or n in out[n][0]:
                if it.env.get('join'):
                    it.env['join'](n, out[n][1], a)
                raise PyExc(AlignmentError, f'index coordinate {n!r} differs between the operands (inner join)')
            dropped.add(n)
            del out[n]
    return out


class AlignmentError(ValueError):
    """Index coordinates that differ: xarray would select the common labels."""


def combine(it, f, args, order=None):
    das = [a for a in args if isinstance(a, DataArray)]
    dims = list(order or [])
    for d in das:
        for n in d.dims:
            if n not in dims:
                dims.append(n)
    coords = merge_coords(it, das)
    # sizes of equal dims must agree
    size = {}
    for d in das:
        for n, x in zip(d.dims, d.arr.axes):
            if n in size and not A.same_size(size[n], x):
                raise PyExc(ValueError, f'cannot align objects on dimension {n!r}: sizes differ')
            size.setdefault(n, x)
    ops = []
    for a in args:
        if isinstance(a, DataArray):
            ops.append(_to_dims(a, dims))
        else:
            if isinstance(a, Instance) or a is None or isinstance(a, (str, SymStr, dict)):
                raise PyExc(TypeError, f'unsupported operand for a DataArray: {it.tname(a)}')
            x = N.to_arr(it, a)
            if x.axes and len(x.axes) > len(dims):
                raise PyExc(ValueError, 'cannot broadcast an array of more dimensions into a DataArray')
            ops.append(x)
    r = f(*ops)
    r = _nd(r)
    if len(r.axes) != len(dims):
        raise PyExc(ValueError, 'unexpected number of dimensions')
    names = {d.name for d in das}
    name = names.pop() if len(names) == 1 and all(isinstance(a, DataArray) or not isinstance(a, Obj) for a in args) else None
    attrs = {}
    for d in das:
        for k, v in d.attrs.items():
            if all(o.attrs.get(k, v) == v if isinstance(v, (str, int, float, type(None))) else True for o in das):
                attrs[k] = v
    return DataArray(r, dims, coords, name, attrs)


def _to_dims(da, dims):
    present = [d for d in dims if d in da.dims]
    a = da.arr
    perm = [da.dims.index(d) for d in present]
    if perm != sorted(perm):
        a = A.transpose(a, perm)
    axes = []
    j = 0
    for d in dims:
        if d in da.dims:
            axes.append(a.axes[j])
            j += 1
        elif axes or True:
            axes.append(1)
    return Arr(tuple(axes), a.cells, a.dtype, 'nd')


@model('xarray.where')
def xr_where(it, cond, x, y, keep_attrs=None):
    if not any(isinstance(v, DataArray) for v in (cond, x, y)):
        return N.np_where(it, cond, x, y)
    return combine(it, lambda c, a, b: N.np_where(it, c, a, b), [cond, x, y]).new(attrs={})


def _like(v):
    def f(it, x, *a, dtype=None, **k):
        t = A.lift(a[0]).cells[0] if v is None else T.const(v)
        return x.fill_like(it, t, N.get_dtype(it, dtype))
    return f


I.MODELS['xarray.zeros_like'] = _like(0)
I.MODELS['xarray.ones_like'] = _like(1)
I.MODELS['xarray.full_like'] = _like(None)


@model('xarray.broadcast')
def xr_broadcast(it, *das, **k):
    dims = []
    for d in das:
        dims += [n for n in d.dims if n not in dims]
    out = []
    for d in das:
        r = combine(it, lambda *xs: A.broadcast_to(xs[0], A.broadcast_axes([x.axes for x in xs])), [d] + list(das), order=dims)
        out.append(r.new(name=d.name, attrs=d.attrs))
    return tuple(out)


@model('xarray.align')
def xr_align(it, *das, **k):
    merge_coords(it, das)
    return tuple(das)


@model('xarray.apply_ufunc')
def xr_apply(it, f, *args, kwargs=None, dask=None, keep_attrs=None, input_core_dims=None, output_core_dims=None,
             vectorize=False, **k):
    if input_core_dims or output_core_dims:
        raise AnalysisGap('apply_ufunc with core dimensions')
    return combine(it, lambda *xs: N.to_arr(it, it.call(f, list(xs), kwargs or {})), list(args))


EXT_TYPES['xarray.DataArray'] = lambda it, v: isinstance(v, DataArray)
EXT_TYPES['xarray.Dataset'] = lambda it, v: isinstance(v, Dataset)
EXT_TYPES['xarray.Dataset'] = lambda it, v: False
I.EXT_EXC['xarray.AlignmentError'] = AlignmentError
