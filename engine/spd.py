"""Symbolic pandas: labels (index, columns) are real pandas indexes, cells are SArr columns.  Label arithmetic (alignment,
selection, union) is delegated to pandas itself by running the same operation on a frame of positions."""
import math, csv, io
import numpy as np
import pandas as pd
from . import core, snp
import z3
from .core import *
from .snp import SArr, FillArr, objarr, as_sarr, array, binary, unary, elem, red1, is_pd, F64, I64, BOOL, OBJ, U8, el_isnan

REAL = pd


def nul(x):
    """term: is this cell null"""
    return as_b(el_isnan(x)) if not isinstance(x, str) else False


def leaves(x):
    return [(g, v) for g, v in x.cases] if isinstance(x, SymCase) else [(True, x)]


def infer_obj(xs, dt):
    """dtype of a column holding these cells, pandas-like; numeric cells -> float64/int64"""
    kinds = set()
    for x in xs:
        for _, v in leaves(x):
            k = num_kind(v)
            kinds.add("s" if k is None and v is not None else ("f" if v is None else "bif"[k]))
    if not kinds: return dt
    if "s" in kinds: return OBJ
    if kinds == {"b"}: return BOOL
    if kinds == {"i"}: return I64
    if kinds <= {"i", "f"}: return F64
    return OBJ


def pd_el(op, x, y, dt):
    if isinstance(x, SymCase) or isinstance(y, SymCase):
        return mk_case([(b_and(g, h), pd_el(op, u, v, dt)) for g, u in leaves(x) for h, v in leaves(y)])
    sx, sy = isinstance(x, str), isinstance(y, str)
    if sx or sy:
        if op in ("eq", "ne"):
            r = (x == y) if sx and sy else False
            return r if op == "eq" else not r
        o = y if sx else x
        if not isinstance(o, str):
            if op in CMP:
                n = nul(o)
                if n is True: return False
                raise TypeError("'%s' not supported between instances of str and float" % op)
            n = nul(o)
            if n is True: return math.nan
            if n is not False:
                if Ctx.cur.branch(n): return math.nan
        return PYOP[op](x, y) if op != "mul" else scalar_op(op, x, y)
    if x is None or y is None:
        if op == "ne": return True
        if op in CMP: return False
        return math.nan
    if dt.kind == "O":
        if op in CMP: return mk_bool(cmp_op(op, x, y)) if isinstance(x, Sym) or isinstance(y, Sym) else bool(PYOP[op](x, y))
        return snp.el_op(op, x, y, F64 if 2 in (num_kind(x), num_kind(y)) or op == "div" else I64)
    return snp.el_op(op, x, y, dt)


def pd_binary(op, a, b):
    """SArr/scalar op SArr/scalar with pandas null handling; at least one SArr"""
    da = a.dt if isinstance(a, SArr) else None
    db = b.dt if isinstance(b, SArr) else None
    anyobj = any(d is not None and d.kind in "OUS" for d in (da, db)) or isinstance(a, (str, type(None))) or isinstance(b, (str, type(None)))
    if anyobj:
        dt = BOOL if op in CMP else OBJ
    else:
        dt = snp.result_dtype(op, a, b)
        if op in ("and", "or", "xor") and dt.kind == "f": raise TypeError("unsupported operand")
        if op in ("floordiv", "mod") and dt.kind != "f": dt = F64
    av = a.a if isinstance(a, SArr) else a
    bv = b.a if isinstance(b, SArr) else b
    out = snp.apply2(lambda x, y: pd_el(op, x, y, dt), av, bv)
    return SArr(out, dt)


def rpos(index):
    return pd.Series(np.arange(len(index)), index=index)


def clabel(k):
    """concrete label"""
    if isinstance(k, Sym): return snp.conc_scalar(k)
    return k


def take(arr, pos):
    """arr[pos] with -1 meaning missing"""
    pos = [int(p) for p in pos]
    if any(p < 0 for p in pos):
        dt = F64 if arr.dt.kind in "uif" else OBJ
        return SArr(objarr([math.nan if p < 0 else (cast(arr.a[p], dt) if dt.kind == "f" else arr.a[p]) for p in pos]), dt)
    return SArr(arr.a[pos] if len(pos) else objarr([]), arr.dt)


def mask_positions(m):
    """positions where the (possibly symbolic) 1-d boolean mask holds: forks"""
    m = as_sarr(m)
    return [i for i, x in enumerate(m.a) if Ctx.cur.branch(zb(as_b(x)))]


def lab(key):
    """normalise a label key for real pandas"""
    if isinstance(key, SSeries):
        if key.dtype.kind == "b": return np.array([bool(x) for x in key.arr.a])
        return [clabel(x) for x in key.arr.a]
    if isinstance(key, (SArr, FillArr)):
        k = as_sarr(key)
        if k.dt.kind == "b": return np.array([bool(mk_bool(as_b(x))) for x in k.a], dtype=bool)
        return [clabel(x) for x in k.a]
    if isinstance(key, list): return [clabel(x) for x in key]
    if isinstance(key, slice): return slice(clabel(key.start), clabel(key.stop), clabel(key.step))
    return clabel(key)


def to_col(v, n=None):
    """anything 1-d (or scalar with n) -> SArr sharing memory when it is one"""
    if isinstance(v, FillArr): v = v.materialise()
    if isinstance(v, SArr):
        if v.ndim == 0: v = v.a.item()
        else:
            if v.ndim == 2 and v.shape[1] == 1: v = SArr(v.a[:, 0], v.dt)
            if v.dt.kind in "US": return SArr(v.a, OBJ)
            return v
    if isinstance(v, SSeries): return v.arr
    if hasattr(v, "__iter__") and not isinstance(v, (str, Sym, dict)):
        if not isinstance(v, (list, tuple, range, np.ndarray)): v = list(v)
        if isinstance(v, pd.Index): v = v.values
        if isinstance(v, (list, tuple)) and not len(v): return SArr(objarr([]), OBJ)
        try:
            a = array(v) if not _mixed(v) else SArr(objarr(v), infer_obj(v, OBJ))
        except ValueError:
            return SArr(objarr(list(v)), OBJ)
        if a.dt.kind in "US": a = SArr(objarr([x for x in v]), OBJ)
        if a.ndim != 1: raise ValueError("Per-column arrays must each be 1-dimensional")
        if a.dt.kind == "O": 
            dt = infer_obj(a.a, OBJ)
            if dt.kind != "O" and not (isinstance(v, np.ndarray)):
                return SArr(objarr([cast(x, dt) for x in a.a]), dt)
        return a
    n = 1 if n is None else n
    v = snp.scal(v) if isinstance(v, SArr) else v
    dt = OBJ if isinstance(v, str) or v is None else snp.infer_dtype([v])
    if dt.kind in "US": dt = OBJ
    v = conc(v) if not isinstance(v, Sym) else v
    return SArr(objarr([v] * n), dt)


def _mixed(v):
    return any(isinstance(x, str) for x in v) or any(x is None for x in v) or any(isinstance(x, SymCase) for x in v)


def np_isin_cells(arr, vals):
    return objarr([mk_bool(b_or(*[as_b(pd_el("eq", x, w, OBJ)) for w in vals])) for x in arr.a])


def do_replace(arr, old, new):
    if isinstance(old, (list, tuple, dict, SArr)) or hasattr(old, "match"):
        raise Unmodelled("replace form")
    null_old = old is None or (isinstance(old, float) and old != old)
    if not null_old and not isinstance(old, str) and arr.dt.kind == "b" and not isinstance(old, (bool, np.bool_)):
        return SArr(arr.a.copy(), arr.dt)
    if isinstance(old, str) and arr.dt.kind not in "OUS":
        return SArr(arr.a.copy(), arr.dt)
    out = []
    hit = False
    new = conc(new)
    for x in arr.a:
        cs = []
        for g, v in leaves(x):
            m = nul(v) if null_old else as_b(pd_el("eq", v, old, OBJ))
            m = sim(m)
            if m is not False: hit = True
            cs.append((b_and(g, m), new))
            cs.append((b_and(g, b_not(m)), v))
        out.append(mk_case(cs))
    if not hit: return SArr(arr.a.copy(), arr.dt)
    if arr.dt.kind == "O":
        dt = infer_obj(out, OBJ)
    elif isinstance(new, str) or new is None: dt = OBJ
    else:
        k = num_kind(new)
        if k == 2 and new == new and float(new).is_integer() and arr.dt.kind in "ui": dt = arr.dt
        else: dt = np.result_type(arr.dt, F64) if k == 2 else arr.dt
    return SArr(objarr([cast(x, dt) if dt.kind != "O" else x for x in out]), dt)


def agg(arr, name, skipna=True, ddof=1, min_count=0):
    """column reduction -> raw value"""
    xs = list(arr.a)
    if arr.dt.kind == "O" and any(isinstance(v, str) for x in xs for _, v in leaves(x)):
        if name == "count": return snp.count_bits([b_not(nul(x)) for x in xs])
        if name in ("max", "min"):
            xs = [snp.conc_scalar(x) for x in xs]
            xs = [x for x in xs if isinstance(x, str)]
            return (max if name == "max" else min)(xs) if xs else math.nan
        if name == "sum":
            xs = [snp.conc_scalar(x) for x in xs]
            xs = [x for x in xs if not (isinstance(x, float) and x != x)]
            r = 0
            for i, x in enumerate(xs): r = x if i == 0 else r + x
            return r
        raise TypeError("Could not convert to numeric")
    if arr.dt.kind == "O":
        xs = [merge_float(x) if isinstance(x, SymCase) else x for x in xs]
    nn = snp.drop_nan(xs)
    if name == "count": return snp.count_bits(nn)
    if name in ("any", "all"):
        f = b_or if name == "any" else b_and
        return mk_bool(f(*[as_b(x) for x in xs])) if xs else (name == "all")
    allok = all(b is True for b in nn)
    if not skipna and not allok:
        xs = [cast(x, F64) for x in xs]
        return red1(xs, name, F64, ddof)[0]
    if name == "sum":
        if arr.dt.kind in "bui": return snp.sum_list(xs, arr.dt)
        return snp.masked_sum(xs, nn)
    if name == "prod":
        r = 1.0 if arr.dt.kind == "f" else 1
        for x, b in zip(xs, nn): r = scalar_op("mul", r, ite(b, x, 1.0), F64 if arr.dt.kind == "f" else I64)
        return r
    if not xs: return math.nan
    if name in ("max", "min"):
        if allok: return red1(xs, name, arr.dt)[0]
        r, ok = None, False
        for x, b in zip(xs, nn):
            if b is False: continue
            if isinstance(x, SymFloat): x = SymFloat(x.r, False, x.pinf, x.ninf)
            if r is None: r, ok = x, b
            else:
                t = as_b(scalar_op("gt" if name == "max" else "lt", x, r))
                r = ite(zb(b_and(b, b_or(b_not(ok), t))), x, r)
                ok = b_or(ok, b)
        return math.nan if r is None else ite(ok, r, math.nan)
    if name in ("mean", "std", "var"):
        if name == "mean": return snp.nanred(xs, "nanmean")
        return snp.nanred(xs, "nan" + name, ddof)
    if name == "median":
        keep = [x for x, b in zip(xs, nn) if Ctx.cur.branch(zb(b))]
        v = snp.median(SArr(objarr(keep), F64))
        return v
    raise Unmodelled("agg " + name)


def agg_dt(name, dt, v):
    if name == "count": return I64
    if name in ("any", "all"): return BOOL
    if name in ("mean", "std", "var", "median"): return F64
    if isinstance(v, str): return OBJ
    if name == "sum":
        return F64 if dt.kind in "fO" else (np.dtype("uint64") if dt.kind == "u" else I64)
    if isinstance(v, float) and dt.kind not in "fO": return F64
    return dt if dt.kind != "O" else F64


class Base:
    _s_container_ = True
    _s_pandas_ = True
    __array_ufunc__ = None
    __array_priority__ = 1e10

    def _fallback(self, name):
        real = getattr(self._real_cls, name)
        if callable(real) and not isinstance(real, property):
            def f(*a, **k):
                return snp.fallback("pandas." + name, lambda s, *aa, **kk: getattr(s, name)(*aa, **kk), self, *a, **k)
            return f
        return snp.fallback("pandas." + name, lambda s: getattr(s, name), self)

    def __getattr__(self, name):
        if name.startswith("_") : raise AttributeError(name)
        if hasattr(self._real_cls, name): return self._fallback(name)
        d = self._label_attr(name)
        if d is not None: return d
        raise AttributeError("'%s' object has no attribute '%s'" % (self._real_cls.__name__, name))

    def __bool__(self):
        raise ValueError("The truth value of a %s is ambiguous. Use a.empty, a.bool(), a.item(), a.any() or a.all()." % self._real_cls.__name__)

    def __hash__(self): raise TypeError("unhashable type: '%s'" % self._real_cls.__name__)
    def __deepcopy__(self, memo): return self.copy()
    def __copy__(self): return self.copy(deep=False)
    def __neg__(self): return self._elementwise(lambda s: -s)
    def __pos__(self): return self.copy()
    def __abs__(self): return self.abs()
    def __invert__(self): return self._elementwise(lambda s: ~s if s.dt.kind != "O" else unary(s, lambda x: mk_bool(b_not(as_b(x))), OBJ))
    def abs(self): return self._elementwise(snp.absolute)
    def isna(self): return self._elementwise(lambda s: unary(s, lambda x: mk_bool(nul(x)), BOOL))
    isnull = isna
    def notna(self): return ~self.isna()
    notnull = notna
    def replace(self, to_replace=None, value=None, inplace=False, **k):
        if k: return self._fallback("replace")(to_replace, value, inplace=inplace, **k)
        if isinstance(to_replace, dict):
            if isinstance(self, SDataFrame) or len(to_replace) != 1: return self._fallback("replace")(to_replace)
            (to_replace, value), = to_replace.items()
        if isinstance(to_replace, (list, tuple)):
            r = self
            for t in to_replace: r = r.replace(t, value)
        else:
            if isinstance(to_replace, Sym): to_replace = conc_or(to_replace)
            r = self._elementwise(lambda s: do_replace(s, to_replace, value))
        if inplace:
            self._assign(r); return None
        return r
    def fillna(self, value=None, inplace=False, **k):
        if value is None or isinstance(value, (dict, Base)): return self._fallback("fillna")(value, **k)
        r = self._elementwise(lambda s: do_fillna(s, value))
        if inplace:
            self._assign(r); return None
        return r
    def round(self, *a): return self._fallback("round")(*a)
    def clip(self, lower=None, upper=None, **k):
        if k.get("axis") is not None or isinstance(lower, Base) or isinstance(upper, Base): return self._fallback("clip")(lower, upper, **k)
        def one(x):
            if lower is not None: x = ite(as_b(scalar_op("lt", x, lower)), lower, x)
            if upper is not None: x = ite(as_b(scalar_op("gt", x, upper)), upper, x)
            return x
        return self._elementwise(lambda s: unary(s, one, s.dt if not any(isinstance(b, float) for b in (lower, upper)) else F64))
    def combine_first(self, other):
        if not isinstance(self, SSeries): return self._fallback("combine_first")(other)
        idx = self._index.union(other._index)
        a, b = self.reindex(idx), other.reindex(idx)
        return a.where(a.notna(), b)
    def pipe(self, f, *a, **k): return f(self, *a, **k)
    def where(self, cond, other=math.nan, **k): return self._where(cond, other, False)
    def mask(self, cond, other=math.nan, **k): return self._where(cond, other, True)
    def _s_real(self): return self.to_real()


def conc_or(x):
    return snp.conc_scalar(x)


def do_fillna(s, value):
    if s.dt.kind in "bui": return s.copy()
    out = []
    value = conc(value)
    for x in s.a:
        out.append(mk_case([c for g, v in leaves(x) for c in ((b_and(g, nul(v)), value), (b_and(g, b_not(nul(v))), v))]))
    if s.dt.kind == "f" and not isinstance(value, str): dt = F64
    else: dt = infer_obj(out, OBJ) if s.dt.kind == "O" else OBJ
    return SArr(objarr([cast(x, dt) if dt.kind != "O" else x for x in out]), dt)


# =================================================================================================== Series
class SSeries(Base):
    _real_cls = pd.Series

    def __init__(self, data=None, index=None, dtype=None, name=None, copy=False, **k):
        if index is not None and not isinstance(index, pd.Index):
            index = pd.Index(lab(index) if not isinstance(index, (range, pd.Index)) else index)
        if isinstance(data, SDataFrame): raise ValueError("Data must be 1-dimensional")
        if isinstance(data, dict):
            idx = pd.Index([clabel(x) for x in data.keys()]) if len(data) else pd.Index([], dtype=object)
            arr = to_col(list(data.values())) if len(data) else SArr(objarr([]), F64 if dtype is None else np.dtype(dtype))
            if index is not None:
                arr = take(arr, idx.get_indexer(index)); idx = index
            index = idx
        elif isinstance(data, SSeries):
            if index is None or index.equals(data.index): index, arr = data.index, data.arr
            else: arr = take(data.arr, data.index.get_indexer(index))
            if name is None: name = data._name
        elif data is None:
            n = 0 if index is None else len(index)
            dt = np.dtype(dtype) if dtype is not None else (OBJ if n == 0 else F64)
            arr = SArr(objarr([math.nan] * n), F64 if n else dt)
            if index is None: index = pd.RangeIndex(0) if False else pd.Index([], dtype=object)
        else:
            if isinstance(data, pd.Index) and name is None: name = data.name
            arr = to_col(data, None if index is None else len(index))
            if index is None: index = pd.RangeIndex(len(arr))
        if len(arr) != len(index):
            raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(arr), len(index)))
        if dtype is not None:
            dt = np.dtype(dtype)
            if dt.kind in "US": dt = OBJ; arr = SArr(objarr([x if isinstance(x, str) else str(x) for x in arr.a]), OBJ)
            elif arr.dt != dt: arr = arr.astype(dt)
        if copy: arr = arr.copy()
        self._set(arr, index, name)

    def _set(self, arr, index, name=None):
        object.__setattr__(self, "arr", arr)
        object.__setattr__(self, "_index", index)
        object.__setattr__(self, "_name", name)

    @classmethod
    def _make(cls, arr, index, name=None):
        s = object.__new__(SSeries)
        s._set(arr, index, name)
        return s

    @classmethod
    def from_real(cls, s):
        dt = s.dtype if isinstance(s.dtype, np.dtype) else OBJ
        return cls._make(SArr(objarr([conc(x) for x in s.values]), dt), s.index, s.name)

    def to_real(self):
        return pd.Series(snp.conc_arr(self.arr), index=self._index, name=self._name,
                         dtype=object if self.arr.dt.kind == "O" else self.arr.dt)

    def _assign(self, r): self._set(r.arr, r._index, self._name)
    def _elementwise(self, f): return SSeries._make(f(self.arr), self._index, self._name)
    def to_sarr(self): return self.arr
    def _label_attr(self, name):
        if name in self._index: return self[name]

    # ---- structure
    index = property(lambda self: self._index, lambda self, v: self._set_index(v))
    name = property(lambda self: self._name, lambda self, v: object.__setattr__(self, "_name", v))

    def _set_index(self, v):
        v = v if isinstance(v, pd.Index) else pd.Index(lab(v))
        if len(v) != len(self._index): raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(self._index), len(v)))
        object.__setattr__(self, "_index", v)

    values = property(lambda self: self.arr)
    array = values
    dtype = property(lambda self: self.arr.dt)
    dtypes = dtype
    shape = property(lambda self: (len(self.arr),))
    ndim = 1
    size = property(lambda self: len(self.arr))
    empty = property(lambda self: len(self.arr) == 0)
    axes = property(lambda self: [self._index])
    T = property(lambda self: self)
    def __len__(self): return len(self.arr)
    def __iter__(self): return iter([elem(self.arr.dt, x) if isinstance(x, Sym) else conc(x) for x in self.arr.a])
    def __contains__(self, k): return clabel(k) in self._index
    def to_numpy(self, dtype=None, **k): return self.arr if dtype is None else self.arr.astype(dtype)
    def tolist(self): return self.arr.tolist()
    to_list = tolist
    def items(self): return zip(list(self._index), list(self))
    iteritems = items
    def keys(self): return self._index
    def to_dict(self): return dict(self.items())
    def copy(self, deep=True): return SSeries._make(self.arr.copy() if deep else self.arr, self._index, self._name)
    def to_frame(self, name=None): return SDataFrame._make([self.arr], self._index, pd.Index([name if name is not None else (0 if self._name is None else self._name)]))
    def rename(self, name=None, **k):
        if callable(name) or isinstance(name, dict): return self._fallback("rename")(name)
        return SSeries._make(self.arr.copy(), self._index, name)
    def astype(self, dt, **k):
        if dt in (str, "str"): return SSeries._make(SArr(objarr([x if isinstance(x, str) else str(x) for x in self.arr.a]), OBJ), self._index, self._name)
        dt = np.dtype(dt)
        if dt.kind in "ui" and self.arr.dt.kind in "fO":
            for x in self.arr.a:
                if Ctx.cur.branch(zb(nul(x))): raise ValueError("Cannot convert non-finite values (NA or inf) to integer")
        return SSeries._make(self.arr.astype(dt), self._index, self._name)
    def squeeze(self, axis=None): return self[self._index[0]] if len(self) == 1 else self
    def item(self):
        if len(self) != 1: raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.arr.item()
    def __float__(self): return float(self.item())
    def __int__(self): return int(self.item())
    def reset_index(self, drop=False, **k):
        if drop: return SSeries._make(self.arr.copy(), pd.RangeIndex(len(self)), self._name)
        return self._fallback("reset_index")(**k)
    def set_axis(self, labels, **k):
        r = self.copy(); r._set_index(labels); return r
    def head(self, n=5): return self.iloc[:n]
    def tail(self, n=5): return self.iloc[-n:] if n else self.iloc[:0]
    def __repr__(self): return "SSeries(%s, %s)" % (list(self._index), list(self.arr.a))
    __str__ = __repr__

    # ---- selection
    def _el(self, i):
        return elem(self.arr.dt, self.arr.a[i]) if self.arr.dt.kind != "O" else self.arr.a[i]

    def _pos(self, p):
        if isinstance(p, pd.Series): return SSeries._make(SArr(self.arr.a[p.values], self.arr.dt), p.index, self._name)
        return self._el(int(p))

    def __getitem__(self, key):
        if callable(key) and not isinstance(key, Base): key = key(self)
        m = self._mask(key)
        if m is not None: return self._sel(m)
        if isinstance(key, slice):
            p = rpos(self._index)[lab(key)]
            return SSeries._make(SArr(self.arr.a[p.values[0]:p.values[-1] + 1] if len(p) and key.step in (None, 1) else self.arr.a[p.values], self.arr.dt), p.index, self._name)
        return self._pos(rpos(self._index)[lab(key)])

    def _mask(self, key):
        """boolean key -> SArr mask"""
        if isinstance(key, SSeries) and key.arr.dt.kind in "bO" and (key.arr.dt.kind == "b" or all(isinstance(x, (bool, SymBool)) for x in key.arr.a) and len(key)):
            if not key._index.equals(self._index):
                key = key.reindex(self._index)
                if any(isinstance(x, float) for x in key.arr.a): raise pd.core.indexing.IndexingError("Unalignable boolean Series provided as indexer")
            return key.arr
        if isinstance(key, SArr) and key.dt.kind == "b" and key.ndim == 1: 
            if len(key) != len(self): raise IndexError("Boolean index has wrong length: %d instead of %d" % (len(key), len(self)))
            return key
        if isinstance(key, np.ndarray) and key.dtype == bool or (isinstance(key, list) and key and all(isinstance(x, (bool, np.bool_, SymBool)) for x in key)):
            return as_sarr(key)

    def _sel(self, m):
        ix = mask_positions(m)
        return SSeries._make(SArr(self.arr.a[ix] if ix else objarr([]), self.arr.dt), self._index[ix], self._name)

    def _put(self, pos, value):
        pos = [int(p) for p in pos]
        vals = None
        if isinstance(value, SSeries):
            vals = list(value.arr.a); vdt = value.arr.dt
        elif isinstance(value, (list, tuple, SArr, np.ndarray, pd.Index, FillArr)):
            c = to_col(value); vals = list(c.a); vdt = c.dt
        else:
            vals = [conc(value)] * len(pos); vdt = to_col(value).dt
        if len(vals) != len(pos): raise ValueError("cannot set using a list-like indexer with a different length than the value")
        self._widen(vdt, vals)
        for p, v in zip(pos, vals): self.arr.a[p] = snp.store(self.arr.dt, v)

    def _widen(self, vdt, vals=()):
        d = self.arr.dt
        if d.kind == "O" or d == vdt: return
        if d.kind == "f" and vdt.kind in "uifb" and vdt.kind != "b": return
        if d.kind in "ui" and vdt.kind in "ui": return
        if d.kind in "ui" and vdt.kind == "f" and all(not isinstance(v, Sym) and v == v and float(v).is_integer() for v in vals): return
        nd = F64 if d.kind in "uif" and vdt.kind in "uif" else OBJ
        self._rebind(SArr(objarr([cast(x, nd) if nd.kind == "f" else x for x in self.arr.a]), nd))

    def _rebind(self, arr):
        object.__setattr__(self, "arr", arr)

    def __setitem__(self, key, value):
        m = self._mask(key)
        if m is not None: return self._set_mask(m, value)
        if isinstance(key, slice):
            return self._put(rpos(self._index)[lab(key)].values, value)
        k = lab(key)
        try:
            p = rpos(self._index)[k]
        except KeyError:
            if isinstance(k, list): raise
            idx = self._index.append(pd.Index([k]))
            c = to_col(value)
            arr = SArr(objarr(list(self.arr.a) + [c.a[0]]), OBJ if (self.arr.dt.kind in "OU") != (c.dt.kind in "OU") or self.arr.dt.kind == "O" else np.result_type(self.arr.dt, c.dt))
            self._set(arr, idx, self._name)
            return
        self._put(p.values if isinstance(p, pd.Series) else [p], value)

    def _set_mask(self, m, value):
        if isinstance(value, (list, tuple, SArr, np.ndarray, pd.Index, SSeries)) and not (hasattr(value, "__len__") and len(value) == len(self) and isinstance(value, SSeries)):
            ix = mask_positions(m)
            return self._put(ix, value)
        if isinstance(value, SSeries):
            v = value.reindex(self._index); vals, vdt = list(v.arr.a), v.arr.dt
        else:
            c = to_col(value, len(self)); vals, vdt = list(c.a), c.dt
        if all(as_b(x) is False for x in m.a): return
        self._widen(vdt, vals)
        for i in range(len(self)):
            self.arr.a[i] = ite(as_b(m.a[i]), snp.store(self.arr.dt, vals[i]), self.arr.a[i])

    loc = property(lambda self: SLoc(self, False))
    iloc = property(lambda self: SLoc(self, True))
    at = loc
    iat = iloc
    def get(self, k, default=None):
        try: return self[k]
        except (KeyError, ValueError, IndexError): return default
    def xs(self, k): return self[k]

    def reindex(self, index=None, fill_value=math.nan, **k):
        if k: return self._fallback("reindex")(index, **k)
        index = index if isinstance(index, pd.Index) else pd.Index(lab(index))
        if index.equals(self._index): return self.copy()
        if not self._index.is_unique: raise ValueError("cannot reindex on an axis with duplicate labels")
        r = SSeries._make(take(self.arr, self._index.get_indexer(index)), index, self._name)
        if not (isinstance(fill_value, float) and fill_value != fill_value):
            r = SSeries._make(to_col([fill_value if p < 0 else self.arr.a[p] for p in self._index.get_indexer(index)]), index, self._name)
        return r

    def drop(self, labels=None, index=None, **k):
        p = rpos(self._index).drop(lab(labels if labels is not None else index))
        return SSeries._make(SArr(self.arr.a[p.values], self.arr.dt), p.index, self._name)

    def dropna(self, **k):
        ix = [i for i, x in enumerate(self.arr.a) if Ctx.cur.branch(zb(b_not(nul(x))))]
        return SSeries._make(SArr(self.arr.a[ix] if ix else objarr([]), self.arr.dt), self._index[ix], self._name)

    def sort_index(self, ascending=True, **k):
        p = rpos(self._index).sort_index(ascending=ascending, **k)
        return SSeries._make(SArr(self.arr.a[p.values], self.arr.dt), p.index, self._name)

    def sort_values(self, ascending=True, **k):
        o = sorted_positions(self.arr, ascending)
        return SSeries._make(SArr(self.arr.a[o], self.arr.dt), self._index[o], self._name)

    def argsort(self, *a, **k): return SSeries._make(snp.argsort(self.arr), self._index, self._name)

    def value_counts(self, **k):
        if k: return self._fallback("value_counts")(**k)
        labels = []       # [label value, count term list]
        simple = all(not isinstance(v, Sym) for x in self.arr.a for _, v in leaves(x))
        if not simple:
            cells = [snp.conc_scalar(x) for x in self.arr.a]
        else:
            cells = list(self.arr.a)
        for x in cells:
            for g, v in leaves(x):
                if nul(v) is True: continue
                for e in labels:
                    if e[0] == v and isinstance(e[0], str) == isinstance(v, str):
                        e[1].append(g); break
                else: labels.append([v, [g]])
        labels = [(v, snp.count_bits([g if not isinstance(g, Sym) else g for g in gs])) for v, gs in labels]
        labels = [(v, c) for v, c in labels if Ctx.cur.branch(zb(as_b(c) if isinstance(c, Sym) else c != 0))]
        o = sorted_positions(SArr(objarr([c for _, c in labels]), I64), False)
        labels = [labels[i] for i in o]
        idx = pd.Index([v for v, _ in labels], dtype=object if self.arr.dt.kind == "O" and labels and isinstance(labels[0][0], str) else None) if labels else pd.Index([], dtype=self.arr.dt)
        return SSeries._make(SArr(objarr([c for _, c in labels]), I64), idx, self._name)

    def unique(self): return snp.unique_order(self.arr)
    def nunique(self, dropna=True): return len([1 for x in self.dropna().unique()])
    def between(self, left, right, inclusive="both"):
        inclusive = {True: "both", False: "neither"}.get(inclusive, inclusive)
        lo = self >= left if inclusive in ("both", "left") else self > left
        hi = self <= right if inclusive in ("both", "right") else self < right
        return lo & hi
    def duplicated(self, *a, **k): return self._fallback("duplicated")(*a, **k)
    def isin(self, vals):
        vals = list(vals)
        return SSeries._make(SArr(np_isin_cells(self.arr, vals), BOOL), self._index, self._name)

    def apply(self, f, *a, **k):
        k.pop("convert_dtype", None); args = k.pop("args", ())
        if not len(self): return self._fallback("apply")(f) if False else SSeries._make(SArr(objarr([]), OBJ if self.arr.dt.kind == "O" else self.arr.dt), self._index, self._name)
        if isinstance(f, str): return getattr(self, f)(*a, **k)
        res = [f(x, *args, **k) for x in self]
        if isinstance(res[0], SSeries):
            return SDataFrame({i: r for i, r in enumerate(res)}).T.set_axis(self._index, axis=0)
        return SSeries._make(to_col(res), self._index, self._name)
    def map(self, f, *a, **k):
        if isinstance(f, dict): return self.apply(lambda x: f.get(snp.conc_scalar(x), math.nan))
        return self.apply(f)
    def transform(self, f): return self.apply(f)

    def _where(self, cond, other, inv):
        if callable(cond) and not isinstance(cond, Base): cond = cond(self)
        if isinstance(cond, SSeries) and not cond._index.equals(self._index): cond = cond.reindex(self._index, fill_value=inv)
        c = as_sarr(cond)
        o = other.reindex(self._index).arr if isinstance(other, SSeries) else to_col(other, len(self))
        if len(o) == 1 and len(self) != 1: o = SArr(objarr([o.a[0]] * len(self)), o.dt)
        out = [ite(as_b(g), b, a) if inv else ite(as_b(g), a, b) for g, a, b in zip(c.a, self.arr.a, o.a)]
        dt = self.arr.dt if self.arr.dt == o.dt else (F64 if self.arr.dt.kind in "uif" and o.dt.kind in "uif" else OBJ)
        if all((as_b(g) is (not inv)) for g in c.a): dt, out = self.arr.dt, list(self.arr.a)
        return SSeries._make(SArr(objarr([cast(x, dt) if dt.kind != "O" else x for x in out]), dt), self._index, self._name)

    def bfill(self, **k): return self._fill(range(len(self) - 1, -1, -1))
    def ffill(self, **k): return self._fill(range(len(self)))
    backfill, pad = bfill, ffill
    def _fill(self, order):
        out = list(self.arr.a)
        prev = None
        for i in order:
            if prev is not None: out[i] = mk_case([c for g, v in leaves(out[i]) for c in ((b_and(g, nul(v)), prev), (b_and(g, b_not(nul(v))), v))])
            prev = out[i]
        return SSeries._make(SArr(objarr(out), self.arr.dt), self._index, self._name)

    def cumsum(self, **k): return self._elementwise(snp.cumsum)
    def diff(self, periods=1): return self._fallback("diff")(periods)
    def shift(self, n=1):
        n = int(n)
        L = len(self)
        return SSeries._make(take(self.arr, [i - n if 0 <= i - n < L else -1 for i in range(L)]), self._index, self._name)
    def dot(self, o): return (self * o).sum()
    def idxmax(self, **k): return self._index[int(self._argext("gt"))]
    def idxmin(self, **k): return self._index[int(self._argext("lt"))]
    def argmax(self, **k): return self._argext("gt")
    def argmin(self, **k): return self._argext("lt")
    def _argext(self, op):
        bi = None
        for i, x in enumerate(self.arr.a):
            if Ctx.cur.branch(zb(nul(x))): continue
            if bi is None or Ctx.cur.branch(zb(as_b(scalar_op(op, x, self.arr.a[bi])))): bi = i
        if bi is None: raise ValueError("attempt to get argmax of an empty sequence")
        return bi
    def mode(self, dropna=True):
        return SSeries._make(to_col(mode_cells(list(self.arr.a))), None) if False else self._mode()
    def _mode(self):
        vals = mode_cells(list(self.arr.a))
        arr = to_col(vals) if vals else SArr(objarr([]), self.arr.dt)
        return SSeries._make(arr, pd.RangeIndex(len(vals)), self._name)
    def equals(self, o): return isinstance(o, SSeries) and self._index.equals(o._index) and bool(mk_bool(b_and(*[b_or(as_b(pd_el("eq", x, y, OBJ)), b_and(nul(x), nul(y))) for x, y in zip(self.arr.a, o.arr.a)])))

    def append(self, o, **k): return concat([self] + (o if isinstance(o, list) else [o]))

    # ---- arithmetic
    def _align(self, o):
        if self._index.equals(o._index): return self.arr, o.arr, self._index
        a, b = rpos(self._index).align(rpos(o._index))
        pa = [-1 if x != x else x for x in a.values]
        pb = [-1 if x != x else x for x in b.values]
        return take(self.arr, pa), take(o.arr, pb), a.index

    def _op(self, op, o, rev=False, fill_value=None):
        if isinstance(o, SDataFrame): return NotImplemented
        name = self._name
        if isinstance(o, SSeries):
            if op in CMP and not self._index.equals(o._index):
                raise ValueError("Can only compare identically-labeled Series objects")
            a, b, idx = self._align(o)
            if fill_value is not None:
                a, b = do_fillna(a, fill_value), do_fillna(b, fill_value)
            name = self._name if self._name == o._name else None
        else:
            idx = self._index
            a = self.arr
            if isinstance(o, FillArr): o = o.materialise()
            if isinstance(o, pd.Index): o = to_col(o.values)
            if isinstance(o, (list, tuple, np.ndarray)): o = to_col(o)
            if isinstance(o, SArr):
                if o.ndim == 0: o = o.a.item()
                elif len(o) != len(a):
                    if op in CMP: raise ValueError("('Lengths must match to compare', (%d,), (%d,))" % (len(a), len(o)))
                    if len(o) != 1: raise ValueError("operands could not be broadcast together with shapes (%d,) (%d,) " % (len(a), len(o)))
            b = o
        r = pd_binary(op, b, a) if rev else pd_binary(op, a, b)
        return SSeries._make(r, idx, name)

    # ---- reductions
    def _agg(self, name, skipna=True, ddof=1, axis=None, numeric_only=None, **k):
        v = agg(self.arr, name, skipna, ddof)
        dt = agg_dt(name, self.arr.dt, v)
        return elem(dt, v) if dt.kind != "O" else v


def settle(x):
    """one of the values of a case split (forks)"""
    if isinstance(x, SymCase):
        for g, v in x.cases:
            if Ctx.cur.branch(zb(g)): return settle(v)
    return x


def mode_cells(cells):
    cells = [settle(c) for c in cells]
    cells = [c for c in cells if not Ctx.cur.branch(zb(nul(c)))]
    groups = []
    for c in cells:
        for g in groups:
            if bool(mk_bool(as_b(pd_el("eq", c, g[0], OBJ)))):
                g[1] += 1; break
        else: groups.append([c, 1])
    if not groups: return []
    m = max(g[1] for g in groups)
    vals = [g[0] for g in groups if g[1] == m]
    if len(vals) > 1:
        o = sorted_positions(SArr(objarr(vals), OBJ), True)
        vals = [vals[i] for i in o]
    return vals


def sorted_positions(arr, ascending=True):
    import functools
    ok = [i for i in range(len(arr)) if not Ctx.cur.branch(zb(nul(arr.a[i])))]
    na = [i for i in range(len(arr)) if i not in ok]
    if any(isinstance(x, SymCase) for x in arr.a): arr = SArr(objarr([settle(x) for x in arr.a]), arr.dt)
    def c(i, j):
        if Ctx.cur.branch(zb(as_b(scalar_op("lt", arr.a[i], arr.a[j])))): return -1
        if Ctx.cur.branch(zb(as_b(scalar_op("lt", arr.a[j], arr.a[i])))): return 1
        return 0
    if not ascending:
        ok = sorted(ok, key=functools.cmp_to_key(lambda i, j: c(j, i)))
    else:
        ok = sorted(ok, key=functools.cmp_to_key(c))
    return ok + na


# =================================================================================================== DataFrame
class SDataFrame(Base):
    _real_cls = pd.DataFrame

    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        if index is not None and not isinstance(index, pd.Index): index = pd.Index(lab(index))
        if columns is not None and not isinstance(columns, pd.Index): columns = pd.Index(lab(columns))
        if isinstance(data, FillArr): data = data.materialise()
        if isinstance(data, SDataFrame):
            r = data if index is None and columns is None else data.reindex(index=index, columns=columns)
            self._set(r.cols, r._index, r._columns, r.block); return
        if isinstance(data, SSeries):
            if columns is None: columns = pd.Index([0 if data._name is None else data._name])
            s = data if index is None else data.reindex(index)
            self._set([s.arr], s._index, columns); return
        if data is None:
            index = index if index is not None else pd.Index([], dtype=object)
            columns = columns if columns is not None else pd.Index([], dtype=object)
            self._set([SArr(objarr([math.nan] * len(index)), OBJ) for _ in columns], index, columns)
        elif isinstance(data, dict):
            self._from_dict({clabel(k): v for k, v in data.items()}, index, columns)
        else:
            if isinstance(data, SArr) or isinstance(data, np.ndarray):
                d = as_sarr(data)
                if d.ndim == 1: d = SArr(d.a.reshape(-1, 1), d.dt)
                if d.ndim == 0: raise ValueError("DataFrame constructor not properly called!")
                if d.ndim > 2: raise ValueError("Must pass 2-d input. shape=%s" % (d.shape,))
            else:
                data = list(data)
                if len(data) and isinstance(data[0], dict):
                    return self.__init__(pd.DataFrame(data), index, columns)
                if len(data) and isinstance(data[0], SSeries):
                    t = SDataFrame({i: s for i, s in enumerate(data)}).T
                    if index is not None: t._index = index
                    self._set(t.cols, t._index, t._columns); 
                    if columns is not None:
                        r = t.reindex(columns=columns); self._set(r.cols, r._index, r._columns)
                    return
                rows = [list(r) if isinstance(r, (SArr, list, tuple, np.ndarray, SSeries, FillArr)) else [r] for r in data]
                n = max([len(r) for r in rows], default=0)
                rows = [r + [None] * (n - len(r)) for r in rows]
                cols = [to_col([r[j] for r in rows]) for j in range(n)] if rows else [SArr(objarr([]), OBJ) for _ in (columns if columns is not None else [])]
                if columns is not None and len(columns) != len(cols): raise ValueError("%d columns passed, passed data had %d columns" % (len(columns), len(cols)))
                if index is not None and len(index) != len(rows): raise ValueError("Shape of passed values is (%d, %d), indices imply (%d, %d)" % (len(rows), n, len(index), n))
                self._set(cols, index if index is not None else pd.RangeIndex(len(rows)), columns if columns is not None else pd.RangeIndex(len(cols)))
                self._blockify()
                self._cast(dtype)
                return
            if index is not None and len(index) != d.shape[0] or columns is not None and len(columns) != d.shape[1]:
                raise ValueError("Shape of passed values is %s, indices imply (%s, %s)" % (d.shape, len(index) if index is not None else d.shape[0], len(columns) if columns is not None else d.shape[1]))
            if d.dt.kind in "US": d = SArr(d.a, OBJ)
            if copy: d = d.copy()
            self._set([SArr(d.a[:, j], d.dt) for j in range(d.shape[1])], index if index is not None else pd.RangeIndex(d.shape[0]),
                      columns if columns is not None else pd.RangeIndex(d.shape[1]), d)
        self._cast(dtype)

    def _cast(self, dtype):
        if dtype is not None and self.cols:
            r = self.astype(dtype); self._set(r.cols, r._index, r._columns, r.block)

    def _from_dict(self, data, index, columns):
        if columns is not None:
            data = {k: data.get(k, math.nan) for k in columns}
        arrs, ref = {}, {}
        n = None
        for i, (k, v) in enumerate(data.items()):
            if isinstance(v, dict): v = SSeries(v)
            if isinstance(v, SDataFrame): raise ValueError("If using all scalar values")
            if isinstance(v, SSeries): ref[i] = rpos(v._index); arrs[i] = v.arr
            elif isinstance(v, (str, Sym)) or not hasattr(v, "__iter__"):
                ref[i] = None; arrs[i] = v
            else:
                c = to_col(v); arrs[i] = c; ref[i] = list(range(len(c)))
        if data:
            scal_only = all(r is None for r in ref.values())
            if scal_only and index is None: raise ValueError("If using all scalar values, you must pass an index")
            real = pd.DataFrame({i: (0 if r is None else r) for i, r in ref.items()}, index=index)
            idx = real.index
            cols = []
            for i in ref:
                if ref[i] is None: cols.append(to_col(arrs[i], len(idx)))
                else:
                    c = take(arrs[i], [-1 if x != x else x for x in real[i].values])
                    cols.append(c.copy())
            keys = list(data.keys())
            cidx = columns if columns is not None else pd.Index(keys)
        else:
            idx = index if index is not None else pd.RangeIndex(0) if False else (index if index is not None else pd.Index([], dtype=object))
            cols, cidx = [], pd.Index([], dtype=object)
        self._set(cols, idx, cidx)
        self._blockify()

    def _set(self, cols, index, columns, block=None):
        o = object.__setattr__
        o(self, "cols", cols); o(self, "_index", index); o(self, "_columns", columns); o(self, "block", block)

    def _blockify(self):
        """homogeneous frames live in one 2-d block, so .values is a view as in pandas"""
        if self.cols and all(c.dt == self.cols[0].dt for c in self.cols):
            b = np.empty((len(self._index), len(self.cols)), dtype=object)
            for j, c in enumerate(self.cols): b[:, j] = c.a
            blk = SArr(b, self.cols[0].dt)
            object.__setattr__(self, "block", blk)
            object.__setattr__(self, "cols", [SArr(b[:, j], blk.dt) for j in range(b.shape[1])])

    @classmethod
    def _make(cls, cols, index, columns, block=None):
        d = object.__new__(SDataFrame)
        d._set(list(cols), index, columns, block)
        if block is None: d._blockify()
        return d

    @classmethod
    def from_real(cls, df):
        return cls._make([SSeries.from_real(df.iloc[:, j]).arr for j in range(df.shape[1])], df.index, df.columns)

    def to_real(self):
        if not self.cols: return pd.DataFrame(index=self._index, columns=self._columns)
        d = pd.concat([pd.Series(snp.conc_arr(c), index=self._index, dtype=object if c.dt.kind == "O" else c.dt) for c in self.cols], axis=1) if len(self.cols) else pd.DataFrame(index=self._index)
        d.columns = self._columns
        d.index = self._index
        return d

    def _assign(self, r): self._set(r.cols, r._index, r._columns, r.block)
    def _elementwise(self, f): return SDataFrame._make([f(c) for c in self.cols], self._index, self._columns)
    def _label_attr(self, name):
        if name in self._columns: return self[name]

    def to_sarr(self):
        if self.block is not None: return self.block
        if not self.cols: return SArr(np.empty((len(self._index), 0), dtype=object), OBJ if False else F64)
        if any(c.dt.kind == "O" for c in self.cols): dt = OBJ
        elif any(c.dt.kind == "b" for c in self.cols) and not all(c.dt.kind == "b" for c in self.cols): dt = OBJ
        else: dt = np.result_type(*[c.dt for c in self.cols])
        b = np.empty((len(self._index), len(self.cols)), dtype=object)
        for j, c in enumerate(self.cols): b[:, j] = [cast(x, dt) if dt.kind != "O" else x for x in c.a]
        return SArr(b, dt)

    # ---- structure
    index = property(lambda self: self._index, lambda self, v: self._set_idx("_index", v))
    columns = property(lambda self: self._columns, lambda self, v: self._set_idx("_columns", v))
    def _set_idx(self, which, v):
        v = v if isinstance(v, pd.Index) else pd.Index(lab(v))
        if len(v) != len(getattr(self, which)):
            raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(getattr(self, which)), len(v)))
        object.__setattr__(self, which, v)
    def __setattr__(self, name, v):
        if name in ("index", "columns"): return object.__setattr__(self, name, v)
        if not name.startswith("_") and name not in ("cols", "block") and name in self._columns:
            self[name] = v; return
        object.__setattr__(self, name, v)
    values = property(lambda self: self.to_sarr())
    shape = property(lambda self: (len(self._index), len(self.cols)))
    ndim = 2
    size = property(lambda self: len(self._index) * len(self.cols))
    empty = property(lambda self: len(self._index) == 0 or len(self.cols) == 0)
    axes = property(lambda self: [self._index, self._columns])
    dtypes = property(lambda self: pd_objser([c.dt for c in self.cols], self._columns))
    def to_numpy(self, *a, **k): return self.to_sarr()
    def __len__(self): return len(self._index)
    def __iter__(self): return iter(self._columns)
    def __contains__(self, k): return clabel(k) in self._columns
    def keys(self): return self._columns
    def items(self): return [(k, self._col(j)) for j, k in enumerate(self._columns)]
    iteritems = items
    def iterrows(self): return [(k, self._row(i)) for i, k in enumerate(self._index)]
    def copy(self, deep=True):
        if not deep: return SDataFrame._make(self.cols, self._index, self._columns, self.block) if self.block is not None else self._shallow()
        return SDataFrame._make([c.copy() for c in self.cols], self._index, self._columns)
    def _shallow(self):
        d = object.__new__(SDataFrame); d._set(self.cols, self._index, self._columns, None); return d
    def _col(self, j): return SSeries._make(self.cols[j], self._index, self._columns[j])
    def _row(self, i):
        cells = [c.a[i] for c in self.cols]
        if not self.cols: return SSeries._make(SArr(objarr([]), F64), self._columns, self._index[i])
        dts = [c.dt for c in self.cols]
        dt = OBJ if any(d.kind == "O" for d in dts) or (any(d.kind == "b" for d in dts) and not all(d.kind == "b" for d in dts)) else np.result_type(*dts)
        return SSeries._make(SArr(objarr([cast(x, dt) if dt.kind != "O" else x for x in cells]), dt), self._columns, self._index[i])
    @property
    def T(self): return self.transpose()
    def transpose(self, *a):
        if self.block is not None or not self.cols:
            b = self.to_sarr()
            return SDataFrame._make([SArr(b.a.T[:, j], b.dt) for j in range(b.shape[0])], self._columns, self._index)
        b = self.to_sarr()
        return SDataFrame._make([SArr(b.a.T[:, j], b.dt) for j in range(b.shape[0])], self._columns, self._index)
    def astype(self, dt, **k):
        if isinstance(dt, dict): return self._fallback("astype")(dt)
        return SDataFrame._make([self._col(j).astype(dt).arr for j in range(len(self.cols))], self._index, self._columns)
    def squeeze(self, axis=None):
        if axis in (1, "columns"): return self._col(0) if len(self.cols) == 1 else self
        if axis in (0, "index", "rows"): return self._row(0) if len(self._index) == 1 else self
        if len(self.cols) == 1 and len(self._index) == 1: return self._col(0)._el(0)
        if len(self.cols) == 1: return self._col(0)
        if len(self._index) == 1: return self._row(0)
        return self
    def set_axis(self, labels, axis=0, **k):
        r = self.copy()
        if axis in (0, "index"): r.index = labels
        else: r.columns = labels
        return r
    def rename(self, *a, **k):
        r = self.copy()
        ref = pd.DataFrame(index=self._index, columns=self._columns).rename(*a, **{x: y for x, y in k.items() if x != "inplace"})
        r._set(r.cols, ref.index, ref.columns, r.block)
        if k.get("inplace"): self._assign(r); return None
        return r
    def reset_index(self, drop=False, **k):
        if drop: return SDataFrame._make([c.copy() for c in self.cols], pd.RangeIndex(len(self._index)), self._columns)
        return self._fallback("reset_index")(**k)
    def set_index(self, keys, **k): 
        if isinstance(keys, str) or not hasattr(keys, "__iter__"):
            j = int(self._columns.get_loc(keys))
            keep = [i for i in range(len(self.cols)) if i != j]
            return SDataFrame._make([self.cols[i] for i in keep], pd.Index([clabel(x) for x in self.cols[j].a], name=keys), self._columns[keep])
        return self._fallback("set_index")(keys, **k)
    def head(self, n=5): return self.iloc[:n]
    def __repr__(self): return "SDataFrame(%s, %s, %s)" % (list(self._index), list(self._columns), [list(c.a) for c in self.cols])
    __str__ = __repr__

    # ---- selection
    def _take(self, rows=None, cols=None, ridx=None, cidx=None):
        """positional selection; rows/cols lists of positions (-1 missing)"""
        cs = self.cols if cols is None else [self.cols[j] if j >= 0 else SArr(objarr([math.nan] * len(self._index)), F64 if False else OBJ if False else F64) for j in cols]
        ci = self._columns if cols is None else (cidx if cidx is not None else self._columns[cols])
        if rows is not None:
            cs = [take(c, rows) for c in cs]
            ri = ridx if ridx is not None else self._index[rows]
        else:
            cs = [c.copy() for c in cs]
            ri = self._index
        return SDataFrame._make(cs, ri, ci)

    def __getitem__(self, key):
        if callable(key) and not isinstance(key, Base): key = key(self)
        if isinstance(key, SDataFrame): return self.where(key)
        if isinstance(key, slice):
            p = rpos(self._index)[lab(key)]
            return self._take(rows=list(p.values))
        m = mask_like(key)
        if m is not None:
            if isinstance(key, SSeries) and not key._index.equals(self._index):
                m = key.reindex(self._index).arr
            if len(m) != len(self._index): raise ValueError("Item wrong length %d instead of %d." % (len(m), len(self._index)))
            return self._take(rows=mask_positions(m))
        k = lab(key) if not isinstance(key, (pd.Index, tuple)) else key
        ref = pd.DataFrame([np.arange(len(self.cols))], columns=self._columns)[k]
        if isinstance(ref, pd.Series): return self._col(int(ref.iloc[0]))
        return self._take(cols=[int(x) for x in ref.iloc[0].values], cidx=ref.columns)

    def get(self, k, default=None):
        try: return self[k]
        except (KeyError, ValueError, IndexError): return default

    def __setitem__(self, key, value):
        if isinstance(key, SDataFrame):
            r = self._where(key, value, True); self._assign(r); return
        m = mask_like(key)
        if m is not None:
            self.loc[key] = value; return
        if isinstance(key, (list, pd.Index, SArr)):
            ks = list(lab(key)) if not isinstance(key, pd.Index) else list(key)
            for i, k in enumerate(ks):
                v = value
                if isinstance(value, SDataFrame): v = value._col(i)
                elif isinstance(value, SArr) and value.ndim == 2: v = SArr(value.a[:, i], value.dt)
                elif isinstance(value, (list, tuple)) and len(value) == len(ks): v = value[i]
                self[k] = v
            return
        k = clabel(key)
        if len(self._columns) == 0 and len(self._index) == 0 and hasattr(value, "__len__") and not isinstance(value, str):
            s = value if isinstance(value, SSeries) else SSeries(value)
            self._set([s.arr.copy()], s._index, pd.Index([k])); self._blockify(); return
        if isinstance(value, SSeries):
            arr = value.arr.copy() if value._index.equals(self._index) else value.reindex(self._index).arr
        else:
            arr = to_col(value, len(self._index))
            if isinstance(value, (SArr, list)): arr = arr.copy()
            if len(arr) != len(self._index):
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(arr), len(self._index)))
        cols = list(self.cols)
        loc = [j for j, c in enumerate(self._columns) if c == k]
        if loc:
            for j in loc: cols[j] = arr
            self._set(cols, self._index, self._columns, None)
        else:
            self._set(cols + [arr], self._index, self._columns.append(pd.Index([k])), None)

    def __delitem__(self, key):
        ref = pd.DataFrame([np.arange(len(self.cols))], columns=self._columns)
        del ref[clabel(key)]
        p = [int(x) for x in ref.iloc[0].values]
        self._set([self.cols[j] for j in p], self._index, ref.columns, None)
    def pop(self, k):
        r = self[k]; del self[k]; return r
    def insert(self, loc, column, value, **k):
        arr = to_col(value.reindex(self._index) if isinstance(value, SSeries) else value, len(self._index))
        self._set(self.cols[:loc] + [arr] + self.cols[loc:], self._index, self._columns.insert(loc, column), None)
    def assign(self, **k):
        r = self.copy()
        for n, v in k.items(): r[n] = v(r) if callable(v) and not isinstance(v, Base) else v
        return r

    loc = property(lambda self: DLoc(self, False))
    iloc = property(lambda self: DLoc(self, True))
    at = loc
    iat = iloc

    def reindex(self, labels=None, index=None, columns=None, axis=None, **k):
        if labels is not None:
            if axis in (1, "columns"): columns = labels
            else: index = labels
        r = self
        if columns is not None:
            c = columns if isinstance(columns, pd.Index) else pd.Index(lab(columns))
            p = r._columns.get_indexer(c)
            r = r._take(cols=[int(x) for x in p], cidx=c)
        if index is not None:
            i = index if isinstance(index, pd.Index) else pd.Index(lab(index))
            r = r._take(rows=[int(x) for x in r._index.get_indexer(i)], ridx=i)
        return r.copy()

    def drop(self, labels=None, axis=0, index=None, columns=None, inplace=False, **k):
        ref = pd.DataFrame(np.zeros((len(self._index), len(self.cols))), index=pd.RangeIndex(len(self._index)), columns=pd.RangeIndex(len(self.cols)))
        if labels is not None:
            if axis in (1, "columns"): columns = labels
            else: index = labels
        r = self
        if columns is not None:
            p = rpos(self._columns).drop(list(columns) if isinstance(columns, pd.Index) else lab(columns), **k)
            r = r._take(cols=list(p.values), cidx=p.index)
        if index is not None:
            p = rpos(r._index).drop(index if isinstance(index, pd.Index) else lab(index), **k)
            r = r._take(rows=list(p.values), ridx=p.index)
        if inplace:
            self._assign(r); return None
        return r

    def dropna(self, axis=0, how="any", thresh=None, subset=None, inplace=False, **k):
        if thresh is not None or subset is not None: return self._fallback("dropna")(axis=axis, how=how, thresh=thresh, subset=subset)
        how = how if isinstance(how, str) else "any"
        comb = b_and if how == "all" else b_or
        if axis in (1, "columns"):
            if len(self._index) == 0:
                keep = list(range(len(self.cols))) if how == "any" else []
            else:
                keep = [j for j, c in enumerate(self.cols) if not Ctx.cur.branch(zb(comb(*[nul(x) for x in c.a])))]
            return self._take(cols=keep)
        keep = [i for i in range(len(self._index)) if not Ctx.cur.branch(zb(comb(*[nul(c.a[i]) for c in self.cols])))] 
        return self._take(rows=keep)

    def drop_duplicates(self, *a, **k): return self._fallback("drop_duplicates")(*a, **k)
    def isin(self, vals):
        vals = list(vals)
        return self._elementwise(lambda s: SArr(np_isin_cells(s, vals), BOOL))
    def sort_index(self, axis=0, ascending=True, **k):
        if axis in (1, "columns"):
            p = rpos(self._columns).sort_index(ascending=ascending)
            return self._take(cols=list(p.values), cidx=p.index)
        p = rpos(self._index).sort_index(ascending=ascending)
        return self._take(rows=list(p.values), ridx=p.index)
    def sort_values(self, by, ascending=True, **k):
        if isinstance(by, (list, tuple)):
            if len(by) != 1: return self._fallback("sort_values")(by, ascending=ascending, **k)
            by = by[0]
        o = sorted_positions(self[by].arr, ascending)
        return self._take(rows=o)

    def apply(self, f, axis=0, raw=False, args=(), **k):
        if raw or k.get("result_type"): return self._fallback("apply")(f, axis=axis)
        if isinstance(f, str): return getattr(self, f)(axis=axis)
        if axis in (1, "columns"):
            items = [(l, self._row(i)) for i, l in enumerate(self._index)]
            agg_ax = self._index
        else:
            items = self.items()
            agg_ax = self._columns
        if self.empty:
            red = False
            try:
                r = f(SSeries._make(SArr(objarr([]), F64), pd.Index([], dtype=object)))
                red = not isinstance(r, Base)
            except Exception:
                red = False
            if red:
                v = f(SSeries._make(SArr(objarr([]), F64), pd.Index([], dtype=object))) if len(agg_ax) else math.nan
                return SSeries._make(to_col(v, len(agg_ax)), agg_ax)
            return self.copy()
        res = [f(s, *args) for _, s in items]
        if isinstance(res[0], SSeries) :
            d = SDataFrame({i: r for i, r in enumerate(res)})
            d.columns = agg_ax
            return d.T if axis in (1, "columns") else d
        if isinstance(res[0], SDataFrame): raise Unmodelled("apply returning frames")
        return SSeries._make(to_col(res) if not any(isinstance(r, (SArr, list)) for r in res) else SArr(objarr(res), OBJ), agg_ax)
    def applymap(self, f): return self.apply(lambda s: s.apply(f))
    def agg(self, f, axis=0): return self.apply(f, axis=axis)
    aggregate = agg

    def mode(self, axis=0, **k):
        if axis in (0, "index"):
            return self.T.mode(axis=1).T if False else self._fallback("mode")()
        rows = [mode_cells([c.a[i] for c in self.cols]) for i in range(len(self._index))]
        n = max([len(r) for r in rows], default=0)
        anyobj = any(c.dt.kind == "O" for c in self.cols)
        cols = []
        for j in range(n):
            v = [r[j] if j < len(r) else math.nan for r in rows]
            cols.append(SArr(objarr(v), OBJ if anyobj else F64) if anyobj or any(isinstance(x, float) and x != x for x in v) else to_col(v))
        return SDataFrame._make([SArr(objarr([cast(x, F64) for x in c.a]), F64) if c.dt.kind == "f" else c for c in cols], self._index, pd.RangeIndex(n))

    def _where(self, cond, other, inv):
        if callable(cond) and not isinstance(cond, Base): cond = cond(self)
        if isinstance(cond, SDataFrame):
            if not (cond._index.equals(self._index) and cond._columns.equals(self._columns)):
                cond = cond.reindex(index=self._index, columns=self._columns).fillna(inv)
            cc = cond.cols
        elif isinstance(cond, SSeries):
            cc = [cond.reindex(self._index).arr] * len(self.cols)
        else:
            c = as_sarr(cond)
            cc = [SArr(c.a[:, j], c.dt) for j in range(c.shape[1])]
        out = []
        for j, c in enumerate(self.cols):
            o = other
            if isinstance(other, SDataFrame): o = other.reindex(index=self._index, columns=self._columns)._col(j)
            elif isinstance(other, SArr) and other.ndim == 2: o = SArr(other.a[:, j], other.dt)
            out.append(self._col(j)._where(cc[j], o, inv).arr)
        return SDataFrame._make(out, self._index, self._columns)

    def bfill(self, axis=0, **k): return SDataFrame._make([self._col(j).bfill().arr for j in range(len(self.cols))], self._index, self._columns) if axis in (0, None) else self.T.bfill().T
    def ffill(self, axis=0, **k): return SDataFrame._make([self._col(j).ffill().arr for j in range(len(self.cols))], self._index, self._columns) if axis in (0, None) else self.T.ffill().T
    def cumsum(self, axis=0): return self._elementwise(snp.cumsum) if axis == 0 else self.T.cumsum().T
    def dot(self, o):
        if isinstance(o, SSeries): return (self * o).sum(axis=1)
        return self._fallback("dot")(o)
    def idxmax(self, axis=0, **k):
        return self.apply(lambda s: s.idxmax(), axis=axis)
    def idxmin(self, axis=0, **k):
        return self.apply(lambda s: s.idxmin(), axis=axis)
    def append(self, o, **k): return concat([self, o] if not isinstance(o, SSeries) else [self, SDataFrame([o])])
    def equals(self, o):
        return isinstance(o, SDataFrame) and self._index.equals(o._index) and self._columns.equals(o._columns) and all(self._col(j).equals(o._col(j)) for j in range(len(self.cols)))
    def add_prefix(self, p):
        r = self.copy(); r.columns = [p + str(c) for c in self._columns]; return r
    def to_dict(self, *a, **k):
        if not a and not k: return {c: self._col(j).to_dict() for j, c in enumerate(self._columns)}
        return self._fallback("to_dict")(*a, **k)

    # ---- arithmetic
    def _op(self, op, o, rev=False, axis=1, fill_value=None):
        axis = 0 if axis in (0, "index") else 1
        if isinstance(o, FillArr): o = o.materialise()
        if isinstance(o, (pd.Index,)): o = to_col(o.values)
        f = (lambda a, b: pd_binary(op, b, a)) if rev else (lambda a, b: pd_binary(op, a, b))
        if isinstance(o, (list, tuple, np.ndarray)): o = array(o)
        if isinstance(o, SArr):
            if o.ndim == 0: o = o.a.item()
            elif o.ndim == 1:
                want = self._index if axis == 0 else self._columns
                if len(o) != len(want): raise ValueError("Unable to coerce to Series, length must be %d: given %d" % (len(want), len(o)))
                if axis == 0: return SDataFrame._make([f(c, o) for c in self.cols], self._index, self._columns)
                return SDataFrame._make([f(c, SArr(objarr([o.a[j]]), o.dt)) for j, c in enumerate(self.cols)], self._index, self._columns)
            else:
                if o.shape != self.shape: raise ValueError("Unable to coerce to DataFrame, shape must be %s: given %s" % (self.shape, o.shape))
                return SDataFrame._make([f(c, SArr(o.a[:, j], o.dt)) for j, c in enumerate(self.cols)], self._index, self._columns)
        if isinstance(o, SSeries):
            mine = self._index if axis == 0 else self._columns
            if mine.equals(o._index): me, ot = self, o
            else:
                if op in CMP: raise ValueError("Operands are not aligned. Do `left, right = left.align(right, axis=1, copy=False)` before operating.")
                a, b = rpos(mine).align(rpos(o._index))
                pa = [-1 if x != x else int(x) for x in a.values]; pb = [-1 if x != x else int(x) for x in b.values]
                me = self._take(rows=pa, ridx=a.index) if axis == 0 else self._take(cols=pa, cidx=a.index)
                ot = SSeries._make(take(o.arr, pb), b.index)
            if axis == 0: return SDataFrame._make([f(c, ot.arr) for c in me.cols], me._index, me._columns)
            return SDataFrame._make([f(c, SArr(objarr([ot.arr.a[j]]), ot.arr.dt)) for j, c in enumerate(me.cols)], me._index, me._columns)
        if isinstance(o, SDataFrame):
            if self._index.equals(o._index) and self._columns.equals(o._columns): a, b = self, o
            else:
                if op in CMP: raise ValueError("Can only compare identically-labeled DataFrame objects")
                ra, rb = pd.DataFrame(0, index=self._index, columns=self._columns).align(pd.DataFrame(0, index=o._index, columns=o._columns))
                a = self.reindex(index=ra.index, columns=ra.columns); b = o.reindex(index=ra.index, columns=ra.columns)
            if fill_value is not None: a, b = a.fillna(fill_value), b.fillna(fill_value)
            return SDataFrame._make([f(x, y) for x, y in zip(a.cols, b.cols)], a._index, a._columns)
        return SDataFrame._make([f(c, o) for c in self.cols], self._index, self._columns)

    def _agg(self, name, axis=0, skipna=True, ddof=1, numeric_only=None, **k):
        if axis in (1, "columns"):
            rows = [self._row(i).arr for i in range(len(self._index))]
            vals = [agg(r, name, skipna, ddof) for r in rows]
            dts = [agg_dt(name, r.dt, v) for r, v in zip(rows, vals)]
            if not rows: return SSeries._make(SArr(objarr([]), F64), self._index)
            dt = OBJ if any(d.kind == "O" for d in dts) else np.result_type(*dts) if len(set(dts)) > 1 else dts[0]
            return SSeries._make(SArr(objarr(vals), dt), self._index)
        if axis is None and name in ("any", "all"):
            return self._agg(name)._agg(name)
        vals = [agg(c, name, skipna, ddof) for c in self.cols]
        dts = [agg_dt(name, c.dt, v) for c, v in zip(self.cols, vals)]
        if not vals: return SSeries._make(SArr(objarr([]), F64), self._columns)
        dt = OBJ if any(d.kind == "O" for d in dts) else np.result_type(*dts) if len(set(dts)) > 1 else dts[0]
        return SSeries._make(SArr(objarr([cast(v, dt) if dt.kind != "O" else v for v in vals]), dt), self._columns)

    # ---- csv
    def to_csv(self, path=None, sep=",", index=True, header=True, **k):
        if k: raise Unmodelled("to_csv options")
        buf = io.StringIO()
        w = csv.writer(buf, delimiter=sep, lineterminator="\n")
        if header: w.writerow(([""] if index else []) + [str(c) for c in self._columns])
        for i, l in enumerate(self._index):
            row = []
            for c in self.cols:
                x = c.a[i]
                if isinstance(x, SymCase): x = x.resolve()
                row.append("" if Ctx.cur.branch(zb(nul(x))) else (x if isinstance(x, str) else str(x)))
            w.writerow(([str(l)] if index else []) + row)
        txt = buf.getvalue()
        if path is None: return txt
        if hasattr(path, "write"): path.write(txt); return None
        FS.write_text(path, txt)


class FS:
    """set by the loader: in-memory file system"""
    write_text = None
    read_text = None


def read_csv(path, sep=",", index_col=None, **k):
    if k: raise Unmodelled("read_csv options")
    txt = path.read() if hasattr(path, "read") else FS.read_text(path)
    rows = list(csv.reader(io.StringIO(txt), delimiter=sep))
    if not rows: raise pd.errors.EmptyDataError("No columns to parse from file")
    head, body = rows[0], [r for r in rows[1:] if r]
    head = [h if h else "Unnamed: %d" % i for i, h in enumerate(head)]
    # duplicate names as pandas mangles them
    seen, hd = {}, []
    for h in head:
        n = seen.get(h, 0); seen[h] = n + 1
        hd.append(h if n == 0 else "%s.%d" % (h, n))
    from pandas._libs.parsers import STR_NA_VALUES
    cols = []
    for j in range(len(hd)):
        cells = [r[j] if j < len(r) else "" for r in body]
        conv, ok = [], True
        for c in cells:
            if c in STR_NA_VALUES: conv.append(math.nan)
            elif has_ph(c) and len(c) == 1: conv.append(ph_get(c))
            elif has_ph(c): ok = False; break
            else:
                try: conv.append(int(c) if c.lstrip("+-").isdigit() else float(c))
                except ValueError: ok = False; break
        if ok and all(c in ("True", "False") or c == "" for c in cells) and cells: ok = False
        if ok: cols.append(to_col(conv) if conv else SArr(objarr([]), OBJ))
        else:
            if all(c in ("True", "False") for c in cells): cols.append(to_col([c == "True" for c in cells]))
            else: cols.append(SArr(objarr([math.nan if c in STR_NA_VALUES else c for c in cells]), OBJ))
    d = SDataFrame._make(cols, pd.RangeIndex(len(body)), pd.Index(hd))
    if index_col is not None:
        return d.set_index(d._columns[index_col] if isinstance(index_col, int) else index_col)
    return d


def pd_objser(vals, index):
    return SSeries._make(SArr(objarr(vals), OBJ), index)


def mask_like(key):
    if isinstance(key, SSeries) and (key.arr.dt.kind == "b" or (key.arr.dt.kind == "O" and len(key) and all(isinstance(x, (bool, SymBool)) for x in key.arr.a))): return key.arr
    if isinstance(key, (SArr, FillArr)) and as_sarr(key).dt.kind == "b": return as_sarr(key)
    if isinstance(key, np.ndarray) and key.dtype == bool: return as_sarr(key)
    if isinstance(key, list) and key and all(isinstance(x, (bool, np.bool_, SymBool)) for x in key): return as_sarr(key)


class SLoc:
    def __init__(self, s, pos): self.s, self.pos = s, pos
    def _idx(self, key):
        r = rpos(self.s._index)
        return (r.iloc if self.pos else r.loc)[lab(key)]
    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 1: key = key[0]
        m = self.s._mask(key)
        if m is not None: return self.s._sel(m)
        if self.pos and isinstance(key, SymInt): return self.s.arr[key]
        return self.s._pos(self._idx(key))
    def __setitem__(self, key, value):
        m = self.s._mask(key)
        if m is not None: return self.s._set_mask(m, value)
        try: p = self._idx(key)
        except KeyError:
            if self.pos: raise
            self.s[key] = value; return
        self.s._put(p.values if isinstance(p, pd.Series) else [p], value)


class DLoc:
    def __init__(self, d, pos): self.d, self.pos = d, pos

    def _axis(self, idx, key):
        """-> (positions list or int, index)"""
        if isinstance(key, slice) and key == slice(None): return None
        m = mask_like(key)
        if m is not None:
            if isinstance(key, SSeries) and not self.pos and not key._index.equals(idx): m = key.reindex(idx).arr
            if len(m) != len(idx): raise IndexError("Boolean index has wrong length")
            return mask_positions(m)
        r = rpos(idx)
        p = (r.iloc if self.pos else r.loc)[lab(key) if not isinstance(key, pd.Index) else key]
        if isinstance(p, pd.Series): return [int(x) for x in p.values]
        return int(p)

    def __getitem__(self, key):
        rk, ck = key if isinstance(key, tuple) else (key, slice(None))
        d = self.d
        c = self._axis(d._columns, ck)
        r = self._axis(d._index, rk)
        if isinstance(c, int):
            s = d._col(c)
            if r is None: return s
            if isinstance(r, int): return s._el(r)
            return SSeries._make(SArr(s.arr.a[r] if r else objarr([]), s.arr.dt), d._index[r], s._name)
        sub = d if c is None else d._take(cols=c)
        if r is None: return sub if c is not None else d.copy(deep=False)
        if isinstance(r, int): return sub._row(r)
        return sub._take(rows=r)

    def __setitem__(self, key, value):
        rk, ck = key if isinstance(key, tuple) else (key, slice(None))
        d = self.d
        if not self.pos:
            # enlargement
            try: r = self._axis(d._index, rk)
            except KeyError:
                if isinstance(rk, (list, SArr)): raise
                return self._enlarge_row(clabel(rk), ck, value)
            try: c = self._axis(d._columns, ck)
            except KeyError:
                if isinstance(ck, (list, SArr)): raise
                if r is None: d[ck] = value; return
                d[ck] = math.nan
                c = self._axis(d._columns, ck)
        else:
            r, c = self._axis(d._index, rk), self._axis(d._columns, ck)
        rows = list(range(len(d._index))) if r is None else ([r] if isinstance(r, int) else r)
        cols = list(range(len(d.cols))) if c is None else ([c] if isinstance(c, int) else c)
        def val(i, j, ii, jj):
            v = value
            if isinstance(v, FillArr): v = v.materialise()
            if isinstance(v, SDataFrame): return v.reindex(index=d._index[rows], columns=d._columns[cols]).cols[jj].a[ii]
            if isinstance(v, SSeries):
                if isinstance(r, int) and not isinstance(c, int):
                    return v.arr.a[list(v._index).index(d._columns[j])] if d._columns[j] in v._index else math.nan
                return v.arr.a[list(v._index).index(d._index[i])] if d._index[i] in v._index else math.nan
            if isinstance(v, (list, tuple, np.ndarray, pd.Index)): v = to_col(v)
            if isinstance(v, SArr):
                if v.ndim == 0: return v.a.item()
                if v.ndim == 2: return v.a[ii, jj] if v.shape[0] > 1 else v.a[0, jj]
                if isinstance(r, int) and not isinstance(c, int):
                    if len(v) != len(cols): raise ValueError("setting an array element with a sequence.")
                    return v.a[jj]
                if len(cols) == 1:
                    if len(v) != len(rows): raise ValueError("cannot set using a list-like indexer with a different length than the value")
                    return v.a[ii]
                return v.a[jj] if len(v) == len(cols) else v.a[ii]
            return conc(v)
        if not rows or not cols: return
        vdt = None
        newcols = list(d.cols)
        blk = d.block
        for jj, j in enumerate(cols):
            vals = [val(i, j, ii, jj) for ii, i in enumerate(rows)]
            s = SSeries._make(newcols[j], d._index)
            dtv = value.dt if isinstance(value, SArr) else value.arr.dt if isinstance(value, SSeries) else to_col(vals).dt
            if c is not None and r is None and not isinstance(value, (SArr, SSeries)) and False: pass
            s._widen(dtv, vals)
            if s.arr is not newcols[j]: blk = None
            newcols[j] = s.arr
            for i, v in zip(rows, vals): s.arr.a[i] = snp.store(s.arr.dt, v)
        if blk is None and d.block is not None:
            newcols = [x.copy() for x in newcols]
        d._set(newcols, d._index, d._columns, blk)
        if blk is None: d._blockify()

    def _enlarge_row(self, lbl, ck, value):
        d = self.d
        if not (isinstance(ck, slice) and ck == slice(None)): raise Unmodelled("row enlargement with columns")
        if isinstance(value, SSeries): vals = [value.get(c, math.nan) for c in d._columns]; vdt = value.arr.dt
        elif isinstance(value, (list, tuple, SArr, np.ndarray)):
            v = to_col(value); vals, vdt = list(v.a), v.dt
            if len(vals) != len(d.cols): raise ValueError("cannot set a row with mismatched columns")
        else: vals, vdt = [value] * len(d.cols), to_col(value).dt
        cols = []
        for c, v in zip(d.cols, vals):
            dt = c.dt if c.dt == vdt else (OBJ if "O" in (c.dt.kind, vdt.kind) else np.result_type(c.dt, vdt))
            cols.append(SArr(objarr([cast(x, dt) if dt.kind != "O" else x for x in list(c.a) + [v]]), dt))
        d._set(cols, d._index.append(pd.Index([lbl])), d._columns, None)
        d._blockify()


def _install_ops():
    names = dict(add="add", sub="sub", mul="mul", div="truediv", floordiv="floordiv", mod="mod", pow="pow",
                 **{"and": "and", "or": "or", "xor": "xor"})
    for cls in (SSeries, SDataFrame):
        for op, nm in names.items():
            setattr(cls, "__%s__" % nm, (lambda op: lambda self, o: self._op(op, o))(op))
            setattr(cls, "__r%s__" % nm, (lambda op: lambda self, o: self._op(op, o, rev=True))(op))
            def inp(op):
                def f(self, o):
                    r = self._op(op, o)
                    if isinstance(self, SSeries) and isinstance(r, SSeries) and r.arr.dt == self.arr.dt and len(r) == len(self) and r._index.equals(self._index):
                        self.arr.a[...] = r.arr.a      # pandas writes the result back in place
                        return self
                    if isinstance(self, SDataFrame) and isinstance(r, SDataFrame):
                        self._assign(r); return self
                    if isinstance(self, SSeries) and isinstance(r, SSeries):
                        self._set(r.arr, r._index, self._name); return self
                    return r
                return f
            setattr(cls, "__i%s__" % nm, inp(op))
        for op in ("lt", "le", "gt", "ge", "eq", "ne"):
            setattr(cls, "__%s__" % op, (lambda op: lambda self, o: self._op(op, o))(op))
            if cls is SDataFrame: setattr(cls, op, (lambda op: lambda self, o, axis=1: self._op(op, o, axis=axis))(op))
            else: setattr(cls, op, (lambda op: lambda self, o: self._op(op, o))(op))
        for op, nms in dict(add=("add",), sub=("sub", "subtract"), mul=("mul", "multiply"), div=("div", "truediv", "divide"), pow=("pow",), floordiv=("floordiv",), mod=("mod",)).items():
            for nm in nms:
                if cls is SDataFrame:
                    setattr(cls, nm, (lambda op: lambda self, o, axis=1, level=None, fill_value=None: self._op(op, o, axis=axis, fill_value=fill_value))(op))
                    setattr(cls, "r" + nm, (lambda op: lambda self, o, axis=1, level=None, fill_value=None: self._op(op, o, rev=True, axis=axis, fill_value=fill_value))(op))
                else:
                    setattr(cls, nm, (lambda op: lambda self, o, level=None, fill_value=None, axis=0: self._op(op, o, fill_value=fill_value))(op))
                    setattr(cls, "r" + nm, (lambda op: lambda self, o, level=None, fill_value=None, axis=0: self._op(op, o, rev=True, fill_value=fill_value))(op))
        for nm in ("sum", "mean", "std", "var", "max", "min", "count", "any", "all", "prod", "median"):
            if cls is SDataFrame:
                setattr(cls, nm, (lambda nm: lambda self, axis=0, skipna=True, level=None, ddof=1, numeric_only=None, **k: self._agg(nm, axis=axis, skipna=skipna, ddof=ddof))(nm))
            else:
                setattr(cls, nm, (lambda nm: lambda self, axis=None, skipna=True, level=None, ddof=1, **k: self._agg(nm, skipna=skipna, ddof=ddof))(nm))
SSeries.__hash__ = SDataFrame.__hash__ = Base.__hash__
_install_ops()
SSeries.__hash__ = Base.__hash__
SDataFrame.__hash__ = Base.__hash__


def concat(objs, axis=0, ignore_index=False, join="outer", keys=None, sort=False, **k):
    if isinstance(objs, dict): objs = list(objs.values())
    objs = [o for o in objs if o is not None]
    if not objs: raise ValueError("No objects to concatenate")
    axis = 1 if axis in (1, "columns") else 0
    if keys is not None: raise Unmodelled("concat keys")
    # shape the result with real pandas on frames of positions
    real = []
    for n, o in enumerate(objs):
        if isinstance(o, SSeries): real.append(pd.Series([(n, 0, i) for i in range(len(o))], index=o._index, name=o._name, dtype=object))
        else:
            r = pd.DataFrame(index=o._index, columns=o._columns, dtype=object)
            for j in range(len(o.cols)):
                for i in range(len(o._index)): r.iat[i, j] = (n, j, i)
            real.append(r)
    res = pd.concat(real, axis=axis, ignore_index=ignore_index, join=join, sort=sort)
    def cell(t):
        if not isinstance(t, tuple): return math.nan
        o = objs[t[0]]
        return (o.arr if isinstance(o, SSeries) else o.cols[t[1]]).a[t[2]]
    def col(ts):
        dts = []
        for t in ts:
            if isinstance(t, tuple):
                o = objs[t[0]]; dts.append((o.arr if isinstance(o, SSeries) else o.cols[t[1]]).dt)
            else: dts.append(F64)
        u = set(dts)
        dt = OBJ if not u or any(d.kind == "O" for d in u) or (BOOL in u and len(u) > 1) else np.result_type(*u)
        return SArr(objarr([cast(cell(t), dt) if dt.kind != "O" else cell(t) for t in ts]), dt)
    if isinstance(res, pd.Series): return SSeries._make(col(list(res.values)), res.index, res.name)
    return SDataFrame._make([col(list(res.iloc[:, j].values)) for j in range(res.shape[1])], res.index, res.columns)


class _Types:
    def __getattr__(self, n):
        f = getattr(pd.api.types, n)
        def g(x, *a):
            if isinstance(x, (SSeries, SArr)): x = np.empty(0, dtype=x.dtype) if x.dtype.kind != "O" else x.dtype
            return f(x, *a)
        return g


class _Api:
    types = _Types()


class Module:
    DataFrame, Series, concat, read_csv = SDataFrame, SSeries, staticmethod(concat), staticmethod(read_csv)
    api = _Api()

    @staticmethod
    def isna(x):
        if is_pd(x): return x.isna()
        if isinstance(x, (SArr, list)): return unary(as_sarr(x), lambda v: mk_bool(nul(v)), BOOL)
        return mk_bool(nul(x)) if isinstance(x, Sym) else pd.isna(x)
    isnull = isna

    @classmethod
    def notna(cls, x):
        r = cls.isna(x)
        return ~r if not isinstance(r, (bool, SymBool)) else mk_bool(b_not(as_b(r)))
    notnull = notna

    def __getattr__(self, name):
        v = getattr(pd, name)
        if isinstance(v, type) or not callable(v): return v
        def f(*a, **k): return snp.fallback("pandas." + name, v, *a, **k)
        return f


def _patch_index():
    orig = pd.Index.__getitem__
    def getitem(self, key):
        if isinstance(key, (SSeries, SArr, FillArr)): key = lab(key)
        elif isinstance(key, Sym): key = clabel(key)
        return orig(self, key)
    pd.Index.__getitem__ = getitem


_patch_index()
