"""Symbolic numpy: SArr wraps a real object ndarray (structure, views, broadcasting and aliasing are numpy's own) whose
elements are Python constants or symbolic values, plus the dtype the array would have."""
import math, itertools, operator
import numpy as np
from . import core
import z3
from .core import *
from .core import _install  # noqa

F64, I64, BOOL, OBJ, U8 = core.F64, core.I64, core.BOOL, core.OBJ, core.U8

UF = dict(add="add", sub="subtract", mul="multiply", div="true_divide", floordiv="floor_divide", mod="remainder", pow="power",
          lt="less", le="less_equal", gt="greater", ge="greater_equal", eq="equal", ne="not_equal",
          **{"and": "bitwise_and", "or": "bitwise_or", "xor": "bitwise_xor"}, lshift="left_shift", rshift="right_shift")
UF_REV = {v: k for k, v in UF.items()}
UF_REV["divide"] = "div"


def S():
    from . import spd
    return spd


def objarr(seq, shape=None):
    seq = list(seq)
    a = np.empty(len(seq), dtype=object)
    for i, x in enumerate(seq):
        a[i] = x
    return a if shape is None else a.reshape(shape)


def rep_for(x, dt=None):
    """a real numpy stand-in for dtype resolution"""
    if isinstance(x, SArr): return np.empty((0,) if x.ndim else (), dtype=x.dt)
    if isinstance(x, np.ndarray): return np.empty((0,) if x.ndim else (), dtype=x.dtype)
    if isinstance(x, Sym):
        d = dt_of(x)
        if d is not None: return d.type(1)
        k = num_kind(x)
        return (True, 1, 1.0)[k] if k is not None else np.empty((), dtype=object)
    return x


def result_dtype(op, a, b):
    uf = getattr(np, UF[op])
    ra, rb = rep_for(a), rep_for(b)
    if isinstance(a, SArr) and a.ndim == 0: ra = np.empty((), dtype=a.dt)
    try:
        with np.errstate(all="ignore"):
            if isinstance(ra, str) or isinstance(rb, str) or getattr(ra, "dtype", np.dtype(int)).kind in "US" or getattr(rb, "dtype", np.dtype(int)).kind in "US":
                return BOOL if op in CMP else OBJ
            return np.asarray(uf(ra, rb)).dtype
    except TypeError:
        if getattr(ra, "dtype", None) == OBJ or getattr(rb, "dtype", None) == OBJ:
            return BOOL if op in CMP else OBJ
        raise


def elem(dt, x):
    """element as extracted (numpy scalar)"""
    if dt.kind == "O": return x
    return with_dt(x, dt)


def store(dt, x):
    """value as stored in an array of dtype dt"""
    if isinstance(x, Sym):
        d = dt_of(x)
        if dt.kind == "O": return x
        return cast(x, dt)
    if dt.kind == "O": return x
    if isinstance(x, Fraction): return float(x)
    return cast(x, dt)


def infer_dtype(vals):
    """dtype numpy would infer for a flat list of scalars"""
    kinds = set()
    dts = []
    for v in vals:
        if isinstance(v, SymCase):
            ks = [infer_dtype([w]) for _, w in v.cases]
            dts += ks
            continue
        if isinstance(v, Sym):
            d = dt_of(v)
            dts.append(d if d is not None else (BOOL, I64, F64)[num_kind(v)])
        elif isinstance(v, str):
            dts.append(np.dtype("U%d" % max(1, len(v))))
        else:
            dts.append(np.asarray(v).dtype)
    if not dts: return F64
    u = []
    for d in dts:
        if d not in u: u.append(d)
    if len(u) == 1: return u[0]
    if any(d.kind == "O" for d in u): return OBJ
    if any(d.kind in "US" for d in u):
        return np.dtype("U%d" % max([32] + [d.itemsize // 4 for d in u if d.kind == "U"])) if any(d.kind not in "US" for d in u) \
            else np.dtype("U%d" % max(d.itemsize // 4 for d in u))
    return np.result_type(*u)


class SArr:
    _s_container_ = True
    __array_ufunc__ = None
    __array_priority__ = 1e8

    def __init__(self, a, dt):
        self.a = a
        self.dt = np.dtype(dt)

    # ---- structure
    @property
    def dtype(self): return self.dt
    @property
    def shape(self): return self.a.shape
    @property
    def ndim(self): return self.a.ndim
    @property
    def size(self): return self.a.size
    @property
    def nbytes(self): return self.a.size * self.dt.itemsize
    @property
    def itemsize(self): return self.dt.itemsize
    @property
    def T(self): return SArr(self.a.T, self.dt)
    @property
    def flat(self): return iter([elem(self.dt, x) for x in self.a.ravel()])
    @property
    def base(self): return None

    def __len__(self):
        if self.a.ndim == 0: raise TypeError("len() of unsized object")
        return len(self.a)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def wrap(self, a):
        if isinstance(a, np.ndarray):
            return SArr(a, self.dt)
        return elem(self.dt, a)

    def __deepcopy__(self, memo): return self.copy()
    def __copy__(self): return self.copy()
    def copy(self, order=None): return SArr(self.a.copy(), self.dt)
    def reshape(self, *s, **k): return SArr(self.a.reshape(*s, **k), self.dt)
    def ravel(self, *a): return SArr(self.a.ravel(), self.dt)
    def flatten(self, *a): return SArr(self.a.flatten(), self.dt)
    def squeeze(self, axis=None): return SArr(self.a.squeeze(axis), self.dt)
    def transpose(self, *a): return SArr(self.a.transpose(*a), self.dt)
    def view(self, *a): return SArr(self.a.view(), self.dt)
    def setflags(self, write=None, align=None, uic=None):
        if write is not None: self.a.setflags(write=write)
    def repeat(self, n, axis=None): return SArr(self.a.repeat(n, axis), self.dt)

    def tolist(self):
        def rec(a):
            if isinstance(a, np.ndarray): return [rec(x) for x in a] if a.ndim > 1 else [py(x) for x in a]
            return py(a)
        def py(x):
            return with_dt(x, None) if isinstance(x, Sym) else conc(cast(x, self.dt)) if self.dt.kind != "O" else x
        if self.a.ndim == 0: return py(self.a.item())
        return rec(self.a)

    def item(self, *i):
        x = self.a.item(*i) if self.a.size == 1 or i else None
        if self.a.size != 1 and not i: raise ValueError("can only convert an array of size 1 to a Python scalar")
        return with_dt(x, None) if isinstance(x, Sym) else conc(x)

    def astype(self, dt, copy=True, **k):
        dt = np.dtype(dt)
        if dt.kind == "U" and dt.itemsize == 0:
            if self.dt.kind in "US" : dt = self.dt
            elif self.dt.kind == "O": dt = np.dtype("U%d" % max([1] + [len(str(x)) for x in self.a.ravel()]))
            else: dt = np.array(np.empty(0, dtype=self.dt)).astype(str).dtype
        out = np.empty(self.a.shape, dtype=object)
        of, sf = out.ravel() if out.ndim else out.reshape(1), self.a.ravel()
        out = objarr([trunc_u(cast(x, dt), dt) for x in sf], self.a.shape)
        return SArr(out, dt)

    def fill(self, v):
        self[...] = v

    # ---- indexing
    def __getitem__(self, key):
        key2, special = norm_key(self, key)
        if special is not None:
            return special
        r = self.a[key2]
        if isinstance(r, np.ndarray) and not (r.ndim == 0 and not isinstance(self.a[key2], np.ndarray)):
            return SArr(r, self.dt)
        return elem(self.dt, r)

    def __setitem__(self, key, value):
        if isinstance(key, SymInt) and self.ndim == 1:
            v = store(self.dt, scal(value))
            n = len(self)
            if not (key.lo is not None and key.lo >= -n and key.hi is not None and key.hi < n):
                if Ctx.cur.branch(zb(b_or(cmp_op("ge", key, n), cmp_op("lt", key, -n)))):
                    raise IndexError("index out of bounds")
            for i in range(n):
                self.a[i] = ite(zb(b_or(cmp_op("eq", key, i), cmp_op("eq", key, i - n))), v, self.a[i])
            return
        if isinstance(key, slice) and self.ndim == 1 and any(isinstance(x, SymInt) for x in (key.start, key.stop)):
            return self._set_sym_slice(key, value)
        if isinstance(key, (SArr, list)) or (hasattr(key, "_s_container_")):
            k = as_sarr(key)
            if k.dt.kind == "b" and any(isinstance(x, Sym) for x in k.a.ravel()):
                return self._set_sym_mask(k, value)
        key2, special = norm_key(self, key, for_set=True)
        if isinstance(value, FillArr): value = value.materialise()
        if hasattr(value, "_s_container_"):
            v = as_sarr(value)
            vals = objarr([trunc_u(store(self.dt, x), self.dt) for x in v.a.ravel()], v.a.shape)
            self.a[key2] = vals
        elif isinstance(value, (list, tuple, np.ndarray)):
            v = array(value)
            self.a[key2] = objarr([trunc_u(store(self.dt, x), self.dt) for x in v.a.ravel()], v.a.shape)
        else:
            tmp = np.empty((), dtype=object)
            tmp[()] = trunc_u(store(self.dt, value), self.dt)
            self.a[key2] = tmp if isinstance(self.a[key2], np.ndarray) else tmp[()]

    def _set_sym_slice(self, key, value):
        n = len(self)
        if key.step not in (None, 1): raise Unmodelled("stepped symbolic slice")
        lo = 0 if key.start is None else key.start
        hi = n if key.stop is None else key.stop
        def clip(v):
            if not isinstance(v, Sym):
                v = int(v)
                return min(max(v + n if v < 0 else v, 0), n)
            v = with_dt(v, None)
            if v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi <= n: return v
            t = i_term(v)
            t = z3.If(t < 0, t + n, t)
            t = z3.If(t < 0, 0, z3.If(t > n, n, t))
            return mk_int(z3.simplify(t), None, 0, n)
        lo, hi = clip(lo), clip(hi)
        if isinstance(value, FillArr) or not hasattr(value, "_s_container_") and not isinstance(value, (list, tuple, np.ndarray)):
            v = value.value if isinstance(value, FillArr) else scal(value)
            if isinstance(value, FillArr):
                # length must match (or be 1)
                d = scalar_op("sub", hi, lo)
                ln = s_max2(d, 0)
                ok = b_or(cmp_op("eq", ln, value.n), cmp_op("eq", value.n, 1))
                if not Ctx.cur.branch(zb(sim(ok))):
                    raise ValueError("could not broadcast input array into shape")
            v = store(self.dt, v)
            for i in range(n):
                c = b_and(cmp_op("le", lo, i), cmp_op("gt", hi, i))
                self.a[i] = ite(zb(sim(c)), v, self.a[i]) if c is not False else self.a[i]
            return
        self[slice(int(lo), int(hi))] = value

    def _set_sym_mask(self, k, value):
        if k.shape != self.shape:
            if k.ndim == 1 and self.ndim == 1:
                raise IndexError("boolean index did not match indexed array along dimension 0")
            raise Unmodelled("symbolic mask shape")
        flat = self.a.reshape(-1) if self.a.flags.c_contiguous else None
        if hasattr(value, "_s_container_") or isinstance(value, (list, tuple, np.ndarray)):
            v = as_sarr(value)
            if v.size == 1:
                value = v.a.ravel()[0]
            else:
                # i-th selected position takes i-th value
                pos = 0
                idx = np.ndindex(*self.shape)
                cnt = 0
                kk = k.a
                for j in idx:
                    b = as_b(kk[j])
                    if isinstance(cnt, Sym) or b is not False:
                        val = v.a.ravel()[int(cnt)] if int(cnt) < v.size else None
                    if Ctx.cur.branch(zb(b)):
                        if cnt >= v.size: raise ValueError("NumPy boolean array indexing assignment cannot assign")
                        self.a[j] = store(self.dt, v.a.ravel()[cnt])
                        cnt += 1
                if cnt != v.size: raise ValueError("NumPy boolean array indexing assignment cannot assign")
                return
        v = trunc_u(store(self.dt, value), self.dt)
        for j in np.ndindex(*self.shape):
            self.a[j] = ite(as_b(k.a[j]), v, self.a[j])

    # ---- reductions
    def sum(self, axis=None, dtype=None, keepdims=False, **k): return reduce_(self, "sum", axis, keepdims)
    def any(self, axis=None, **k): return reduce_(self, "any", axis)
    def all(self, axis=None, **k): return reduce_(self, "all", axis)
    def max(self, axis=None, **k): return reduce_(self, "max", axis)
    def min(self, axis=None, **k): return reduce_(self, "min", axis)
    def mean(self, axis=None, **k): return reduce_(self, "mean", axis)
    def prod(self, axis=None, **k): return reduce_(self, "prod", axis)
    def std(self, axis=None, ddof=0, **k): return reduce_(self, "std", axis, ddof=ddof)
    def var(self, axis=None, ddof=0, **k): return reduce_(self, "var", axis, ddof=ddof)
    def nonzero(self): return nonzero(self)
    def argmax(self, axis=None): return arg_ext(self, "gt", axis)
    def argmin(self, axis=None): return arg_ext(self, "lt", axis)
    def argsort(self, *a, **k): return argsort(self)
    def sort(self, *a, **k):
        o = argsort(self)
        self.a[...] = self.a[np.array([int(x) for x in o.a])]
    def cumsum(self, axis=None, dtype=None, out=None): return cumsum(self)
    def dot(self, o): return dot(self, o)
    def round(self, *a): raise Unmodelled("round")
    def clip(self, lo, hi): return minimum(maximum(self, lo), hi)
    def tobytes(self): return bytes(conc_arr(self).tobytes())

    def __contains__(self, x):
        return bool(mk_bool(b_or(*[as_b(scalar_op("eq", y, x)) for y in self.a.ravel()])))

    def __bool__(self):
        if self.size == 1: return bool(mk_bool(as_b(self.a.ravel()[0])))
        if self.size == 0: return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __int__(self): return int(self.item())
    def __index__(self): return operator.index(self.item())
    def __float__(self): return float(self.item())
    def __hash__(self): raise TypeError("unhashable type: 'numpy.ndarray'")
    def __repr__(self): return "array(%s)" % (self.tolist(),)
    def __str__(self): return str(self.tolist()).replace(",", "")

    def __neg__(self): return unary(self, lambda x: s_neg(x, self.dt), self.dt)
    def __pos__(self): return self.copy()
    def __abs__(self): return absolute(self)
    def __invert__(self): return unary(self, lambda x: s_invert(x, self.dt), self.dt)
    def __matmul__(self, o): return dot(self, o)

    def __getattr__(self, name):
        if name.startswith("__") or name in ("a", "dt"):
            raise AttributeError(name)
        if hasattr(np.ndarray, name):
            m = getattr(np.ndarray, name)
            if callable(m):
                def f(*args, **kw):
                    return fallback("ndarray." + name, lambda x, *a, **k: getattr(x, name)(*a, **k), self, *args, **kw)
                return f
        raise AttributeError("'numpy.ndarray' object has no attribute %r" % name)


def trunc_u(x, dt):
    if dt.kind == "U" and isinstance(x, str) and dt.itemsize:
        return x[: dt.itemsize // 4]
    return x


def _bin_methods():
    for op, nm in dict(add="add", sub="sub", mul="mul", div="truediv", floordiv="floordiv", mod="mod", pow="pow",
                       lshift="lshift", rshift="rshift", **{"and": "and", "or": "or", "xor": "xor"}).items():
        def mk(op):
            def f(self, o):
                if is_pd(o): return NotImplemented
                return binary(op, self, o)
            def g(self, o):
                if is_pd(o): return NotImplemented
                return binary(op, o, self)
            def h(self, o):
                return inplace(op, self, o)
            return f, g, h
        f, g, h = mk(op)
        setattr(SArr, "__%s__" % nm, f)
        setattr(SArr, "__r%s__" % nm, g)
        setattr(SArr, "__i%s__" % nm, h)
    for op in ("lt", "le", "gt", "ge", "eq", "ne"):
        def mk(op):
            def f(self, o):
                if is_pd(o): return NotImplemented
                return binary(op, self, o)
            return f
        setattr(SArr, "__%s__" % op, mk(op))


def is_pd(o):
    return getattr(o, "_s_pandas_", False)


class FillArr:
    """np.ones/zeros/full of symbolic length"""
    _s_container_ = True

    def __init__(self, n, value, dt):
        self.n, self.value, self.dt = n, value, np.dtype(dt)

    def materialise(self):
        n = int(self.n)
        return SArr(objarr([self.value] * n), self.dt)

    def __len__(self): return int(self.n)

    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        return getattr(self.materialise(), name)
    def __iter__(self): return iter(self.materialise())
    def __getitem__(self, k): return self.materialise()[k]


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "and", "or", "xor", "eq", "ne", "lt", "le", "gt", "ge", "invert", "neg"):
    def _mkf(nm):
        def f(self, *o): return getattr(self.materialise(), nm)(*o)
        return f
    setattr(FillArr, "__%s__" % _op, _mkf("__%s__" % _op))


def scal(x):
    """0-d / size-1 things to scalar"""
    if isinstance(x, FillArr): x = x.materialise()
    if isinstance(x, SArr):
        if x.size == 1: return x.a.ravel()[0]
        raise ValueError("setting an array element with a sequence.")
    return x


def as_sarr(x):
    if isinstance(x, SArr): return x
    if isinstance(x, FillArr): return x.materialise()
    if is_pd(x): return x.to_sarr()
    return array(x)


def norm_key(self, key, for_set=False):
    """-> (key for the real object array, special result or None)"""
    if isinstance(key, FillArr): key = key.materialise()
    if is_pd(key): key = key.to_sarr()
    if isinstance(key, SymBool):
        key = bool(key)
    if isinstance(key, SymInt):
        if self.ndim == 1 and not for_set:
            return None, sym_index(self, key)
        return int(key), None
    if isinstance(key, SArr):
        if key.dt.kind == "b":
            m = key.a
            if any(isinstance(x, Sym) for x in m.ravel()):
                if for_set: raise Unmodelled("symbolic mask set")
                return None, extract_mask(key, self)
            return m.astype(bool), None
        if key.dt.kind == "O": raise Unmodelled("object index")
        if self.ndim == 1 and not for_set and any(isinstance(x, Sym) for x in key.a.ravel()):
            out = objarr([sym_index(self, x, True) if isinstance(x, Sym) else self.a[int(x)] for x in key.a.ravel()], key.a.shape)
            return None, SArr(out, self.dt)
        if key.dt.kind not in "ui" and key.size: raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return np.array([int(x) for x in key.a.ravel()], dtype=int).reshape(key.a.shape), None
    if isinstance(key, slice):
        def c(v): return int(v) if isinstance(v, (Sym, np.generic)) else v
        if any(isinstance(v, SymInt) for v in (key.start, key.stop)) and not for_set:
            pass
        return slice(c(key.start), c(key.stop), c(key.step)), None
    if isinstance(key, list):
        return norm_key(self, array(key) if len(key) else SArr(objarr([]), I64), for_set)
    if isinstance(key, tuple):
        out = []
        for k in key:
            if isinstance(k, (SymInt, SymBool)): out.append(int(k))
            elif isinstance(k, (SArr, list, FillArr)) or is_pd(k):
                ks = as_sarr(k)
                if ks.dt.kind == "b": out.append(np.array([bool(x) for x in ks.a.ravel()]).reshape(ks.a.shape))
                else: out.append(np.array([int(x) for x in ks.a.ravel()], dtype=int).reshape(ks.a.shape))
            elif isinstance(k, slice):
                out.append(norm_key(self, k, True)[0])
            else: out.append(k)
        return tuple(out), None
    return key, None


def sym_index(self, key, rawval=False):
    n = len(self)
    lo = key.lo if key.lo is not None else -n
    hi = key.hi if key.hi is not None else n - 1
    if key.lo is None or key.lo < -n or key.hi is None or key.hi >= n:
        if Ctx.cur.branch(zb(b_or(cmp_op("ge", key, n), cmp_op("lt", key, -n)))):
            raise IndexError("index out of bounds for axis 0 with size %d" % n)
    cases = [(zb(b_or(cmp_op("eq", key, i), cmp_op("eq", key, i - n) if lo < 0 else False)), self.a[i]) for i in range(n)
             if (lo <= i <= hi) or (lo <= i - n <= hi)]
    v = mk_case(cases)
    return v if rawval else elem(self.dt, v)


def extract_mask(mask, arr):
    """arr[mask] for 1-d arr and symbolic mask: fork on the count only"""
    if mask.ndim != 1: 
        if mask.shape == arr.shape:
            return extract_mask(mask.ravel(), arr.ravel())
        raise Unmodelled("symbolic mask on n-d array")
    if len(mask) != len(arr): raise IndexError("boolean index did not match indexed array along dimension 0; dimension is %d but corresponding boolean dimension is %d" % (len(arr), len(mask)))
    if arr.ndim != 1:
        ix = [i for i in range(len(mask)) if Ctx.cur.branch(zb(as_b(mask.a[i])))]
        return SArr(arr.a[ix], arr.dt)
    sel = select_positions(mask)
    return SArr(objarr([mk_case([(g, arr.a[i]) for i, g in gs]) for gs in sel]), arr.dt)


def select_positions(mask):
    """For a 1-d mask: list over k of [(i, guard that the k-th selected position is i)]; forks on the count."""
    bs = [as_b(x) for x in mask.a.ravel()]
    n = len(bs)
    nsym = sum(1 for b in bs if b is not True and b is not False)
    if nsym == 0 or n > 24:
        ix = [i for i in range(n) if Ctx.cur.branch(zb(bs[i]))]
        return [[(i, True)] for i in ix]
    cnt = count_bits(bs)
    K = int(cnt)
    # prefix counts as one-hot booleans: pre[i][k] <=> exactly k ones among bs[:i]
    pre = [True]
    out = [[] for _ in range(K)]
    cur = [True] + [False] * K
    for i, b in enumerate(bs):
        for k in range(K):
            g = b_and(cur[k], b)
            if g is not False: out[k].append((i, g))
        nxt = [False] * (K + 1)
        for k in range(K + 1):
            nxt[k] = b_or(b_and(cur[k], b_not(b)), b_and(cur[k - 1], b) if k else False)
        # name the one-hot bits to keep terms small
        for k in range(K + 1):
            if nxt[k] is not True and nxt[k] is not False and i > 1:
                v = z3.Bool(Ctx.cur.fresh("pre"))
                Ctx.cur.add(v == nxt[k])
                nxt[k] = v
        cur = nxt
    res = []
    for k in range(K):
        gs = [(i, g) for i, g in out[k] if i >= k and i <= n - (K - k)]
        res.append(gs)
    return res


def count_bits(bs):
    base = sum(1 for b in bs if b is True)
    sy = [b for b in bs if b is not True and b is not False]
    if not sy: return base
    if len(sy) == 1 and base == 0: return int_of_bit(sy[0])
    return SymInt(z3.Sum([z3.If(b, 1, 0) for b in sy] + [z3.IntVal(base)]), None, base, base + len(sy))


def nonzero(x):
    x = as_sarr(x)
    if x.ndim != 1:
        m = np.array([bool(mk_bool(as_b(v))) for v in x.a.ravel()]).reshape(x.shape)
        return tuple(array(i) for i in np.nonzero(m))
    sel = select_positions(x)
    out = []
    for k, gs in enumerate(sel):
        v = mk_case([(g, i) for i, g in gs])
        out.append(with_dt(v, I64) if isinstance(v, Sym) else v)
    return (SArr(objarr(out), I64),)


# ------------------------------------------------------------------ elementwise
def unary(x, f, dt):
    return SArr(objarr([f(v) for v in x.a.ravel()], x.a.shape), dt)


def binary(op, a, b, dt=None):
    if isinstance(a, FillArr): a = a.materialise()
    if isinstance(b, FillArr): b = b.materialise()
    if isinstance(a, (list, tuple, np.ndarray)): a = array(a)
    if isinstance(b, (list, tuple, np.ndarray)): b = array(b)
    if dt is None:
        dt = result_dtype(op, a, b)
    av = a.a if isinstance(a, SArr) else a
    bv = b.a if isinstance(b, SArr) else b
    out = apply2(lambda x, y: el_op(op, x, y, dt), av, bv)
    if not isinstance(out, np.ndarray): return elem(dt, out)
    return SArr(out, dt)


def box(x):
    if isinstance(x, np.ndarray): return x
    t = np.empty((), dtype=object)
    t[()] = x
    return t


def apply2(f, a, b):
    a, b = box(a), box(b)
    try:
        A, B = np.broadcast_arrays(a, b)
    except ValueError:
        raise ValueError("operands could not be broadcast together with shapes %s %s" % (a.shape, b.shape))
    out = [f(x, y) for x, y in zip(A.ravel(), B.ravel())]
    return objarr(out, A.shape)


def el_op(op, x, y, dt):
    if op in CMP:
        if isinstance(x, str) != isinstance(y, str) and not isinstance(x, SymCase) and not isinstance(y, SymCase):
            if op == "eq": return False
            if op == "ne": return True
        return scalar_op(op, x, y, BOOL)
    r = scalar_op(op, x, y, dt)
    if isinstance(r, Sym) and dt.kind != "O" and not isinstance(r, SymCase):
        return cast(r, dt) if (dt.kind == "f") != isinstance(r, SymFloat) or dt_of(r) != dt else r
    if r is NotImplemented: raise TypeError("unsupported operand")
    return conc(r) if dt.kind != "O" else r


def inplace(op, self, o):
    if is_pd(o):
        # ndarray op= Series: numpy hands over to pandas, writing into the array and returning a Series
        sp = S()
        if isinstance(o, sp.SSeries):
            vals = binary(op, self, o.to_sarr())
            self.a[...] = objarr([cast(x, self.dt) for x in vals.a.ravel()], vals.a.shape)
            return sp.SSeries._make(SArr(self.a, self.dt), o.index, o.name)
        return NotImplemented
    if isinstance(o, FillArr): o = o.materialise()
    dt = result_dtype(op, self, o if not isinstance(o, (list, tuple)) else array(o))
    if not np.can_cast(dt, self.dt, "same_kind"):
        raise np.core._exceptions._UFuncOutputCastingError(getattr(np, UF[op]), "same_kind", dt, self.dt, 0)
    r = binary(op, self, o, dt if dt.kind == "f" or np.can_cast(dt, self.dt, "safe") else None)
    rs = as_sarr(r)
    if rs.a.shape != self.a.shape:
        if np.broadcast_shapes(rs.a.shape, self.a.shape) != self.a.shape:
            raise ValueError("non-broadcastable output operand")
    if not self.a.flags.writeable: raise ValueError("output array is read-only")
    self.a[...] = objarr([cast(x, self.dt) for x in rs.a.ravel()], rs.a.shape)
    return self


_bin_methods()


# ------------------------------------------------------------------ reductions
def sum_list(xs, dt):
    """sum in dtype dt (float / int64)"""
    if dt.kind in "bui":
        bs = [bitof(x) for x in xs]
        if all(b is not None for b in bs):
            return count_bits(bs)
        r = 0
        for x in xs: r = scalar_op("add", r, x, I64 if dt.kind != "u" else np.dtype("uint64"))
        return r
    r = 0.0
    for x in xs: r = scalar_op("add", r, x, F64)
    return r


def red1(xs, name, dt, ddof=0):
    """reduce a flat list; returns (value, dtype)"""
    n = len(xs)
    if name == "sum":
        if dt.kind == "O":
            r = 0
            for x in xs: r = scalar_op("add", r, x) if r != 0 or isinstance(r, Sym) else x
            return r, OBJ
        od = F64 if dt.kind == "f" else (np.dtype("uint64") if dt.kind == "u" else I64)
        return sum_list(xs, dt), od
    if name == "prod":
        od = F64 if dt.kind == "f" else I64
        r = 1
        for x in xs: r = scalar_op("mul", r, x, od)
        return r, od
    if name == "any": return mk_bool(b_or(*[as_b(x) for x in xs])), BOOL
    if name == "all": return mk_bool(b_and(*[as_b(x) for x in xs])), BOOL
    if name in ("max", "min"):
        if n == 0: raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
        r = xs[0]
        for x in xs[1:]: r = ext2(name, r, x)
        return r, dt
    if name == "mean":
        if n == 0: return math.nan, F64
        s = sum_list(xs, F64 if dt.kind in "fO" else dt)
        return scalar_op("div", s, n, F64), F64
    if name in ("var", "std"):
        if n - ddof <= 0:
            return math.nan, F64
        m, _ = red1(xs, "mean", dt)
        s = 0.0
        for x in xs:
            d = scalar_op("sub", x, m, F64)
            s = scalar_op("add", s, scalar_op("mul", d, d, F64), F64)
        v = scalar_op("div", s, n - ddof, F64)
        if name == "var": return v, F64
        return f_sqrt(v), F64
    raise Unmodelled("reduction " + name)


def f_sqrt(v):
    if not isinstance(v, Sym):
        v = float(v)
        if v != v: return math.nan
        if v < 0: return math.nan
        if v == math.inf: return v
        r = sqrt_float(v)
        return mk_float(r.r, r.nan, r.pinf, r.ninf)
    r = sqrt_float(v)
    return mk_float(r.r, r.nan, r.pinf, r.ninf)


def ext2(name, a, b):
    """numpy maximum/minimum (NaN propagates)"""
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if isinstance(a, float) and a != a: return a
        if isinstance(b, float) and b != b: return b
        return max(a, b) if name == "max" else min(a, b)
    c = cmp_op("ge" if name == "max" else "le", a, b)
    r = ite(c, a, b)
    if num_kind(a) == 2 or num_kind(b) == 2:
        fa, fb = to_float(a), to_float(b)
        nn = b_or(fa.nan, fb.nan)
        if nn is not False:
            return ite(nn, math.nan, r)
    return r


def s_max2(a, b):
    """python max(a, b)"""
    return ite(as_b(scalar_op("gt", b, a)), b, a)


def s_min2(a, b):
    return ite(as_b(scalar_op("lt", b, a)), b, a)


def reduce_(x, name, axis=None, keepdims=False, ddof=0):
    x = as_sarr(x)
    if axis is None or x.ndim <= 1:
        v, dt = red1(list(x.a.ravel()), name, x.dt, ddof)
        return elem(dt, v)
    if isinstance(axis, tuple): raise Unmodelled("axis tuple")
    axis = axis % x.ndim
    moved = np.moveaxis(x.a, axis, -1)
    shp = moved.shape[:-1]
    rows = moved.reshape((-1, moved.shape[-1])) if moved.size else [moved.reshape(shp + (0,))[i] for i in np.ndindex(*shp)]
    vals = [red1(list(r), name, x.dt, ddof) for r in rows]
    dt = vals[0][1] if vals else x.dt
    out = SArr(objarr([v for v, _ in vals], shp), dt)
    if keepdims: out = SArr(np.expand_dims(out.a, axis), dt)
    return out


def drop_nan(xs):
    """(values with NaN replaced by None-guard, list of not-nan terms)"""
    nn = []
    for x in xs:
        if isinstance(x, Sym):
            if isinstance(x, SymCase): x = to_float(x)
            nn.append(b_not(x.nan) if isinstance(x, SymFloat) else True)
        else:
            nn.append(not (x is None or (isinstance(x, float) and x != x)))
    return nn


def masked_sum(xs, nn):
    s = 0.0
    for x, b in zip(xs, nn):
        if b is False: continue
        if isinstance(x, SymCase): x = merge_float(x)
        if isinstance(x, SymFloat): x = SymFloat(x.r, False, x.pinf, x.ninf)
        s = scalar_op("add", s, ite(b, x, 0.0), F64)
    return s


def nanred(xs, name, ddof=0):
    nn = drop_nan(xs)
    cnt = count_bits(nn)
    s = masked_sum(xs, nn)
    if name == "nansum": return s
    m = scalar_op("div", s, cnt, F64)
    if name == "nanmean":
        if isinstance(m, float) and m != m: return m
        return m
    sq = 0.0
    for x, b in zip(xs, nn):
        if b is False: continue
        if isinstance(x, SymCase): x = merge_float(x)
        if isinstance(x, SymFloat): x = SymFloat(x.r, False, x.pinf, x.ninf)
        mm = SymFloat(m.r, False, m.pinf, m.ninf) if isinstance(m, SymFloat) else m
        d = scalar_op("sub", x, mm, F64)
        sq = scalar_op("add", sq, ite(b, scalar_op("mul", d, d, F64), 0.0), F64)
    den = scalar_op("sub", cnt, ddof)
    if isinstance(den, SymInt):
        v = ite(as_b(scalar_op("le", den, 0)), math.nan, scalar_op("div", sq, den, F64))
    else:
        v = math.nan if den <= 0 else scalar_op("div", sq, den, F64)
    if name == "nanvar": return v
    return f_sqrt(v)


def arg_ext(x, op, axis=None):
    x = as_sarr(x)
    if axis is not None and x.ndim > 1: raise Unmodelled("argmax axis")
    xs = list(x.a.ravel())
    if not xs: raise ValueError("attempt to get argmax of an empty sequence")
    best, bi = xs[0], 0
    for i, v in enumerate(xs[1:], 1):
        if isinstance(best, float) and best != best: break
        if bool(mk_bool(as_b(scalar_op(op, v, best)))):
            best, bi = v, i
    return np.int64(bi)


def argsort(x, *a, **k):
    x = as_sarr(x)
    if x.ndim != 1: raise Unmodelled("argsort nd")
    import functools
    def c(i, j):
        if bool(mk_bool(as_b(scalar_op("lt", x.a[i], x.a[j])))): return -1
        if bool(mk_bool(as_b(scalar_op("lt", x.a[j], x.a[i])))): return 1
        return i - j
    ix = sorted(range(len(x)), key=functools.cmp_to_key(c))
    return SArr(objarr(ix), I64)


def cumsum(x, axis=None):
    x = as_sarr(x)
    od = F64 if x.dt.kind == "f" else I64
    out, r = [], 0
    for v in x.a.ravel():
        r = scalar_op("add", r, v, od)
        out.append(r)
    return SArr(objarr(out), od)


def dot(a, b):
    a, b = as_sarr(a), as_sarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return binary("mul", a, b).sum()
    if a.ndim == 2 and b.ndim == 1:
        dt = result_dtype("mul", a, b)
        return SArr(objarr([sum_list([scalar_op("mul", x, y, dt) for x, y in zip(r, b.a)], dt) for r in a.a]), dt)
    if a.ndim == 1 and b.ndim == 2:
        return dot(b.T, a)
    raise Unmodelled("matmul")


# ------------------------------------------------------------------ array creation
def flat_struct(x):
    """nested sequences -> (flat list, shape)"""
    if isinstance(x, FillArr): x = x.materialise()
    if isinstance(x, SArr): return list(x.a.ravel()), x.a.shape
    if is_pd(x):
        s = x.to_sarr()
        return list(s.a.ravel()), s.a.shape
    if isinstance(x, np.ndarray): return [conc(v) for v in x.ravel()], x.shape
    if isinstance(x, (list, tuple, range)) or (hasattr(x, "__len__") and hasattr(x, "__getitem__") and not isinstance(x, (str, dict, Sym, set, bytes))):
        subs = [flat_struct(v) for v in x]
        if not subs: return [], (0,)
        shp = subs[0][1]
        if any(s[1] != shp for s in subs):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.")
        return [v for s in subs for v in s[0]], (len(subs),) + shp
    return [x], ()


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, FillArr): x = x.materialise()
    if isinstance(x, SArr) and dtype is None:
        return x.copy() if copy else x
    src_dt = None
    if isinstance(x, (SArr, np.ndarray)): src_dt = x.dtype
    elif is_pd(x): src_dt = x.to_sarr().dt
    if isinstance(x, np.ndarray) and x.dtype.kind == "O" and dtype is None: dtype = OBJ
    flat, shape = flat_struct(x)
    dt = np.dtype(dtype) if dtype is not None else (src_dt if src_dt is not None else infer_dtype(flat))
    if dt.kind == "U" and dt.itemsize == 0:
        dt = np.dtype("U%d" % max([1] + [len(str(v)) for v in flat]))
    out = objarr([trunc_u(cast(v, dt), dt) if dt.kind != "O" else v for v in flat], shape)
    while out.ndim < ndmin: out = out[None]
    return SArr(out, dt)


def asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or np.dtype(dtype) == x.dt): return x
    if is_pd(x) and dtype is None: return x.to_sarr()
    return array(x, dtype)


def shape_of(n):
    if isinstance(n, (tuple, list)): return tuple(int(v) for v in n)
    return (int(n),)


def full(n, v, dtype=None, **k):
    dt = np.dtype(dtype) if dtype is not None else infer_dtype([v])
    if isinstance(n, SymInt): return FillArr(n, store(dt, v), dt)
    s = shape_of(n)
    return SArr(objarr([store(dt, v)] * int(np.prod(s)), s), dt)


def zeros(n, dtype=float, **k):
    return full(n, False if np.dtype(dtype).kind == "b" else 0, dtype)


def ones(n, dtype=None, **k):
    return full(n, 1, dtype or float)


def empty(n, dtype=float, **k):
    return zeros(n, dtype)


def zeros_like(x, dtype=None, **k):
    x = as_sarr(x)
    return full(x.shape, 0, dtype or x.dt)


def ones_like(x, dtype=None, **k):
    x = as_sarr(x)
    return full(x.shape, 1, dtype or x.dt)


def full_like(x, v, dtype=None, **k):
    x = as_sarr(x)
    return full(x.shape, v, dtype or x.dt)


def arange(*a, dtype=None, **k):
    return array(np.arange(*[int(v) if isinstance(v, SymInt) else v for v in a], dtype=dtype))


def fromiter(it, dtype, count=-1):
    out = []
    dt = np.dtype(dtype)
    for x in it:
        if isinstance(x, str):
            if has_ph(x): x = ph_get(x)
            else: x = int(x) if dt.kind in "uib" else float(x)
        out.append(cast(x, dt))
    return SArr(objarr(out), dt)


# ------------------------------------------------------------------ module level functions
def _ufunc2(op):
    def f(a, b, out=None, where=True, dtype=None, **k):
        if is_pd(a) or is_pd(b):
            return PYOP[op](a, b)
        if not isinstance(a, (SArr, FillArr, list, tuple, np.ndarray)) and not isinstance(b, (SArr, FillArr, list, tuple, np.ndarray)):
            r = scalar_op(op, np_scalar(a), np_scalar(b))
            return r
        r = binary(op, a, b)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o.a[...] = objarr([cast(v, o.dt) for v in as_sarr(r).a.ravel()], as_sarr(r).a.shape)
            return o
        return r
    return f


def np_scalar(x):
    if isinstance(x, Sym):
        if dt_of(x) is None:
            k = num_kind(x)
            return with_dt(x, (BOOL, I64, F64)[k]) if k is not None else x
        return x
    if isinstance(x, (bool, int, float)): return np.asarray(x)[()]
    return x


def elementwise(f, x, dt):
    """f: raw element -> raw element"""
    if is_pd(x): return x._elementwise(lambda s: elementwise(f, s, dt))
    if isinstance(x, (SArr, FillArr, list, tuple, np.ndarray)):
        x = as_sarr(x)
        d = dt(x.dt) if callable(dt) else dt
        return unary(x, f, d)
    r = f(x)
    d = dt(dt_of(np_scalar(x)) or F64) if callable(dt) else dt
    return elem(d, r)


def el_isnan(v):
    if isinstance(v, SymCase): return mk_bool(b_or(*[b_and(g, as_b(el_isnan(w))) for g, w in v.cases]))
    if isinstance(v, SymFloat): return mk_bool(v.nan)
    if isinstance(v, Sym): return False
    if v is None: return True
    return isinstance(v, (float, np.floating)) and v != v


def el_isfinite(v):
    if isinstance(v, SymFloat): return mk_bool(v.fin)
    if isinstance(v, Sym): return True
    return math.isfinite(v)


def el_isinf(v):
    if isinstance(v, SymFloat): return mk_bool(b_or(v.pinf, v.ninf))
    if isinstance(v, Sym): return False
    return math.isinf(v)


def _chk_num(x):
    if isinstance(x, SArr) and x.dt.kind in "OUS":
        raise TypeError("ufunc not supported for the input types")


def isnan(x, **k):
    if isinstance(x, str): raise TypeError("ufunc 'isnan' not supported for the input types")
    _chk_num(x if not is_pd(x) else x.to_sarr())
    return elementwise(el_isnan, x, BOOL)


def isfinite(x, **k):
    _chk_num(x if not is_pd(x) else x.to_sarr())
    return elementwise(el_isfinite, x, BOOL)


def isinf(x, **k): return elementwise(el_isinf, x, BOOL)


def absolute(x, **k):
    if is_pd(x): return x.abs()
    if isinstance(x, Sym): return s_abs(x)
    if not isinstance(x, (SArr, list, tuple, FillArr)): return np.abs(x)
    x = as_sarr(x)
    return unary(x, s_abs, x.dt)


def sqrt(x, **k):
    return elementwise(f_sqrt, x, F64)


def square(x, **k): return PYOP["mul"](x, x)


def sign(x, **k):
    def f(v):
        if not isinstance(v, Sym): return float(np.sign(v)) if isinstance(v, float) else int(np.sign(v))
        t = mk_case([(zb(cmp_op("gt", v, 0)), 1), (zb(cmp_op("lt", v, 0)), -1), (zb(cmp_op("eq", v, 0)), 0)])
        return to_float(t) if num_kind(v) == 2 else t
    return elementwise(f, x, lambda d: d)


def where(c, *ab):
    if not ab: return nonzero(c)
    a, b = ab
    pdres = None
    cs = as_sarr(c)
    a_, b_ = (as_sarr(v) if isinstance(v, (SArr, FillArr, list, tuple, np.ndarray)) or is_pd(v) else v for v in (a, b))
    if is_str(a_) or is_str(b_):
        dt = np.dtype("U32")
    else:
        ra, rb = rep_for(a_), rep_for(b_)
        dt = np.where(np.zeros(0, dtype=bool), ra if not isinstance(ra, np.ndarray) or ra.ndim else ra, rb).dtype
    av = a_.a if isinstance(a_, SArr) else box(a_)
    bv = b_.a if isinstance(b_, SArr) else box(b_)
    C, A, B = np.broadcast_arrays(cs.a, av, bv)
    out = objarr([store(dt, ite(as_b(x), y, z)) if dt.kind != "U" else ite(as_b(x), str(y), str(z)) for x, y, z in zip(C.ravel(), A.ravel(), B.ravel())], C.shape)
    return SArr(out, dt)


def is_str(x):
    return isinstance(x, str) or (isinstance(x, SArr) and x.dt.kind == "U")


def extract(cond, arr):
    c, a = as_sarr(cond).ravel(), as_sarr(arr).ravel()
    if len(c) != len(a):
        ix = [i for i in range(len(c)) if Ctx.cur.branch(zb(as_b(c.a[i])))]
        for i in ix:
            if i >= len(a): raise IndexError("index %d is out of bounds for axis 0 with size %d" % (i, len(a)))
        return SArr(a.a[ix], a.dt)
    if any(isinstance(x, Sym) for x in c.a):
        return extract_mask(SArr(c.a, BOOL), a)
    return SArr(a.a[[i for i in range(len(c)) if c.a[i]]], a.dt)


def count_nonzero(x, axis=None, **k):
    x = as_sarr(x)
    if axis is not None:
        return reduce_(unary(x, lambda v: mk_bool(as_b(v)), BOOL), "sum", axis)
    return count_bits([as_b(v) for v in x.a.ravel()])


def vstack(xs, **k):
    xs = [as_sarr(x) for x in xs]
    dt = np.result_type(*[x.dt for x in xs]) if not any(x.dt.kind == "O" for x in xs) else OBJ
    return SArr(np.vstack([np.atleast_2d(conv(x, dt)) for x in xs]), dt)


def hstack(xs, **k):
    return concatenate([as_sarr(x) for x in xs], 0 if all(as_sarr(x).ndim == 1 for x in xs) else 1)


def conv(x, dt):
    return x.astype(dt).a if x.dt != dt else x.a


def concatenate(xs, axis=0, **k):
    xs = [as_sarr(x) for x in xs]
    dt = np.result_type(*[x.dt for x in xs]) if not any(x.dt.kind == "O" for x in xs) else OBJ
    return SArr(np.concatenate([conv(x, dt) for x in xs], axis), dt)


def stack(xs, axis=0, **k):
    xs = [as_sarr(x) for x in xs]
    dt = np.result_type(*[x.dt for x in xs])
    return SArr(np.stack([conv(x, dt) for x in xs], axis), dt)


def column_stack(xs): return stack(xs, 1)


def diff(x, n=1, axis=-1, **k):
    x = as_sarr(x)
    for _ in range(n):
        a, b = SArr(x.a[..., 1:], x.dt), SArr(x.a[..., :-1], x.dt)
        x = binary("ne" if x.dt.kind == "b" else "sub", a, b)
    return x


def _red(name):
    def f(x, axis=None, **k):
        if is_pd(x):
            kk = {}
            if axis is not None: kk["axis"] = axis
            return getattr(x, name)(**kk)
        return getattr(as_sarr(x), name)(axis=axis, **{kk: v for kk, v in k.items() if kk in ("ddof", "keepdims")})
    return f


def _nanred(name):
    def f(x, axis=None, ddof=0, **k):
        x = as_sarr(x)
        if x.dt.kind in "US": raise TypeError("cannot perform %s with string" % name)
        if axis is None or x.ndim == 1:
            return elem(F64, nanred(list(x.a.ravel()), name, ddof))
        moved = np.moveaxis(x.a, axis, -1)
        return SArr(objarr([nanred(list(r), name, ddof) for r in moved.reshape(-1, moved.shape[-1])], moved.shape[:-1]), F64)
    return f


def median(x, axis=None, **k):
    """branch-free: sorting network, NaN if any NaN"""
    x = as_sarr(x)
    xs = list(x.a.ravel())
    n = len(xs)
    if n == 0: return elem(F64, math.nan)
    nn = b_and(*drop_nan(xs))
    xs = [cast(v, F64) for v in xs]
    ys = [SymFloat(v.r, False, v.pinf, v.ninf) if isinstance(v, SymFloat) else (0.0 if v != v else v) for v in xs]
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = ys[j], ys[j + 1]
            c = cmp_op("le", a, b)
            ys[j], ys[j + 1] = ite(c, a, b), ite(c, b, a)
    m = ys[n // 2] if n % 2 else scalar_op("div", scalar_op("add", ys[n // 2 - 1], ys[n // 2], F64), 2, F64)
    return elem(F64, ite(nn, m, math.nan))


def maximum(a, b, **k):
    A, B = as_sarr(a), as_sarr(b)
    dt = np.result_type(A.dt, B.dt)
    return SArr(apply2(lambda x, y: ext2("max", x, y), A.a, B.a), dt)


def minimum(a, b, **k):
    A, B = as_sarr(a), as_sarr(b)
    dt = np.result_type(A.dt, B.dt)
    return SArr(apply2(lambda x, y: ext2("min", x, y), A.a, B.a), dt)


def logical(f):
    def g(a, b, **k):
        if is_pd(a) or is_pd(b):
            return PYOP[{"b_and": "and", "b_or": "or", "b_xor": "xor"}[f.__name__]](a, b)
        A, B = as_sarr(a), as_sarr(b)
        return SArr(apply2(lambda x, y: mk_bool(f(as_b(x), as_b(y))), A.a, B.a), BOOL)
    return g


def logical_not(a, **k):
    if is_pd(a): return a._elementwise(logical_not)
    return unary(as_sarr(a), lambda x: mk_bool(b_not(as_b(x))), BOOL)


def array_equal(a, b, **k):
    a, b = as_sarr(a), as_sarr(b)
    if a.shape != b.shape: return False
    return mk_bool(b_and(*[as_b(scalar_op("eq", x, y)) for x, y in zip(a.a.ravel(), b.a.ravel())]))


def close_scalar(a, b, rel, abs_, sym):
    """math.isclose (sym) or numpy.isclose"""
    a, b = cast(a, F64), cast(b, F64)
    tol = scalar_op("mul", s_abs(b), rel, F64)
    if sym:
        ta = scalar_op("mul", s_abs(a), rel, F64)
        tol = ite(cmp_op("le", tol, ta), ta, tol)
        tol = ite(cmp_op("le", tol, abs_), abs_, tol)
    else: tol = scalar_op("add", tol, abs_, F64)
    fa, fb = to_float(a), to_float(b)
    d = s_abs(scalar_op("sub", a, b, F64))
    return mk_bool(b_or(b_and(fa.fin, fb.fin, cmp_op("le", d, tol)), cmp_op("eq", a, b)))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    f = lambda x, y: close_scalar(x, y, rtol, atol, False) if not equal_nan else mk_bool(b_or(as_b(close_scalar(x, y, rtol, atol, False)), b_and(to_float(x).nan, to_float(y).nan)))
    if is_pd(a) or is_pd(b):
        sp = S()
        x = a if is_pd(a) else b
        v = isclose(as_sarr(a.values if is_pd(a) else a), as_sarr(b.values if is_pd(b) else b), rtol, atol, equal_nan)
        return v
    A, B = as_sarr(a), as_sarr(b)
    r = SArr(apply2(f, A.a, B.a), BOOL)
    return r.item() if r.ndim == 0 else r


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return mk_bool(b_and(*[as_b(v) for v in r.a.ravel()])) if isinstance(r, SArr) else r


def isin(x, test, **k):
    x, t = as_sarr(x), as_sarr(test)
    return unary(x, lambda v: mk_bool(b_or(*[as_b(scalar_op("eq", v, w)) for w in t.a.ravel()])), BOOL)


def unique(x, return_counts=False, **k):
    x = as_sarr(x)
    if k: raise Unmodelled("unique options")
    out, cnt = [], []
    for v in x.a.ravel():
        for i, w in enumerate(out):
            if bool(mk_bool(as_b(scalar_op("eq", v, w)))):
                cnt[i] += 1
                break
        else:
            out.append(v); cnt.append(1)
    arr = SArr(objarr(out), x.dt)
    o = [int(i) for i in argsort(arr).a]
    arr = SArr(arr.a[o], x.dt)
    if return_counts: return arr, array([cnt[i] for i in o])
    return arr


def bincount(x, *a, **k):
    x = as_sarr(x)
    xs = [int(v) for v in x.a.ravel()]
    return array(np.bincount(xs))


def packbits(x, *a, **k):
    return fallback("packbits", np.packbits, x, *a, **k)


def shares_memory(a, b):
    return np.shares_memory(a.a, b.a) if isinstance(a, SArr) and isinstance(b, SArr) else False


def conc_arr(x):
    """concretise an SArr to a real ndarray (forks on bool/int, picks values for reals)."""
    out = []
    for v in x.a.ravel():
        out.append(conc_scalar(v))
    if x.dt.kind == "O":
        return objarr(out, x.a.shape)
    return np.array(out, dtype=x.dt).reshape(x.a.shape) if out else np.empty(x.a.shape, dtype=x.dt)


def conc_scalar(v):
    if isinstance(v, SymBool): r = bool(v)
    elif isinstance(v, SymInt): r = int(v)
    elif isinstance(v, SymFloat): r = concretize_float(v)
    elif isinstance(v, SymCase): return conc_scalar(v.resolve())
    elif isinstance(v, str) and has_ph(v):
        return "".join(str(conc_scalar(ph_get(ch))) if has_ph(ch) else ch for ch in v)
    else: return v
    return r if v.dt is None else v.dt.type(r)


def deep_conc(x):
    if isinstance(x, (Sym, str)): return conc_scalar(x)
    if isinstance(x, FillArr): x = x.materialise()
    if isinstance(x, SArr): return conc_arr(x)
    if is_pd(x): return x.to_real()
    if isinstance(x, list): return [deep_conc(v) for v in x]
    if isinstance(x, tuple): return tuple(deep_conc(v) for v in x)
    if isinstance(x, dict): return {deep_conc(k): deep_conc(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)): return type(x)(deep_conc(v) for v in x)
    if hasattr(x, "_s_to_real_"): return x._s_to_real_()
    return x


def deep_wrap(x):
    import pandas as pd
    sp = S()
    if isinstance(x, np.ndarray): return array(x)
    if isinstance(x, pd.DataFrame): return sp.SDataFrame.from_real(x)
    if isinstance(x, pd.Series): return sp.SSeries.from_real(x)
    if isinstance(x, tuple) and type(x) is tuple: return tuple(deep_wrap(v) for v in x)
    if type(x) is list: return [deep_wrap(v) for v in x]
    return x


FALLBACKS = {}


def fallback(name, f, *args, **kw):
    FALLBACKS[name] = FALLBACKS.get(name, 0) + 1
    return deep_wrap(f(*deep_conc(list(args)), **deep_conc(kw)))


def structural(name):
    """functions of numpy which only move elements"""
    f = getattr(np, name)
    def g(x, *a, **k):
        if not isinstance(x, SArr) and not any(isinstance(v, SArr) for v in a):
            if not hasattr(x, "_s_container_") and not (isinstance(x, (list, tuple)) and any(isinstance(v, Sym) or hasattr(v, "_s_container_") for v in x)): return deep_wrap(f(x, *a, **k))
        s = as_sarr(x)
        dt = s.dt
        args = []
        for v in a:
            if isinstance(v, SArr):
                if name in ("append",): dt = result_dtype("add", dt, v.dt) if v.dt != dt else dt; v = v.a
                elif v.dt.kind in "iub": v = conc_arr(v)
                else: raise Unmodelled(name)
            elif isinstance(v, Sym): v = int(v)
            args.append(v)
        r = f(s.a, *args, **k)
        if isinstance(r, list): return [SArr(v, dt) for v in r]
        if not isinstance(r, np.ndarray): return r
        return SArr(r, dt)
    return g


def average(x, axis=None, weights=None, **k):
    x = as_sarr(x)
    if weights is None: return reduce_(x, "mean", axis)
    w = as_sarr(weights)
    if w.ndim != x.ndim: w = SArr(np.broadcast_to(w.a, x.shape) if axis in (-1, x.ndim - 1) else np.broadcast_to(w.a[:, None], x.shape), w.dt)
    t = reduce_(w, "sum", axis)
    if isinstance(t, SArr):
        if any(Ctx.cur.branch(zb(as_b(scalar_op("eq", v, 0)))) for v in t.a.ravel()): raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    elif Ctx.cur.branch(zb(as_b(scalar_op("eq", t, 0)))): raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return reduce_(x * w, "sum", axis) / t


def nanext(name):
    def g(x, axis=None, **k):
        x = as_sarr(x)
        def one(xs):
            r = math.nan
            for v in xs: r = ite(as_b(scalar_op("ne", r, r)), v, ite(as_b(scalar_op("ne", v, v)), r, ext2(name, r, v)))
            return r
        if axis is None or x.ndim == 1: return elem(x.dt, one(list(x.a.ravel())))
        m = np.moveaxis(x.a, axis, -1)
        return SArr(objarr([one(list(r)) for r in m.reshape(-1, m.shape[-1])], m.shape[:-1]), x.dt)
    return g


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def one(v):
        r = ite(as_b(scalar_op("ne", v, v)), nan, v)
        r = ite(as_b(scalar_op("eq", v, math.inf)), np.finfo(float).max if posinf is None else posinf, r)
        return ite(as_b(scalar_op("eq", v, -math.inf)), np.finfo(float).min if neginf is None else neginf, r)
    x = as_sarr(x)
    return unary(x, one, x.dt) if x.dt.kind == "f" else x.copy()


def select(conds, choices, default=0):
    r = full(as_sarr(conds[0]).shape, default)
    for c, v in list(zip(conds, choices))[::-1]: r = where(c, v, r)
    return r


def cumprod(x, axis=None, **k):
    x = as_sarr(x)
    out, od = [], F64 if x.dt.kind == "f" else I64
    for v in x.a.ravel(): out.append(v if not out else scalar_op("mul", out[-1], v, od))
    return SArr(objarr(out), od)


class Module:
    """stand-in for the numpy module"""

    def __init__(self, env=None):
        for k, v in UF.items():
            setattr(self, v, _ufunc2(k))
        self.divide = self.true_divide
        self.mod = self.remainder
        for nm in "sum any all max min mean prod std var".split():
            setattr(self, nm, _red(nm))
        self.amax, self.amin = self.max, self.min
        for nm in "nanmean nanstd nanvar nansum".split():
            setattr(self, nm, _nanred(nm))
        self.logical_and, self.logical_or, self.logical_xor = logical(b_and), logical(b_or), logical(b_xor)
        for nm in ("array asarray zeros ones empty full zeros_like ones_like full_like arange fromiter isnan isfinite isinf "
                   "absolute sqrt square sign where extract count_nonzero vstack hstack concatenate stack column_stack diff "
                   "median maximum minimum logical_not array_equal isin unique bincount packbits shares_memory nonzero argsort cumsum dot isclose allclose").split():
            setattr(self, nm, globals()[nm])
        self.abs = absolute
        self.fabs = absolute
        self.row_stack = vstack
        self.asanyarray = asarray
        self.ascontiguousarray = asarray
        self.copy = lambda x: as_sarr(x).copy()
        self.invert = lambda x: ~x if not isinstance(x, SArr) else ~x
        self.bitwise_not = self.invert
        self.negative = lambda x: -x
        self.argmax = lambda x, axis=None: arg_ext(x, "gt", axis)
        self.argmin = lambda x, axis=None: arg_ext(x, "lt", axis)
        self.squeeze = lambda x: as_sarr(x).squeeze()
        self.ravel = lambda x: as_sarr(x).ravel()
        self.flatnonzero = lambda x: nonzero(as_sarr(x).ravel())[0]
        self.sort = lambda x, *a, **k: (lambda s: SArr(s.a[[int(i) for i in argsort(s).a]], s.dt))(as_sarr(x))
        self.float64 = np.float64
        self._env = env
        for nm in ("tile repeat flip flipud fliplr roll append delete insert expand_dims transpose swapaxes moveaxis reshape atleast_1d atleast_2d take rollaxis broadcast_to split array_split dstack").split():
            setattr(self, nm, structural(nm))
        for nm in ("average", "nan_to_num", "select", "cumprod"): setattr(self, nm, globals()[nm])
        self.nanmax, self.nanmin = nanext("max"), nanext("min")
        self.clip = lambda x, lo=None, hi=None, **k: (lambda y: y if hi is None else minimum(y, hi))(x if lo is None else maximum(x, lo))
        self.in1d = isin
        self.isposinf = lambda x: self.equal(x, math.inf)
        self.isneginf = lambda x: self.equal(x, -math.inf)
        self.argwhere = lambda x: self.transpose(vstack(list(nonzero(x))))
        self.ptp = lambda x, axis=None: reduce_(x, "max", axis) - reduce_(x, "min", axis)
        self.compress = lambda c, x, **k: extract(c, x)
        for p in ("logical_and", "logical_or", "logical_xor", "add", "multiply", "minimum", "maximum", "bitwise_or", "bitwise_and", "bitwise_xor"):
            fn = getattr(self, p)
            def red(x, axis=0, dtype=None, initial=None, fn=fn, p=p, **k):
                import functools
                if k: raise Unmodelled(p + ".reduce options")
                if not isinstance(x, (list, tuple)) or axis != 0:
                    s = as_sarr(x)
                    if axis is None: s = s.ravel()
                    elif axis % max(s.ndim, 1): s = SArr(np.moveaxis(s.a, axis, 0), s.dt)
                    x = list(s)
                if initial is not None: x = [initial] + list(x)
                if len(x) == 1 and p.startswith("logical"): x = list(x) * 2 if p != "logical_xor" else [False] + list(x)
                if not len(x):
                    if p in ("minimum", "maximum"): raise ValueError("zero-size array to reduction operation %s which has no identity" % p)
                    return {"logical_and": True, "logical_or": False, "logical_xor": False, "add": 0, "multiply": 1, "bitwise_or": 0, "bitwise_and": -1, "bitwise_xor": 0}[p]
                return functools.reduce(fn, x)
            fn.reduce = red
        if env is not None:
            self.save = env.np_save
            self.load = env.np_load

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, type) or not callable(v) or name in ("dtype", "issubdtype", "finfo", "iinfo", "errstate", "can_cast", "result_type"):
            return v
        def f(*a, **k):
            return fallback("numpy." + name, v, *a, **k)
        return f


def unique_order(x):
    """values in order of appearance (pandas unique)"""
    out = []
    for v in x.a.ravel():
        if not any(bool(mk_bool(as_b(scalar_op("eq", v, w)))) for w in out):
            out.append(v)
    return SArr(objarr(out), x.dt)
