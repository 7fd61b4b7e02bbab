"""Symbolic bitarray."""
from . import core
import bitarray as _real
from .core import *


class SBitarray:
    _s_container_ = False

    def __init__(self, x=None, endian=None, **k):
        if x is None: self.b = []
        elif isinstance(x, SBitarray): self.b = list(x.b)
        elif isinstance(x, str):
            self.b = []
            for ch in x:
                if has_ph(ch):
                    v = ph_get(ch)
                    bt = bitof(v)
                    if bt is None:
                        if not Ctx.cur.branch(zb(b_or(cmp_op("eq", v, 0), cmp_op("eq", v, 1)))):
                            raise ValueError("expected '0' or '1'")
                        bt = as_b(v)
                    self.b.append(bt)
                elif ch in "01": self.b.append(ch == "1")
                elif ch in " \n\t_": pass
                else: raise ValueError("expected '0' or '1' (or whitespace, or underscore), got %r" % ch)
        elif isinstance(x, (int, SymInt)) and not isinstance(x, bool): self.b = [False] * int(x)
        else:
            self.b = []
            for v in x:
                if isinstance(v, (SymFloat, float)) and not isinstance(v, bool):
                    raise TypeError("an integer is required (got type float)")
                if isinstance(v, Sym):
                    bt = bitof(v)
                    if bt is None:
                        if not Ctx.cur.branch(zb(b_or(cmp_op("eq", v, 0), cmp_op("eq", v, 1)))):
                            raise ValueError("bit must be 0 or 1")
                        bt = as_b(v)
                else:
                    if int(v) not in (0, 1): raise ValueError("bit must be 0 or 1, got %d" % v)
                    bt = bool(v)
                self.b.append(bt)

    @classmethod
    def _mk(cls, b):
        r = cls(); r.b = list(b); return r

    def __len__(self): return len(self.b)
    def _v(self, t): return int_of_bit(t)
    def __iter__(self): return iter([self._v(t) for t in self.b])
    def __getitem__(self, k):
        if isinstance(k, slice): return SBitarray._mk(self.b[k])
        return self._v(self.b[int(k)])
    def __setitem__(self, k, v):
        if isinstance(k, slice):
            if isinstance(v, SBitarray): self.b[k] = v.b
            else: self.b[k] = [as_b(v)] * len(self.b[k])
        else: self.b[int(k)] = as_b(v)
    def __delitem__(self, k): del self.b[k]
    def tolist(self): return [self._v(t) for t in self.b]
    def to01(self):
        return "".join("1" if t is True else "0" if t is False else num_to_str(int_of_bit(t)) for t in self.b)
    def __str__(self): return "bitarray('%s')" % self.to01() if self.b else "bitarray()"
    __repr__ = __str__
    def count(self, v=1, *a):
        if a: return SBitarray._mk(self.b[slice(*a)]).count(v)
        from .snp import count_bits
        return count_bits(self.b if v else [b_not(t) for t in self.b])
    def any(self): return mk_bool(b_or(*self.b))
    def all(self): return mk_bool(b_and(*self.b))
    def copy(self): return SBitarray._mk(self.b)
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()
    def append(self, v): self.b.append(as_b(v))
    def extend(self, x): self.b.extend(SBitarray(x).b)
    def reverse(self): self.b.reverse()
    def invert(self, *a):
        if a: self.b[int(a[0])] = b_not(self.b[int(a[0])])
        else: self.b = [b_not(t) for t in self.b]
    def setall(self, v): self.b = [as_b(v)] * len(self.b)
    def __invert__(self): return SBitarray._mk([b_not(t) for t in self.b])
    def _bin(self, o, f):
        if not isinstance(o, SBitarray): raise TypeError("bitarray expected for bitwise operation")
        if len(o) != len(self): raise ValueError("bitarrays of equal length expected for bitwise operation")
        return SBitarray._mk([f(x, y) for x, y in zip(self.b, o.b)])
    def __and__(self, o): return self._bin(o, b_and)
    def __or__(self, o): return self._bin(o, b_or)
    def __xor__(self, o): return self._bin(o, b_xor)
    def __iand__(self, o): self.b = self._bin(o, b_and).b; return self
    def __ior__(self, o): self.b = self._bin(o, b_or).b; return self
    def __ixor__(self, o): self.b = self._bin(o, b_xor).b; return self
    def __add__(self, o): return SBitarray._mk(self.b + SBitarray(o).b)
    def __iadd__(self, o): self.b = self.b + SBitarray(o).b; return self
    def __mul__(self, n): return SBitarray._mk(self.b * int(n))
    def __eq__(self, o):
        if not isinstance(o, SBitarray): return False
        if len(o) != len(self): return False
        return mk_bool(b_and(*[b_iff(x, y) for x, y in zip(self.b, o.b)]))
    def __ne__(self, o):
        r = self == o
        return mk_bool(b_not(as_b(r)))
    def __hash__(self): raise TypeError("unhashable type: 'bitarray'")
    def __bool__(self): return bool(self.b)
    def index(self, v, *a):
        for i, t in enumerate(self.b):
            if Ctx.cur.branch(zb(t if v else b_not(t))): return i
        raise ValueError("%s not in bitarray" % v)
    find = index
    def nbytes(self): return (len(self.b) + 7) // 8
    def __contains__(self, v):
        if isinstance(v, SBitarray): raise Unmodelled("bitarray search")
        return Ctx.cur.branch(zb(b_or(*[t if v else b_not(t) for t in self.b])))

    def _s_to_real_(self):
        return _real.bitarray([bool(mk_bool(t)) for t in self.b])

    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        if not hasattr(_real.bitarray, name): raise AttributeError("'bitarray.bitarray' object has no attribute %r" % name)
        def f(*a, **k):
            from . import snp
            return snp.fallback("bitarray." + name, lambda x, *aa, **kk: getattr(x, name)(*aa, **kk), self, *a, **k)
        return f


class Module:
    bitarray = SBitarray
    def __getattr__(self, n): return getattr(_real, n)
