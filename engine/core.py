"""Symbolic values and path exploration.

Values
  SymBool   z3 Bool
  SymInt    z3 Int, with an interval [lo, hi] when known, and the Bool behind it when it is a 0/1 value
  SymFloat  extended real: z3 Real + NaN / +inf / -inf flags.  Arithmetic is exact (no rounding).
  SymCase   guarded union of values of different Python types (for instance "zero" or a number)
A symbolic value carries `dt`: None for a Python scalar, a numpy dtype for a numpy scalar.

Exploration is by re-execution: `SymBool.__bool__` asks the solver which outcomes are feasible and schedules the others.
"""
import sys, os, time, signal, math, operator, itertools
from fractions import Fraction
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
import z3
import numpy as np


# ------------------------------------------------------------------ z3py without its per-call checks (the terms built here are well sorted)
def _direct():
    import z3.z3 as zz
    from z3 import z3core
    raw = lambda name: getattr(z3core, name).__defaults__[0].f       # the library function under the checking wrapper
    zz.Z3_DEBUG = False
    for f in ("Z3_inc_ref", "Z3_dec_ref", "Z3_get_sort", "Z3_is_eq_ast", "Z3_is_eq_sort", "Z3_get_ast_kind", "Z3_get_sort_kind", "Z3_get_ast_id", "Z3_is_finite_set_sort",
              "Z3_get_app_decl", "Z3_get_decl_kind", "Z3_get_app_num_args", "Z3_get_app_arg", "Z3_is_algebraic_number", "Z3_is_app", "Z3_to_app"):
        if hasattr(zz, f): setattr(zz, f, raw(f))
    ctx = z3.main_ctx()
    ref = ctx.ref()
    Ast, Bool = z3core.Ast, z3.BoolRef
    mk_and, mk_or, mk_not = raw("Z3_mk_and"), raw("Z3_mk_or"), raw("Z3_mk_not")
    arrays = {}
    def nary(mk):
        def f(xs):
            n = len(xs)
            t = arrays.get(n)
            if t is None: t = arrays[n] = Ast * n
            return Bool(mk(ref, n, t(*[x.ast for x in xs])), ctx)
        return f
    def not_(x):
        r = Bool(mk_not(ref, x.ast), ctx)
        r._neg = x
        return r
    return nary(mk_and), nary(mk_or), not_


try:
    _and, _or, _not = _direct()
    assert _not(_and([z3.BoolVal(True), _or([z3.BoolVal(False), z3.Bool("p")])])).sexpr() == "(not (and true (or false p)))"
except Exception:        # another z3py: use its public interface
    _and, _or, _not = (lambda xs: z3.And(*xs)), (lambda xs: z3.Or(*xs)), z3.Not


class PathAbort(BaseException):
    """The path is infeasible (an assumption failed)."""


class PathTimeout(BaseException):
    pass


class PathUnknown(BaseException):
    """Solver answered unknown while deciding a branch."""


class Unmodelled(BaseException):
    """The engine met something it cannot represent."""


class TooManyForks(BaseException):
    pass


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


# ------------------------------------------------------------------ booleans with constant folding
def b_not(a):
    if a is True: return False
    if a is False: return True
    n = a.__dict__.get("_neg")
    return _not(a) if n is None else n


def b_and(*xs):
    out = []
    for x in xs:
        if x is False: return False
        if x is True: continue
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return _and(out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return _or(out)


def b_xor(a, b):
    if a is False: return b
    if b is False: return a
    if a is True: return b_not(b)
    if b is True: return b_not(a)
    return z3.Xor(a, b)


def b_iff(a, b):
    return b_not(b_xor(a, b))


def b_ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if a is True: return b_or(c, b)
    if a is False: return b_and(b_not(c), b)
    if b is True: return b_or(b_not(c), a)
    if b is False: return b_and(c, a)
    return z3.If(c, a, b)


def zb(x):
    if x is True: return TRUE
    if x is False: return FALSE
    return x


# ------------------------------------------------------------------ context
class Ctx:
    cur = None

    def __init__(self, timeout_ms=4000, max_forks=4000):
        self.timeout_ms = timeout_ms
        self.stats = dict(paths=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, forks=0, aborted=0)
        self.max_forks = max_forks

    # -- path control
    def start(self, prefix):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.model = None
        self.asserts = []
        self.names = {}
        self.fresh_n = 0
        self.incomplete = []
        self.ph = {}
        self.ph_rev = {}
        self.sqrt_cache = []
        self.lazy = []           # axioms of square roots, asserted when a condition depends on them
        self.lazy_on = False
        self._sq = {}
        self.canon_strings = False
        self.keep = []
        self.nforks = 0
        self.functions = set()

    def _check(self, *extra):
        t = time.time()
        self.stats["queries"] += 1
        try:
            r = self.solver.check(*extra)
        except z3.Z3Exception:
            r = z3.unknown
        self.stats["solver_s"] += time.time() - t
        self.stats[str(r)] += 1
        return r

    def needs_lazy(self, c):
        """c depends on a square root whose axioms are not asserted yet"""
        return bool(self.lazy) and not self.lazy_on and z3.is_expr(c) and mentions_sqrt(c, self._sq)

    def activate(self):
        self.lazy_on = True
        self.model = None
        for a in self.lazy:
            self.asserts.append(a)
            self.solver.add(a)

    def add(self, c):
        if self.lazy and not self.lazy_on and self.needs_lazy(c): self.activate()
        self._add(c)

    def _add(self, c):
        if c is True: return
        if c is False:
            raise PathAbort()
        self.asserts.append(c)
        self.solver.add(c)
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                m = self._hard_check()
                if m is None:
                    raise PathUnknown()
                self.model = m
            else:
                self.model = self.solver.model()
        return self.model

    def _hard_check(self, *extra):
        """Retry with a fresh non-incremental solver. Returns a model, or None for unknown; raises PathAbort on unsat."""
        r, m = solve_fresh(self.asserts + list(extra), 4 * self.timeout_ms, self.stats)
        if r == z3.unsat:
            raise PathAbort()
        return m

    def feasible(self, c):
        """True / False / None(unknown) for path /\\ c."""
        if c is True: return True
        if c is False: return False
        m = self.model
        if m is not None and z3.is_true(m.eval(c, model_completion=True)):
            return True
        r = self._check(c)
        if r == z3.sat:
            return True
        if r == z3.unsat:
            return False
        r, _ = solve_fresh(self.asserts + [c], 4 * self.timeout_ms, self.stats)
        return True if r == z3.sat else False if r == z3.unsat else None

    def branch(self, c):
        if c is True or c is False: return c
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.lazy and not self.lazy_on and self.needs_lazy(c): self.activate()
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.trace.append(d)
            if d[1]:            # constraint was not implied
                self.add(c if d[0] else b_not(c))
            return d[0]
        self.nforks += 1
        if self.nforks > self.max_forks:
            raise TooManyForks()
        self.ensure_model()
        v = z3.is_true(self.model.eval(c, model_completion=True))
        other = b_not(c) if v else c
        f = None
        r = self._check(other)
        if r == z3.sat:
            f = True
        elif r == z3.unsat:
            f = False
        else:
            rr, _ = solve_fresh(self.asserts + [other], 4 * self.timeout_ms, self.stats)
            f = True if rr == z3.sat else False if rr == z3.unsat else None
        if f is False:
            self.trace.append((v, False))
            return v
        if f is None:
            # unknown side: keep exploring the known side, remember the path set is incomplete
            self.incomplete.append("branch feasibility unknown")
            self.trace.append((v, True))
            self.add(c if v else b_not(c))
            return v
        self.stats["forks"] += 1
        self.pending.append(self.trace + [(not v, True)])
        self.trace.append((v, True))
        self.add(c if v else b_not(c))
        return v

    def choose(self, term, cands):
        """Concretise an integer term exhaustively: fork on term == candidate."""
        cands = list(cands)
        for c in cands[:-1]:
            if self.branch(term == c):
                return c
        return cands[-1]

    def concretize_int(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(5000):
            k = len(self.trace)
            if k < len(self.prefix):
                # value encoded as ("v", value) on the trace
                d = self.prefix[k]
                self.trace.append(d)
                val = d[2]
                if d[1]:
                    self.add(t == val if d[0] else t != val)
                if d[0]:
                    return val
                continue
            self.nforks += 1
            if self.nforks > self.max_forks:
                raise TooManyForks()
            m = self.ensure_model()
            val = m.eval(t, model_completion=True).as_long()
            r = self._check(t != val)
            if r == z3.unsat:
                self.trace.append((True, False, val))
                return val
            if r == z3.unknown:
                self.incomplete.append("value enumeration unknown")
            else:
                self.stats["forks"] += 1
                self.pending.append(self.trace + [(False, True, val)])
            self.trace.append((True, True, val))
            self.add(t == val)
            return val
        raise TooManyForks()

    def fresh(self, base):
        self.fresh_n += 1
        return "%s!%d" % (base, self.fresh_n)


def mentions_sqrt(t, memo):
    """memo: ids are stable while the context keeps the terms alive"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("sqrt!"): return True
        else: stack.extend(x.children())
    return False


def dag_size(t, limit):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if len(seen) > limit: return len(seen)
        stack.extend(x.children())
    return len(seen)


def som(t):
    """polynomial normal form (sum of monomials) of a real term, if it is not too big"""
    t = z3.simplify(t)
    if z3.is_rational_value(t) or z3.is_const(t): return t
    if dag_size(t, 1500) > 1500: return t
    return z3.simplify(t, som=True)


def solve_fresh(asserts, timeout_ms, stats=None):
    mks = (lambda: z3.Solver(), lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver(),
           lambda: z3.SolverFor("QF_NRA"))
    for tmo in ([600] if timeout_ms > 600 else []) + [timeout_ms]:
        for mk in mks:
            try:
                s = mk()
                s.set("timeout", tmo)
                s.add(*[zb(a) for a in asserts])
                t = time.time()
                r = s.check()
                if stats is not None:
                    stats["queries"] += 1
                    stats["solver_s"] += time.time() - t
                    stats[str(r)] += 1
                if r == z3.sat:
                    return r, s.model()
                if r == z3.unsat:
                    return r, None
            except z3.Z3Exception:
                continue
    return z3.unknown, None


def ctx():
    return Ctx.cur


# ------------------------------------------------------------------ rational reading of floats
_frac_cache = {}


def frac(x):
    """The rational a finite float stands for: the simplest fraction (denominator <= 10^6) rounding to it, else its value."""
    if isinstance(x, (bool, np.bool_)): return Fraction(int(x))
    if isinstance(x, (int, np.integer)): return Fraction(int(x))
    if isinstance(x, Fraction): return x
    x = float(x)
    f = _frac_cache.get(x)
    if f is None:
        f = Fraction(x).limit_denominator(1000000)
        if float(f) != x:
            f = Fraction(x)
        _frac_cache[x] = f
    return f


def rv(x):
    f = frac(x)
    return z3.RealVal(f.numerator) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1e9


def conc(x):
    """numpy scalar -> python scalar"""
    if isinstance(x, np.generic):
        return x.item()
    return x


def dt_of(x):
    if isinstance(x, Sym): return x.dt
    if isinstance(x, np.generic): return x.dtype
    return None


def with_dt(x, dt):
    """Give scalar x the (numpy) type dt (None: python scalar)."""
    if isinstance(x, SymBool):
        return x if x.dt == dt else SymBool(x.t, dt)
    if isinstance(x, SymInt):
        if dt is not None and dt.kind == "f":
            return to_float(x).with_dt(dt)
        return x if x.dt == dt else SymInt(x.t, dt, x.lo, x.hi, x.bit, x.bits)
    if isinstance(x, SymFloat):
        return x.with_dt(dt)
    if isinstance(x, SymCase):
        return x
    if dt is None or dt.kind == "O":
        return conc(x)
    if dt.kind in "US":
        return np.str_(x)
    if isinstance(x, Fraction):
        x = float(x)
    if isinstance(x, (int, float, bool, np.generic)):
        return dt.type(x)
    return x


class SymBool(Sym):
    __slots__ = ("t", "dt")

    def __init__(self, t, dt=None):
        self.t = t
        self.dt = dt

    def __bool__(self):
        return Ctx.cur.branch(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return str(bool(self))
    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def item(self):
        return mk_bool(self.t)

    def astype(self, t):
        return cast(self, np.dtype(t))

    @property
    def dtype(self): return self.dt

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def _bin(self, other, op, rev=False):
        return scalar_op(op, other, self) if rev else scalar_op(op, self, other)


def mk_bool(t, dt=None):
    if t is True or t is False:
        return t if dt is None else np.bool_(t)
    if z3.is_true(t): return mk_bool(True, dt)
    if z3.is_false(t): return mk_bool(False, dt)
    return SymBool(t, dt)


def as_b(x):
    """python/numpy/sym scalar -> boolean term (truthiness)."""
    if isinstance(x, SymBool): return x.t
    if isinstance(x, SymInt):
        if x.bit is not None: return x.bit
        if x.lo is not None and x.lo > 0: return True
        return x.t != 0
    if isinstance(x, SymFloat):
        return b_or(x.nan, x.pinf, x.ninf, x.r != 0)
    if isinstance(x, SymCase):
        return b_or(*[b_and(g, as_b(v)) for g, v in x.cases])
    return bool(x)


class SymInt(Sym):
    __slots__ = ("t", "dt", "lo", "hi", "bit", "bits")

    def __init__(self, t, dt=None, lo=None, hi=None, bit=None, bits=None):
        self.t, self.dt, self.lo, self.hi, self.bit, self.bits = t, dt, lo, hi, bit, bits

    def __index__(self):
        if self.bit is not None:
            return 1 if Ctx.cur.branch(self.bit) else 0
        return Ctx.cur.concretize_int(self.t)
    __int__ = __index__

    def __float__(self):
        return float(int(self))

    def __bool__(self):
        return Ctx.cur.branch(as_b(self))

    def __hash__(self):
        if Ctx.cur.canon_strings: return 1234567      # same as symbolic floats; the equality test decides
        return hash(int(self))

    def __repr__(self):
        return num_to_str(self)
    __str__ = __repr__

    def __format__(self, spec):
        if spec in ("", "d"): return num_to_str(self)
        return format(int(self), spec)

    def item(self):
        return with_dt(self, None)

    def tolist(self):
        return with_dt(self, None)

    def astype(self, t):
        return cast(self, np.dtype(t))

    def bit_length(self):
        return int(self).bit_length()

    @property
    def dtype(self): return self.dt

    @property
    def shape(self): return ()

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def get_bits(self):
        """Binary digits, most significant first, as boolean terms (value assumed >= 0)."""
        if self.bits is not None: return self.bits
        if self.bit is not None: return [self.bit]
        hi = self.hi
        if hi is None:
            hi = 1
            while Ctx.cur.feasible(self.t > hi) is not False:
                hi = hi * 2 + 1
                if hi > 2 ** 70: raise Unmodelled("unbounded integer bits")
        n = max(1, hi.bit_length())
        bs = [z3.Bool(Ctx.cur.fresh("bit")) for _ in range(n)]
        Ctx.cur.add(self.t == z3.Sum([z3.If(b, 2 ** (n - 1 - i), 0) for i, b in enumerate(bs)]))
        self.bits = bs
        return bs


def mk_int(t, dt=None, lo=None, hi=None, bit=None, bits=None):
    if isinstance(t, (int, np.integer)):
        return int(t) if dt is None else dt.type(t)
    if z3.is_int_value(t):
        return mk_int(t.as_long(), dt)
    if lo is not None and lo == hi:
        return mk_int(lo, dt)
    return SymInt(t, dt, lo, hi, bit, bits)


def int_of_bit(b, dt=None):
    if b is True or b is False:
        return mk_int(int(b), dt)
    return SymInt(z3.If(b, 1, 0), dt, 0, 1, b)


def int_of_bits(bits, dt=None):
    """MSB first"""
    n = len(bits)
    if all(b is True or b is False for b in bits):
        v = 0
        for b in bits: v = 2 * v + int(b)
        return mk_int(v, dt)
    lo = hi = 0
    ts = []
    for i, b in enumerate(bits):
        w = 2 ** (n - 1 - i)
        if b is True: lo += w; hi += w; ts.append(z3.IntVal(w))
        elif b is False: pass
        else: hi += w; ts.append(z3.If(b, z3.IntVal(w), z3.IntVal(0)))
    bit = None
    if n and all(b is False for b in bits[:-1]):
        bit = bits[-1]
    return SymInt(z3.Sum(ts), dt, lo, hi, bit, list(bits))


F64 = np.dtype("float64")
I64 = np.dtype("int64")
BOOL = np.dtype("bool")
OBJ = np.dtype("O")
U8 = np.dtype("uint8")


class SymFloat(Sym):
    __slots__ = ("r", "nan", "pinf", "ninf", "dt", "src")

    def __init__(self, r, nan=False, pinf=False, ninf=False, dt=None, src=None):
        self.r, self.nan, self.pinf, self.ninf, self.dt, self.src = r, nan, pinf, ninf, dt, src

    def with_dt(self, dt):
        if dt is not None and dt.kind == "O": dt = None
        return self if self.dt == dt else SymFloat(self.r, self.nan, self.pinf, self.ninf, dt, self.src)

    def __bool__(self):
        return Ctx.cur.branch(as_b(self))

    def __float__(self):
        return concretize_float(self)

    def __int__(self):
        return int(cast_int(self))

    def __trunc__(self):
        return int(cast_int(self))

    def __hash__(self):
        return 1234567

    def __repr__(self):
        return num_to_str(self)
    __str__ = __repr__

    def __format__(self, spec):
        if spec == "": return num_to_str(self)
        return format(concretize_float(self), spec)

    def item(self):
        return self.with_dt(None)

    def tolist(self):
        return self.with_dt(None)

    def astype(self, t):
        return cast(self, np.dtype(t))

    @property
    def dtype(self): return self.dt

    @property
    def shape(self): return ()

    def is_integer(self):
        return mk_bool(b_and(b_not(b_or(self.nan, self.pinf, self.ninf)), z3.IsInt(self.r)))

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    @property
    def fin(self):
        return b_not(b_or(self.nan, self.pinf, self.ninf))


def mk_float(r, nan=False, pinf=False, ninf=False, dt=None, src=None):
    if nan is True: return math.nan if dt is None else dt.type(math.nan)
    if pinf is True: return math.inf if dt is None else dt.type(math.inf)
    if ninf is True: return -math.inf if dt is None else dt.type(-math.inf)
    if nan is False and pinf is False and ninf is False and z3.is_rational_value(r):
        v = float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
        return v if dt is None else dt.type(v)
    return SymFloat(r, nan, pinf, ninf, dt, src)


ZERO, ONE = z3.RealVal(0), z3.RealVal(1)


def to_float(x):
    """scalar -> SymFloat (always symbolic form, possibly with constant terms)."""
    if isinstance(x, SymFloat): return x
    if isinstance(x, SymInt):
        if x.bit is not None:
            return SymFloat(z3.If(x.bit, ONE, ZERO), dt=x.dt, src=x)
        return SymFloat(z3.ToReal(x.t), dt=x.dt, src=x)
    if isinstance(x, SymBool):
        return SymFloat(z3.If(x.t, ONE, ZERO), dt=x.dt, src=int_of_bit(x.t))
    if isinstance(x, SymCase):
        return merge_float(x)
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return SymFloat(z3.RealVal(int(x)))
    if isinstance(x, Fraction):
        return SymFloat(rv(x))
    if x is None:
        return SymFloat(ZERO, nan=True)
    if isinstance(x, (float, np.floating)):
        v = float(x)
        if math.isnan(v): return SymFloat(ZERO, nan=True)
        if v == math.inf: return SymFloat(ZERO, pinf=True)
        if v == -math.inf: return SymFloat(ZERO, ninf=True)
        return SymFloat(rv(v))
    raise TypeError("unsupported operand type for float arithmetic: %s" % type(x).__name__)


def r_ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b or a.eq(b): return a
    if z3.is_eq(c):              # x == v ? v : x
        p, q = c.children()
        if p.sort() == a.sort() and ((p.eq(b) and q.eq(a)) or (q.eq(b) and p.eq(a))): return b
    elif z3.is_not(c) and z3.is_eq(c.arg(0)):
        p, q = c.arg(0).children()
        if p.sort() == a.sort() and ((p.eq(b) and q.eq(a)) or (q.eq(b) and p.eq(a))): return a
    return z3.If(c, a, b)


def f_ite(c, a, b):
    """ITE on numeric scalars -> SymFloat"""
    a, b = to_float(a), to_float(b)
    return SymFloat(r_ite(c, a.r, b.r), b_ite(c, a.nan, b.nan), b_ite(c, a.pinf, b.pinf), b_ite(c, a.ninf, b.ninf))


class SymCase(Sym):
    """Guarded union: [(guard term, value)], guards exclusive and exhaustive."""
    __slots__ = ("cases",)
    dt = None

    def __init__(self, cases):
        self.cases = cases

    def resolve(self):
        for g, v in self.cases[:-1]:
            if Ctx.cur.branch(g): return v
        return self.cases[-1][1]

    def __bool__(self): return Ctx.cur.branch(as_b(self))
    def __hash__(self): return hash(self.resolve())
    def __repr__(self): return repr(self.resolve())
    def __str__(self): return str(self.resolve())
    def __format__(self, s): return format(self.resolve(), s)
    def __float__(self): return float(self.resolve())
    def __int__(self): return int(self.resolve())
    def __index__(self): return operator.index(self.resolve())
    def __len__(self): return len(self.resolve())
    def __iter__(self): return iter(self.resolve())
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def is_num(x):
    return isinstance(x, (SymBool, SymInt, SymFloat, int, float, np.generic, bool)) and not isinstance(x, np.str_)


def mk_case(cases):
    """Build the simplest value for guarded cases."""
    flat = []
    for g, v in cases:
        if g is False: continue
        if isinstance(v, SymCase):
            for g2, v2 in v.cases:
                gg = b_and(g, g2)
                if gg is not False: flat.append((gg, v2))
        else:
            flat.append((g, v))
    for g, v in flat:
        if g is True: return v
    # group equal constants
    groups = []
    for g, v in flat:
        for i, (g0, v0) in enumerate(groups):
            if v0 is v or (not isinstance(v, Sym) and not isinstance(v0, Sym) and type(v) == type(v0) and
                           (v == v0 or (isinstance(v, float) and v != v and v0 != v0))):
                groups[i] = (b_or(g0, g), v0)
                break
        else:
            groups.append((g, v))
    if not groups: raise PathAbort()
    if len(groups) == 1: return groups[0][1]
    if all(is_num(v) for _, v in groups):
        dts = {str(dt_of(v)) for _, v in groups}
        dt = dt_of(groups[0][1]) if len(dts) == 1 else None
        if all(isinstance(v, (SymBool, bool, np.bool_)) for _, v in groups):
            return mk_bool(b_or(*[b_and(g, as_b(v)) for g, v in groups]), dt)
        if all(isinstance(v, (SymInt, int, np.integer)) and not isinstance(v, (bool, np.bool_)) for _, v in groups):
            return int_cases(groups, dt)
        return merge_float(SymCase(groups), dt)
    return SymCase(groups)


def int_cases(groups, dt=None):
    t = None
    lo = hi = 0
    first = True
    for g, v in reversed(groups):
        vt = v.t if isinstance(v, SymInt) else z3.IntVal(int(v))
        vl, vh = bounds(v)
        t = vt if t is None else z3.If(g, vt, t)
        if first: lo, hi, first = vl, vh, False
        else:
            lo = None if lo is None or vl is None else min(lo, vl)
            hi = None if hi is None or vh is None else max(hi, vh)
    bit = None
    if (lo, hi) == (0, 1):
        bit = b_or(*[b_and(g, as_b(v)) for g, v in groups])
        return int_of_bit(bit, dt)
    return mk_int(t, dt, lo, hi)


def bounds(v):
    if isinstance(v, SymInt): return v.lo, v.hi
    if isinstance(v, SymBool): return 0, 1
    return int(v), int(v)


def merge_float(c, dt=None):
    res = None
    for g, v in reversed(c.cases):
        f = to_float(v)
        res = f if res is None else f_ite(g, f, res)
    return mk_float(res.r, res.nan, res.pinf, res.ninf, dt)


# ------------------------------------------------------------------ strings holding symbolic numbers
PH0 = 0xE000


def ph_new(x):
    c = Ctx.cur
    key = (type(x).__name__, tuple(z3.simplify(t).get_id() if not isinstance(t, bool) else t
                                   for t in ((x.t,) if isinstance(x, SymInt) else (x.r,))))
    ch = c.ph_rev.get(key)
    if ch is None:
        if c.canon_strings:
            for ch0, y in c.ph.items():
                if type(y) is type(x):
                    cond = (x.t == y.t) if isinstance(x, SymInt) else (x.r == y.r)
                    if c.branch(z3.simplify(cond)):
                        c.ph_rev[key] = ch0
                        return ch0
        ch = chr(PH0 + len(c.ph))
        c.ph[ch] = with_dt(x, None)
        c.keep.append(z3.simplify(x.t if isinstance(x, SymInt) else x.r))
        c.ph_rev[key] = ch
    return ch


def num_to_str(x):
    if isinstance(x, SymInt):
        t = z3.simplify(x.t)
        if z3.is_int_value(t): return str(t.as_long())
        return ph_new(x)
    c = Ctx.cur
    if x.nan is not False and c.branch(x.nan): return "nan"
    if x.pinf is not False and c.branch(x.pinf): return "inf"
    if x.ninf is not False and c.branch(x.ninf): return "-inf"
    r = z3.simplify(x.r)
    if z3.is_rational_value(r):
        return repr(float(Fraction(r.numerator_as_long(), r.denominator_as_long())))
    return ph_new(x)


def has_ph(s):
    return isinstance(s, str) and any(PH0 <= ord(ch) < PH0 + 0x1800 for ch in s)


def ph_get(ch):
    return Ctx.cur.ph[ch]


# ------------------------------------------------------------------ concretisation of reals (marks the path incomplete)
def concretize_float(x):
    c = Ctx.cur
    if x.nan is not False and c.branch(zb(x.nan)): return math.nan
    if x.pinf is not False and c.branch(zb(x.pinf)): return math.inf
    if x.ninf is not False and c.branch(zb(x.ninf)): return -math.inf
    if x.src is not None:
        return float(int(x.src))
    r = z3.simplify(x.r)
    if z3.is_rational_value(r):
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    ls = const_leaves(r, set())
    if ls is not None and len(ls) <= 64:
        ls = sorted(ls)
        for f in ls[:-1]:
            if c.branch(r == z3.Q(f.numerator, f.denominator)): return float(f)
        return float(ls[-1])
    c.incomplete.append("real value concretised")
    k = len(c.trace)
    if k < len(c.prefix):
        d = c.prefix[k]
        c.trace.append(d)
        c.add(x.r == z3.Q(d[2].numerator, d[2].denominator))
        return float(d[2])
    m = c.ensure_model()
    v = m.eval(x.r, model_completion=True)
    f = val_frac(v)
    try:
        c.add(x.r == z3.Q(f.numerator, f.denominator))
    except PathAbort:
        raise PathUnknown()
    c.trace.append((True, True, f))
    if c.model is None:
        c.ensure_model()
    return float(f)


def const_leaves(r, acc):
    """the values of a term built of ites over numerals, or None"""
    todo, seen = [r], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_rational_value(t) or z3.is_int_value(t): acc.add(val_frac(t))
        elif z3.is_app_of(t, z3.Z3_OP_ITE): todo += [t.arg(1), t.arg(2)]
        elif z3.is_app_of(t, z3.Z3_OP_TO_REAL): todo.append(t.arg(0))
        else: return None
    return acc


def val_frac(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise PathUnknown()


# ------------------------------------------------------------------ scalar operations
def num_kind(x):
    """0 bool 1 int 2 float, None otherwise"""
    if isinstance(x, (SymBool, bool, np.bool_)): return 0
    if isinstance(x, (SymInt, int, np.integer)): return 1
    if isinstance(x, (SymFloat, float, np.floating, Fraction)): return 2
    return None


def i_term(x):
    if isinstance(x, SymInt): return x.t
    if isinstance(x, SymBool): return z3.If(x.t, 1, 0)
    return z3.IntVal(int(x))


def bitof(x):
    """boolean term if x is known to be 0/1"""
    if isinstance(x, SymBool): return x.t
    if isinstance(x, SymInt): return x.bit
    v = int(x)
    return bool(v) if v in (0, 1) else None


def wrap_int(t, lo, hi, dt, bit=None, bits=None):
    """integer result in dtype dt (modular for fixed width)."""
    if dt is not None and dt.kind in "ui":
        info = np.iinfo(dt)
        if lo is None or hi is None or lo < info.min or hi > info.max:
            if dt.itemsize < 8 or (lo is not None and hi is not None):
                w = 2 ** (8 * dt.itemsize)
                if not isinstance(t, int):
                    t = ((t - int(info.min)) % w) + int(info.min)
                else:
                    t = (t - int(info.min)) % w + int(info.min)
                lo, hi, bit, bits = int(info.min), int(info.max), None, None
            # 64-bit results of unknown range: assumed not to overflow (stated bound)
    return mk_int(t, dt, lo, hi, bit, bits)


def i_arith(op, a, b, dt):
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    known = None not in (al, ah, bl, bh)
    if op == "add":
        lo, hi = (al + bl, ah + bh) if known else (None, None)
        return wrap_int(i_term(a) + i_term(b), lo, hi, dt)
    if op == "sub":
        lo, hi = (al - bh, ah - bl) if known else (None, None)
        return wrap_int(i_term(a) - i_term(b), lo, hi, dt)
    if op == "mul":
        ba, bb = bitof(a), bitof(b)
        if ba is not None and bb is not None:
            return with_dt(int_of_bit(b_and(ba, bb)), dt)
        lo = hi = None
        if known:
            c = [al * bl, al * bh, ah * bl, ah * bh]
            lo, hi = min(c), max(c)
        if ba is not None:
            return wrap_int(z3.If(zb(ba), i_term(b), z3.IntVal(0)), lo, hi, dt)
        if bb is not None:
            return wrap_int(z3.If(zb(bb), i_term(a), z3.IntVal(0)), lo, hi, dt)
        return wrap_int(i_term(a) * i_term(b), lo, hi, dt)
    raise Unmodelled("int op " + op)


def f_add(a, b):
    if a.nan is False and b.nan is False and a.pinf is False and b.pinf is False and a.ninf is False and b.ninf is False:
        src = None
        if a.src is not None and b.src is not None:
            s = i_arith("add", a.src, b.src, None)
            src = s if isinstance(s, SymInt) else None
        return SymFloat(a.r + b.r, src=src)
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
    return SymFloat(a.r + b.r, nan, b_and(b_not(nan), b_or(a.pinf, b.pinf)), b_and(b_not(nan), b_or(a.ninf, b.ninf)))


def f_neg(a):
    return SymFloat(-a.r, a.nan, a.ninf, a.pinf)


def f_mul(a, b):
    # products with 0/1 factors stay linear
    def prod():
        for x, y in ((a, b), (b, a)):
            if x.src is not None and x.src.bit is not None:
                return r_ite(x.src.bit, y.r, ZERO)
            if z3.is_rational_value(x.r):
                if x.r.numerator_as_long() == 1 and x.r.denominator_as_long() == 1: return y.r
                if x.r.numerator_as_long() == 0: return ZERO
        return a.r * b.r
    if a.nan is False and b.nan is False and a.pinf is False and b.pinf is False and a.ninf is False and b.ninf is False:
        src = None
        if a.src is not None and b.src is not None:
            s = i_arith("mul", a.src, b.src, None)
            src = s if isinstance(s, SymInt) else None
        return SymFloat(prod(), src=src)
    ai, bi = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
    az = b_and(b_not(b_or(a.nan, ai)), a.r == 0) if bi is not False else False
    bz = b_and(b_not(b_or(b.nan, bi)), b.r == 0) if ai is not False else False
    nan = b_or(a.nan, b.nan, b_and(ai, bz), b_and(bi, az))
    inf = b_and(b_not(nan), b_or(ai, bi))
    if inf is False:
        return SymFloat(prod(), nan)
    def neg(x):
        return b_or(x.ninf, b_and(b_not(x.pinf), x.r < 0))
    s = b_xor(neg(a), neg(b))
    return SymFloat(prod(), nan, b_and(inf, b_not(s)), b_and(inf, s))


def f_div(a, b):
    """numpy semantics: x/0 = +-inf or nan (zeros are unsigned here)."""
    bs = b.src
    if bs is not None and bs.lo is not None and bs.hi is not None and bs.hi - bs.lo <= 40 and not z3.is_rational_value(b.r):
        res = None
        for v in range(bs.lo, bs.hi + 1):
            q = f_div(a, SymFloat(z3.RealVal(v)))
            res = q if res is None else f_ite(bs.t == v, q, res)
        if b.nan is not False or b.pinf is not False or b.ninf is not False:
            res = SymFloat(res.r, b_or(res.nan, b.nan), res.pinf, res.ninf)
        return res
    const = z3.is_rational_value(b.r)
    if const and b.nan is False and b.pinf is False and b.ninf is False and b.r.numerator_as_long() != 0:
        f = Fraction(b.r.numerator_as_long(), b.r.denominator_as_long())
        s = f > 0
        return SymFloat(a.r * z3.Q(f.denominator, f.numerator) if f != 1 else a.r, a.nan,
                        a.pinf if s else a.ninf, a.ninf if s else a.pinf)
    binf = b_or(b.pinf, b.ninf)
    bz = b_and(b_not(b_or(b.nan, binf)), zb(b.r == 0))
    if bz is not False: bz = z3.simplify(bz); bz = True if z3.is_true(bz) else False if z3.is_false(bz) else bz
    ainf = b_or(a.pinf, a.ninf)
    az = b_and(b_not(b_or(a.nan, ainf)), a.r == 0)
    nan = b_or(a.nan, b.nan, b_and(ainf, binf), b_and(bz, az))
    apos = b_or(a.pinf, b_and(b_not(a.ninf), a.r > 0))
    bneg = b_or(b.ninf, b_and(b_not(b.pinf), b.r < 0))
    inf = b_and(b_not(nan), b_or(bz, ainf))
    pos = b_xor(apos, bneg)
    if bz is True or (const and b.r.numerator_as_long() == 0):
        r = ZERO
    else:
        r = r_ite(binf, ZERO, a.r / b.r)
    return SymFloat(r, nan, b_and(inf, pos), b_and(inf, b_not(pos)))


def f_lt(a, b):
    if a.nan is False and b.nan is False and a.pinf is False and b.pinf is False and a.ninf is False and b.ninf is False:
        return a.r < b.r
    fin = b_and(b_not(b_or(a.pinf, a.ninf)), b_not(b_or(b.pinf, b.ninf)))
    return b_and(b_not(b_or(a.nan, b.nan)),
                 b_or(b_and(fin, a.r < b.r), b_and(a.ninf, b_not(b.ninf)), b_and(b.pinf, b_not(a.pinf))))


def f_eq(a, b):
    if a.nan is False and b.nan is False and a.pinf is False and b.pinf is False and a.ninf is False and b.ninf is False:
        return a.r == b.r
    fin = b_and(b_not(b_or(a.pinf, a.ninf)), b_not(b_or(b.pinf, b.ninf)))
    return b_and(b_not(b_or(a.nan, b.nan)), b_or(b_and(fin, a.r == b.r), b_and(a.pinf, b.pinf), b_and(a.ninf, b.ninf)))


def f_same(a, b):
    """equal, NaN being the same as NaN"""
    a, b = to_float(a), to_float(b)
    return b_or(b_and(a.nan, b.nan), f_eq(a, b))


def quadratic(t):
    """{(atom id, atom id): coefficient} of a polynomial of degree <= 2 in sum of monomials form, or None"""
    out = {}
    terms = t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD else [t]
    for m in terms:
        c, vs = Fraction(1), []
        stack = [m]
        while stack:
            x = stack.pop()
            if z3.is_rational_value(x): c *= Fraction(x.numerator_as_long(), x.denominator_as_long())
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL: stack.extend(x.children())
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS: c = -c; stack.extend(x.children())
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)) and x.arg(1).as_fraction() == 2:
                stack.extend([x.arg(0), x.arg(0)])
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ADD: return None
            else: vs.append(x.get_id())
        if len(vs) > 2: return None
        k = tuple(sorted([0] * (2 - len(vs)) + vs))
        out[k] = out.get(k, 0) + c
    return out


def psd(t):
    """True: the quadratic polynomial t is never negative (exact positive semidefiniteness test)"""
    q = quadratic(t)
    if q is None: return False
    ids = sorted({i for k in q for i in k})
    n = len(ids)
    if n > 12: return False
    ix = {v: i for i, v in enumerate(ids)}
    A = [[Fraction(0)] * n for _ in range(n)]
    for (a, b), c in q.items():
        a, b = ix[a], ix[b]
        if a == b: A[a][a] += c
        else: A[a][b] += c / 2; A[b][a] += c / 2
    for k in range(n):          # symmetric elimination
        if A[k][k] < 0: return False
        if A[k][k] == 0:
            if any(A[k][j] != 0 for j in range(k + 1, n)): return False
            continue
        for i in range(k + 1, n):
            f = A[i][k] / A[k][k]
            if f:
                for j in range(k, n): A[i][j] -= f * A[k][j]
    return True


def sqrt_float(a):
    c = Ctx.cur
    a = to_float(a)
    r = som(a.r)
    if z3.is_rational_value(r) and a.nan is False and a.pinf is False and a.ninf is False:
        f = Fraction(r.numerator_as_long(), r.denominator_as_long())
        if f < 0: return SymFloat(ZERO, nan=True)
        p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if p * p == f.numerator and q * q == f.denominator:
            return SymFloat(rv(Fraction(p, q)))
        return SymFloat(rv(math.sqrt(float(f))))      # rounded, as on the real code
    for t, s in c.sqrt_cache:
        if t.eq(r):
            break
        c.solver.set("timeout", 400)
        same = c._check(z3.simplify(t != r)) == z3.unsat
        c.solver.set("timeout", c.timeout_ms)
        if same: break
    else:
        s = z3.Real(c.fresh("sqrt"))
        ax = z3.And(s >= 0, s * s == r) if psd(r) else z3.And(s >= 0, z3.Implies(r >= 0, s * s == r), z3.Implies(r < 0, s == 0))
        if c.lazy_on: c._add(ax)
        c.lazy.append(ax)
        c.sqrt_cache.append((r, s))
    neg = FALSE if psd(r) else z3.simplify(r < 0)
    neg = False if z3.is_false(neg) else True if z3.is_true(neg) else neg
    return SymFloat(s, b_or(a.nan, a.ninf, b_and(b_not(b_or(a.pinf, a.ninf)), neg)), a.pinf, False)


CMP = {"lt", "le", "gt", "ge", "eq", "ne"}
PYOP = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.truediv, floordiv=operator.floordiv,
            mod=operator.mod, pow=operator.pow, lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge,
            eq=operator.eq, ne=operator.ne, **{"and": operator.and_, "or": operator.or_, "xor": operator.xor},
            lshift=operator.lshift, rshift=operator.rshift)


def cmp_op(op, a, b):
    """-> boolean term"""
    if op == "ne": return b_not(cmp_op("eq", a, b))
    if op == "gt": return cmp_op("lt", b, a)
    if op == "ge": return cmp_op("le", b, a)
    ka, kb = num_kind(a), num_kind(b)
    if ka is None or kb is None:
        if op == "eq":
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                r = a == b
                return r if isinstance(r, bool) else bool(r)
            return False
        raise TypeError("'%s' not supported between instances of %r and %r" % (op, type(a).__name__, type(b).__name__))
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return bool(PYOP[op](a, b))
    if ka == 2 or kb == 2:
        # integer-valued float against constant keeps the boolean structure
        fa, fb = to_float(a), to_float(b)
        if fa.src is not None and fb.src is None and z3.is_rational_value(fb.r) and fb.fin is True and fb.r.denominator_as_long() == 1:
            r = cmp_op(op, fa.src, fb.r.numerator_as_long())
            return b_and(b_not(fa.nan), r) if fa.nan is not False else r
        if fb.src is not None and fa.src is None and z3.is_rational_value(fa.r) and fa.fin is True and fa.r.denominator_as_long() == 1:
            r = cmp_op(op, fa.r.numerator_as_long(), fb.src)
            return b_and(b_not(fb.nan), r) if fb.nan is not False else r
        if op == "lt": return sim(f_lt(fa, fb))
        if op == "eq": return sim(f_eq(fa, fb))
        return sim(b_or(f_lt(fa, fb), f_eq(fa, fb)))
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    ba, bb = bitof(a), bitof(b)
    if op == "eq":
        if None not in (al, ah, bl, bh) and (ah < bl or bh < al): return False
        if ba is not None and bb is not None: return b_iff(ba, bb)
        if isinstance(a, SymInt) and isinstance(b, SymInt) and a.bits is not None and b.bits is not None:
            n = max(len(a.bits), len(b.bits))
            pa, pb = [False] * (n - len(a.bits)) + a.bits, [False] * (n - len(b.bits)) + b.bits
            return b_and(*[b_iff(x, y) for x, y in zip(pa, pb)])
        return sim(i_term(a) == i_term(b))
    if op == "lt":
        if ah is not None and bl is not None and ah < bl: return True
        if al is not None and bh is not None and al >= bh: return False
        if ba is not None and bb is not None: return b_and(b_not(ba), bb)
        return sim(i_term(a) < i_term(b))
    if ah is not None and bl is not None and ah <= bl: return True
    if al is not None and bh is not None and al > bh: return False
    if ba is not None and bb is not None: return b_or(b_not(ba), bb)
    return sim(i_term(a) <= i_term(b))


def sim(t):
    if t is True or t is False: return t
    t2 = z3.simplify(t)
    if z3.is_true(t2): return True
    if z3.is_false(t2): return False
    return t


def res_dt(a, b, op):
    da, db = dt_of(a), dt_of(b)
    if da is None and db is None: return None
    def rep(x, d):
        if not isinstance(x, Sym): return x
        if d is not None: return d.type(1)
        return (True, 1, 1.0)[num_kind(x)]
    try:
        with np.errstate(all="ignore"):
            r = PYOP[op](rep(a, da), rep(b, db))
        return r.dtype if isinstance(r, np.generic) else None
    except Exception:
        return F64


def scalar_op(op, a, b, dt="auto"):
    """Apply op with Python/numpy scalar semantics. dt: result dtype (for array elements), 'auto' for scalars."""
    if isinstance(a, SymCase) or isinstance(b, SymCase):
        ca = a.cases if isinstance(a, SymCase) else [(True, a)]
        cb = b.cases if isinstance(b, SymCase) else [(True, b)]
        return mk_case([(b_and(g, h), scalar_op(op, x, y, dt)) for g, x in ca for h, y in cb])
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if dt == "auto" or dt is None or dt.kind == "O":
            return PYOP[op](a, b)
        with np.errstate(all="ignore"):
            if op in CMP:
                return bool(PYOP[op](a, b))
            a, b = conc(a), conc(b)
            if dt.kind in "fc" or op == "div":
                if op == "div":
                    return np_div(a, b)
                return float(PYOP[op](np.float64(a), np.float64(b)))
            if dt.kind in "ui":
                if op in ("floordiv", "mod"):
                    return int(PYOP[op](dt.type(a), dt.type(b)))
                v = PYOP[op](int(a), int(b))
                return conc(wrap_int(v, v, v, dt))
            if dt.kind == "b":
                if op == "add": return bool(a) or bool(b)
                if op == "mul": return bool(a) and bool(b)
                return bool(PYOP[op](bool(a), bool(b)))
            return PYOP[op](a, b)
    if op in CMP:
        t = cmp_op(op, a, b)
        if dt == "auto":
            d = BOOL if (dt_of(a) is not None or dt_of(b) is not None) else None
        else:
            d = None
        return mk_bool(t, d)
    ka, kb = num_kind(a), num_kind(b)
    if ka is None or kb is None:
        s, n = (a, b) if ka is None else (b, a)
        if op == "mul" and isinstance(s, (str, list, tuple)) and isinstance(n, (SymInt, SymBool)):
            if bitof(n) is not None:
                return mk_case([(bitof(n), s), (b_not(bitof(n)), s[:0])])
            return s * int(n)
        if op == "mod" and isinstance(a, str):
            return a % (str(b),)
        if isinstance(s, (str, list, tuple, dict, type(None))):
            raise TypeError("unsupported operand type(s) for %s: %r" % (op, type(s).__name__))
        return NotImplemented
    python_semantics = False
    if dt == "auto":
        dt = res_dt(a, b, op)
        python_semantics = dt is None
    if dt is not None and dt.kind == "O":
        dt = None
        python_semantics = True
    if op in ("and", "or", "xor"):
        if ka == 2 or kb == 2:
            raise TypeError("unsupported operand type(s) for %s: float" % op)
        f = dict([("and", b_and), ("or", b_or), ("xor", b_xor)])[op]
        if ka == 0 and kb == 0:
            return mk_bool(f(as_b(a), as_b(b)), dt)
        ba, bb = bitof(a), bitof(b)
        if ba is not None and bb is not None:
            return with_dt(int_of_bit(f(ba, bb)), dt)
        xa = (a if isinstance(a, SymInt) else int_of_bits([c == "1" for c in bin(int(a))[2:]]) if not isinstance(a, SymBool) else int_of_bit(a.t))
        xb = (b if isinstance(b, SymInt) else int_of_bits([c == "1" for c in bin(int(b))[2:]]) if not isinstance(b, SymBool) else int_of_bit(b.t))
        la = xa.get_bits() if isinstance(xa, SymInt) else [c == "1" for c in bin(int(xa))[2:]]
        lb = xb.get_bits() if isinstance(xb, SymInt) else [c == "1" for c in bin(int(xb))[2:]]
        n = max(len(la), len(lb))
        la, lb = [False] * (n - len(la)) + list(la), [False] * (n - len(lb)) + list(lb)
        return with_dt(int_of_bits([f(x, y) for x, y in zip(la, lb)]), dt)
    if op in ("lshift", "rshift"):
        k = int(b)
        if isinstance(a, SymInt) and (a.bits is not None or a.bit is not None):
            bs = a.get_bits()
            bs = bs + [False] * k if op == "lshift" else bs[:len(bs) - k] or [False]
            return with_dt(int_of_bits(bs), dt)
        return scalar_op("mul", a, 2 ** k, dt) if op == "lshift" else scalar_op("floordiv", a, 2 ** k, dt)
    if op in ("add", "sub", "mul"):
        isf = (dt.kind == "f") if dt is not None else (ka == 2 or kb == 2)
        if not isf:
            if dt is not None and dt.kind == "b":
                return mk_bool(b_or(as_b(a), as_b(b)) if op == "add" else b_and(as_b(a), as_b(b)), dt)
            return i_arith(op, a, b, dt)
        fa, fb = to_float(a), to_float(b)
        r = f_add(fa, fb) if op == "add" else f_add(fa, f_neg(fb)) if op == "sub" else f_mul(fa, fb)
        return mk_float(r.r, r.nan, r.pinf, r.ninf, dt, r.src)
    if op == "div":
        if python_semantics:
            z = cmp_op("eq", b, 0)
            if z is not False and Ctx.cur.branch(zb(z)):
                raise ZeroDivisionError("division by zero")
        r = f_div(to_float(a), to_float(b))
        return mk_float(r.r, r.nan, r.pinf, r.ninf, dt)
    if op == "pow":
        if not isinstance(b, Sym):
            e = conc(b)
            if e == 2: return scalar_op("mul", a, a, dt if dt is not None else "auto")
            if e == 0.5:
                r = sqrt_float(a)
                return mk_float(r.r, r.nan, r.pinf, r.ninf, dt)
            if e == 1: return a
            if isinstance(e, int) and 0 <= e <= 6:
                r = 1
                for _ in range(e): r = scalar_op("mul", a, r, dt if dt is not None else "auto")
                return r
            if isinstance(e, (int, float)) and e < 0:
                return scalar_op("div", 1.0, scalar_op("pow", a, -e, dt if dt is not None else "auto"), dt if dt is not None else "auto")
        if isinstance(b, (SymInt,)):
            return scalar_op("pow", a, int(b), dt if dt is not None else "auto")
        raise Unmodelled("pow")
    if op in ("floordiv", "mod"):
        if ka == 2 or kb == 2:
            if Ctx.cur.branch(zb(b_not(b_and(to_float(a).fin, to_float(b).fin)))): raise Unmodelled("float floordiv with nan/inf")
            fa, fb = to_float(a), to_float(b)
            if Ctx.cur.branch(zb(cmp_op("eq", b, 0))): raise ZeroDivisionError("float floor division by zero")
            q = z3.ToReal(z3.ToInt(fa.r / fb.r))
            return mk_float(q if op == "floordiv" else fa.r - q * fb.r, dt=dt)
        if not isinstance(b, Sym):
            bv = int(b)
            if bv == 0: raise ZeroDivisionError("integer division or modulo by zero")
            t = i_term(a)
            if bv < 0: raise Unmodelled("negative integer divisor")
            al, ah = bounds(a)
            if op == "mod":
                if al is not None and ah is not None and 0 <= al and ah < bv: return a
                return mk_int(t % bv, dt, 0, bv - 1)
            return mk_int(t / bv, dt, None if al is None else al // bv, None if ah is None else ah // bv)
        return scalar_op(op, a, int(b), dt if dt is not None else "auto")
    raise Unmodelled("scalar op " + op)


def np_div(a, b):
    a, b = float(a), float(b)
    if b == 0:
        if a == 0 or a != a: return math.nan
        return math.inf if a > 0 else -math.inf
    return a / b


def _install(cls):
    def mk(op, rev):
        if rev:
            def f(self, other):
                if hasattr(other, "_s_container_") or isinstance(other, np.ndarray): return NotImplemented
                return scalar_op(op, other, self)
        else:
            def f(self, other):
                if hasattr(other, "_s_container_") or isinstance(other, np.ndarray): return NotImplemented
                return scalar_op(op, self, other)
        return f
    for op, nm in dict(add="add", sub="sub", mul="mul", div="truediv", floordiv="floordiv", mod="mod", pow="pow",
                       lshift="lshift", rshift="rshift", **{"and": "and", "or": "or", "xor": "xor"}).items():
        setattr(cls, "__%s__" % nm, mk(op, False))
        setattr(cls, "__r%s__" % nm, mk(op, True))
    for op in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(cls, "__%s__" % op, mk(op, False))
    cls.__neg__ = lambda self: s_neg(self)
    cls.__pos__ = lambda self: self
    cls.__abs__ = lambda self: s_abs(self)
    cls.__invert__ = lambda self: s_invert(self)


def s_neg(x, dt="auto"):
    if isinstance(x, SymCase): return mk_case([(g, s_neg(v, dt)) for g, v in x.cases])
    if not isinstance(x, Sym):
        if dt != "auto" and dt is not None and dt.kind == "u":
            return conc(wrap_int(-int(x), -int(x), -int(x), dt))
        return -x
    if isinstance(x, SymFloat):
        r = f_neg(x)
        return SymFloat(r.r, r.nan, r.pinf, r.ninf, x.dt if dt == "auto" else dt)
    d = x.dt if dt == "auto" else dt
    return i_arith("sub", 0, x, d)


def s_abs(x):
    if isinstance(x, SymCase): return mk_case([(g, s_abs(v)) for g, v in x.cases])
    if not isinstance(x, Sym): return abs(x)
    if isinstance(x, SymBool): return x
    if isinstance(x, SymFloat):
        if x.src is not None and x.src.lo is not None and x.src.lo >= 0: return x
        return SymFloat(z3.If(x.r >= 0, x.r, -x.r), x.nan, b_or(x.pinf, x.ninf), False, x.dt)
    if x.lo is not None and x.lo >= 0: return x
    lo, hi = (None, None)
    if x.lo is not None and x.hi is not None:
        lo, hi = 0, max(abs(x.lo), abs(x.hi))
    if hi == 1:
        return int_of_bit(sim(x.t != 0), x.dt)
    return mk_int(z3.If(x.t >= 0, x.t, -x.t), x.dt, lo if lo is not None else 0, hi)


def s_invert(x, dt="auto"):
    if isinstance(x, SymCase): return mk_case([(g, s_invert(v, dt)) for g, v in x.cases])
    if isinstance(x, SymBool):
        if x.dt is None and dt == "auto":
            return s_invert(int_of_bit(x.t))
        return mk_bool(b_not(x.t), x.dt)
    if isinstance(x, SymInt):
        d = x.dt if dt == "auto" else dt
        if d is not None and d.kind == "u":
            return wrap_int(int(np.iinfo(d).max) - x.t, None if x.hi is None else int(np.iinfo(d).max) - x.hi,
                            None if x.lo is None else int(np.iinfo(d).max) - x.lo, d)
        return i_arith("sub", -1, x, d)
    if isinstance(x, (bool, np.bool_)) and dt != "auto":
        return not x
    return ~x


def cast_int(x):
    """truncate a SymFloat towards zero (python int())."""
    if isinstance(x, SymFloat):
        if x.src is not None and x.nan is False: return with_dt(x.src, None)
        if Ctx.cur.branch(zb(b_or(x.nan))): raise ValueError("cannot convert float NaN to integer")
        if Ctx.cur.branch(zb(b_or(x.pinf, x.ninf))): raise OverflowError("cannot convert float infinity to integer")
        return mk_int(z3.If(x.r >= 0, z3.ToInt(x.r), -z3.ToInt(-x.r)))
    return x


def cast(x, dt):
    """cast a scalar to a numpy dtype; result in array-element form (python constants or Sym with dt)."""
    k = dt.kind
    if isinstance(x, SymCase):
        return mk_case([(g, cast(v, dt)) for g, v in x.cases])
    if k == "O":
        return with_dt(x, None) if isinstance(x, Sym) else conc(x)
    if k in "US":
        return str(x)
    if isinstance(x, str):
        if has_ph(x):
            if len(x) == 1: return cast(ph_get(x), dt)
            raise Unmodelled("cast of text with symbolic numbers")
        if k == "f": return float(x)
        if k in "ui": return conc(wrap_int(int(x), int(x), int(x), dt))
        if k == "b": return bool(x)
    if not isinstance(x, Sym):
        if x is None:
            if k == "f": return math.nan
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
        if k == "b": return bool(x)
        if k == "f": return float(x)
        with np.errstate(all="ignore"):
            return int(np.array(conc(x)).astype(dt))
    if k == "b":
        return mk_bool(as_b(x), dt)
    if k == "f":
        f = to_float(x)
        return mk_float(f.r, f.nan, f.pinf, f.ninf, dt, f.src)
    if k in "ui":
        if isinstance(x, SymBool): return int_of_bit(x.t, dt)
        if isinstance(x, SymInt):
            return wrap_int(x.t, x.lo, x.hi, dt, x.bit, x.bits)
        if x.nan is False and x.pinf is False and x.ninf is False:
            if x.src is not None: return cast(x.src, dt)
            return wrap_int(z3.If(x.r >= 0, z3.ToInt(x.r), -z3.ToInt(-x.r)), None, None, dt)
        if Ctx.cur.branch(zb(b_or(x.nan, x.pinf, x.ninf))):
            return int(np.array(math.nan).astype(dt))
        return cast(SymFloat(x.r), dt)
    raise Unmodelled("cast to %s" % dt)


for _c in (SymBool, SymInt, SymFloat, SymCase):
    _install(_c)
# numpy bool: ~ is logical, & | ^ on SymBool handled by scalar_op


def ite(c, a, b):
    """generic guarded choice between two scalars (c: boolean term)."""
    if c is True: return a
    if c is False: return b
    return mk_case([(c, a), (b_not(c), b)])


# ------------------------------------------------------------------ virtual types
def vtype(x):
    if isinstance(x, SymBool): return bool if x.dt is None else np.bool_
    if isinstance(x, SymInt): return int if x.dt is None else x.dt.type
    if isinstance(x, SymFloat): return float if x.dt is None else x.dt.type
    if isinstance(x, SymCase): return vtype(x.resolve()) or type(x.resolve())
    return None
