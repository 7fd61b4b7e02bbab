"""Runs a property harness symbolically over the real code, discharges its assertions with the solver, replays witnesses
and counterexamples on the untransformed code with the real libraries.

A property module (props/cNN.py) provides
    ID, BOUNDS (dict tier -> text)
    cases(tier) -> list of (name, dict of parameters)
    run(env, **parameters)      -- the harness; the same function is executed symbolically and concretely
"""
import os, sys, time, signal, json, math, types, tempfile, shutil, traceback, random as _random
from fractions import Fraction
from . import core
import z3
import numpy as np
from .core import *
from . import snp, spd, sbit, loader
from .loader import Package, SymWorld


class RequireFailed(BaseException):
    def __init__(self, msg):
        self.msg = msg


class Reject(BaseException):
    """concrete replay: an assumption does not hold for the (rounded) inputs"""


TOL = 1e-7


# ------------------------------------------------------------------------------------------------ values
def dig(x):
    """Make any container / numpy / pandas / symbolic container into nested lists of scalars."""
    if isinstance(x, Sym) or x is None or isinstance(x, (str, bool, int, float)): return x
    if isinstance(x, np.generic): return x.item()
    if isinstance(x, snp.FillArr): x = snp.as_sarr(x)
    if isinstance(x, snp.SArr): return [dig(v) for v in x.tolist()]
    if isinstance(x, np.ndarray): return [dig(v) for v in x.tolist()]
    if isinstance(x, (list, tuple)): return [dig(v) for v in x]
    if isinstance(x, dict): return {str(dig(k)): dig(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)): return sorted((dig(v) for v in x), key=str)
    if isinstance(x, sbit.SBitarray): return [dig(v) for v in x.tolist()]
    if hasattr(x, "_s_container_") or type(x).__module__.startswith(("pandas", "bitarray")):
        if hasattr(x, "columns"): return [dig(x.iloc[:, i]) for i in range(len(x.columns))]
        if hasattr(x, "tolist"): return [dig(v) for v in x.tolist()]
    if isinstance(x, type): return x.__name__
    if isinstance(x, Fraction): return float(x)
    return str(x)


def ev(x, m):
    """value of a symbolic scalar under model m"""
    if isinstance(x, SymBool): return z3.is_true(m.eval(zb(x.t), model_completion=True))
    if isinstance(x, SymInt): return m.eval(x.t, model_completion=True).as_long()
    if isinstance(x, SymFloat):
        for f, v in ((x.nan, math.nan), (x.pinf, math.inf), (x.ninf, -math.inf)):
            if f is not False and z3.is_true(m.eval(zb(f), model_completion=True)): return v
        return float(val_frac(m.eval(x.r, model_completion=True)))
    if isinstance(x, SymCase):
        for g, v in x.cases:
            if z3.is_true(m.eval(zb(g), model_completion=True)): return ev(v, m)
        return ev(x.cases[-1][1], m)
    if isinstance(x, str) and has_ph(x):
        return "".join(str(ev(ph_get(c), m)) if has_ph(c) else c for c in x)
    if isinstance(x, list): return [ev(v, m) for v in x]
    if isinstance(x, dict): return {k: ev(v, m) for k, v in x.items()}
    return x


def same(a, b, tol=TOL):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b or (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b)
    if isinstance(a, str) or isinstance(b, str):
        if a == b: return True
        try: return same(float(a), float(b), tol)
        except (TypeError, ValueError): return False
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try: a, b = float(a), float(b)
        except OverflowError: return a == b
        if a != a or b != b: return a != a and b != b
        if math.isinf(a) or math.isinf(b): return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


# ------------------------------------------------------------------------------------------------ specification helpers
def ite_(c, a, b):
    if isinstance(c, Sym): return core.ite(as_b(c), a, b)
    return a if c else b


def and_(*xs):
    if any(isinstance(x, Sym) for x in xs): return mk_bool(b_and(*[as_b(x) for x in xs]))
    return all(bool(x) for x in xs)


def or_(*xs):
    if any(isinstance(x, Sym) for x in xs): return mk_bool(b_or(*[as_b(x) for x in xs]))
    return any(bool(x) for x in xs)


def not_(x):
    if isinstance(x, Sym): return mk_bool(b_not(as_b(x)))
    return not x


def isnan_(x):
    if isinstance(x, SymFloat): return mk_bool(x.nan)
    if isinstance(x, SymCase): return mk_bool(b_or(*[b_and(g, as_b(isnan_(v))) for g, v in x.cases]))
    if x is None: return True
    if isinstance(x, (float, np.floating)): return bool(x != x)
    return False


def isfin_(x):
    if isinstance(x, SymFloat): return mk_bool(x.fin)
    if isinstance(x, Sym): return True
    return math.isfinite(x)


def sum_(xs):
    r = 0
    for x in xs: r = r + x
    return r


def div_(a, b):
    """a / b with 0 denominators giving NaN / inf"""
    if not isinstance(a, Sym) and not isinstance(b, Sym): return core.np_div(a, b)
    r = scalar_op("div", a, b, F64)
    return with_dt(r, None)


def sqrt_(x):
    if isinstance(x, Sym):
        r = sqrt_float(x)
        return mk_float(r.r, r.nan, r.pinf, r.ninf)
    return math.sqrt(x) if x >= 0 else math.nan


def abs_(x):
    return s_abs(x)


def count_(xs):
    return sum_([ite_(x, 1, 0) for x in xs])


def str_eq(a, b, margin=None):
    """texts containing numbers that are symbolic: compared token by token (numbers as numbers)"""
    import re
    def toks(x):
        out, i = [], 0
        while i < len(x):
            if has_ph(x[i]): out.append(("n", ph_get(x[i]))); i += 1; continue
            m = re.match(r"[-+]?\d+(\.\d+)?(e[-+]?\d+)?", x[i:])
            if m: out.append(("n", float(m.group()) if "." in m.group() or "e" in m.group() else int(m.group()))); i += m.end(); continue
            out.append(("c", x[i])); i += 1
        return out
    ta, tb = toks(a), toks(b)
    if any(x[0] == "n" and y[0] == "n" for t in (ta, tb) for x, y in zip(t, t[1:])):
        # adjacent digits: one character each
        if len(a) != len(b): return False
        ta = [("n", ph_get(c)) if has_ph(c) else ("n", int(c)) if c.isdigit() else ("c", c) for c in a]
        tb = [("n", ph_get(c)) if has_ph(c) else ("n", int(c)) if c.isdigit() else ("c", c) for c in b]
    if len(ta) != len(tb): return False
    r = True
    for x, y in zip(ta, tb):
        if x[0] != y[0]: return False
        if x[0] == "c":
            if x[1] != y[1]: return False
        else: r = b_and(r, eq_term(x[1], y[1], margin))
    return r


def eq_term(a, b, margin=None):
    """boolean term: a and b are the same value (NaN == NaN, None == NaN); margin: tolerate |a - b| <= margin"""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or a.keys() != b.keys(): return False
        return b_and(*[eq_term(a[k], b[k], margin) for k in a])
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b): return False
        return b_and(*[eq_term(x, y, margin) for x, y in zip(a, b)])
    if isinstance(a, SymCase): return b_or(*[b_and(g, eq_term(v, b, margin)) for g, v in a.cases])
    if isinstance(b, SymCase): return eq_term(b, a, margin)
    if a is None and b is None: return True
    if a is None: a = math.nan
    if b is None: b = math.nan
    sa, sb_ = isinstance(a, str), isinstance(b, str)
    if sa or sb_:
        if sa and sb_:
            if a == b: return True
            if not has_ph(a) and not has_ph(b): return False
            return str_eq(a, b, margin)
        if sa and len(a) == 1 and has_ph(a): return eq_term(ph_get(a), b, margin)
        if sb_ and len(b) == 1 and has_ph(b): return eq_term(a, ph_get(b), margin)
        return False
    ka, kb = num_kind(a), num_kind(b)
    if ka is None or kb is None:
        return bool(a == b)
    if ka < 2 and kb < 2:
        return cmp_op("eq", a, b)
    fa, fb = to_float(a), to_float(b)
    if margin is None:
        d = sim(fa.r == fb.r)
        if z3.is_expr(d) and not z3.is_true(d) and not z3.is_false(d):
            z = som(fa.r - fb.r)
            if z3.is_rational_value(z): d = z.numerator_as_long() == 0
    else:
        d = sim(z3.And(fa.r - fb.r <= margin, fb.r - fa.r <= margin))
    fin = b_and(fa.fin, fb.fin, d)
    return b_or(fin, b_and(fa.nan, fb.nan), b_and(fa.pinf, fb.pinf), b_and(fa.ninf, fb.ninf))


# ------------------------------------------------------------------------------------------------ environments
class Failing:
    """while it is entered, stacking more than `most` arrays at once fails for lack of memory"""
    NAMES = ("vstack", "stack", "row_stack", "column_stack", "hstack", "concatenate")
    def __init__(self, np_, most): self.np, self.most = np_, most
    def __enter__(self):
        self.old = {n: getattr(self.np, n) for n in self.NAMES if hasattr(self.np, n)}
        for n, f in self.old.items():
            def g(xs, *a, f=f, **k):
                if len(xs) > self.most: raise MemoryError("Unable to allocate")
                return f(xs, *a, **k)
            setattr(self.np, n, g)
    def __exit__(self, *a):
        for n, f in self.old.items(): setattr(self.np, n, f)


class Base:
    def failing_stack(self, most): return Failing(self.np, most)
    ite = staticmethod(ite_); and_ = staticmethod(and_); or_ = staticmethod(or_); not_ = staticmethod(not_)
    isnan = staticmethod(isnan_); isfin = staticmethod(isfin_); sum = staticmethod(sum_); div = staticmethod(div_)
    sqrt = staticmethod(sqrt_); abs = staticmethod(abs_); count = staticmethod(count_)
    nan = math.nan
    max_collisions = 2            # random numbers already drawn that may come again, per path
    ample_memory = False          # True: free memory is reported as plenty, always the same

    def bits(self, name, n): return [self.bit("%s%d" % (name, i)) for i in range(n)]
    def reals(self, name, n, *a, **k): return [self.real("%s%d" % (name, i), *a, **k) for i in range(n)]
    def ints(self, name, n, lo, hi): return [self.int("%s%d" % (name, i), lo, hi) for i in range(n)]

    def require_eq(self, a, b, msg):
        self._eq(dig(a), dig(b), msg, exact=True)

    def require_close(self, a, b, msg):
        self._eq(dig(a), dig(b), msg, exact=False)

    def require_rel(self, a, b, msg):
        """equal up to a relative error, also next to zero"""
        self.require_close(a, b, msg)
        for x, y in ((a, b),) if not isinstance(b, (list, tuple)) else zip(a, b):
            if isinstance(y, (str, bool)) or isinstance(x, str) or y is None or x is None: continue
            self.require_close(x * 1e15, y * 1e15, msg + " (relative)")

    def raises(self, excs, fn, *a, **k):
        """True if fn raised one of excs, False if it returned; other exceptions propagate"""
        try:
            fn(*a, **k)
        except excs:
            return True
        return False

    def setup(self):
        self.rk = self.pkg.load("ruleskit")
        self.activation = self.pkg.load("ruleskit.activation")
        self.Activation = self.activation.Activation
        self.condition = self.pkg.load("ruleskit.condition")
        self.rule = self.pkg.load("ruleskit.rule")
        self.ruleset = self.pkg.load("ruleskit.ruleset")
        self.rfunctions = self.pkg.load("ruleskit.utils.rfunctions")
        self.thresholds = self.pkg.load("ruleskit.thresholds")


class SymEnv(Base):
    sym = True

    def __init__(self, ctx):
        self.c = ctx
        self.world = SymWorld(self)
        self.np, self.pd = self.world.stub("numpy"), self.world.stub("pandas")
        self.inputs = {}          # name -> (kind, terms)
        self.reqs = []
        self.obs = []
        self.rands = []
        self.ncoll = 0
        self.nenv = {}
        self.tmpdir = "/tmp"
        self.pkg = Package("sym", self.world)
        self.bitarray = self.world.stub("bitarray").bitarray
        self.Path = self.world.stub("pathlib").Path
        self.setup()

    # inputs
    def bit(self, name):
        b = z3.Bool(name)
        self.inputs[name] = ("b", b)
        return int_of_bit(b)

    def bool(self, name):
        b = z3.Bool(name)
        self.inputs[name] = ("b", b)
        return SymBool(b)

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        self.inputs[name] = ("i", t)
        if lo is not None: self.c.add(t >= lo)
        if hi is not None: self.c.add(t <= hi)
        return SymInt(t, None, lo, hi)

    def real(self, name, lo=None, hi=None, nan=False, inf=False):
        r = z3.Real(name)
        fl = [z3.Bool(name + "#nan") if nan else False] + ([z3.Bool(name + "#pinf"), z3.Bool(name + "#ninf")] if inf else [False, False])
        self.inputs[name] = ("r", r, *fl)
        if lo is not None: self.c.add(r >= rv(lo))
        if hi is not None: self.c.add(r <= rv(hi))
        fs = [f for f in fl if f is not False]
        for i in range(len(fs)):
            for j in range(i): self.c.add(z3.Not(z3.And(fs[i], fs[j])))
        for f in fs: self.c.add(z3.Implies(f, r == 0))
        return SymFloat(r, *fl)

    def choice(self, name, options):
        """one of the options, explored exhaustively (one path each)"""
        options = list(options)
        if len(options) == 1: return options[0]
        t = z3.Int(name)
        self.inputs[name] = ("i", t)
        self.c.add(t >= 0); self.c.add(t < len(options))
        for i in range(len(options) - 1):
            if self.c.branch(t == i): return options[i]
        return options[-1]

    def cases(self, name, options):
        """one of the options, kept symbolic (guarded union)"""
        t = z3.Int(name)
        self.inputs[name] = ("i", t)
        self.c.add(t >= 0); self.c.add(t < len(options))
        return mk_case([(t == i, o) for i, o in enumerate(options)])

    def env_int(self, name, lo):
        if name == "available_memory" and self.ample_memory: return 2 ** 42
        k = self.nenv.get(name, 0)
        self.nenv[name] = k + 1
        if k > 400: return lo + 64
        n = "env.%s.%d" % (name, k)
        t = z3.Int(n)
        self.inputs[n] = ("i", t)
        self.c.add(t >= lo)
        return SymInt(t, None, lo, None)

    def randint(self, a, b):
        """a fresh number, or one already drawn (collision)"""
        k = len(self.rands)
        fresh = 10 ** 6 + k
        if not (a <= fresh <= b): fresh = min(b, a + k)
        prev = []
        for r in self.rands:
            if r not in prev and r != fresh: prev.append(r)
        v = fresh
        if prev and self.ncoll < self.max_collisions:
            v = self.choice("env.rand.%d" % k, [fresh] + prev)
            if v != fresh: self.ncoll += 1
        self.rands.append(v)
        return v

    def pack(self, bits):
        """the integer whose binary digits are bits"""
        if not any(isinstance(b, Sym) for b in bits): return int("".join(str(int(b)) for b in bits), 2)
        return int_of_bits([as_b(b == 1) for b in bits])

    def open(self, p, mode): return self.world.open(p, mode)

    # verdicts
    def assume(self, c):
        t = as_b(c) if isinstance(c, Sym) else c
        if t is True: return
        if t is False: raise PathAbort()
        if z3.is_expr(t): self.c.add(t)
        elif not t: raise PathAbort()
        if self.c.model is None and self.c.feasible(True): self.c.ensure_model()

    def require(self, c, msg):
        t = as_b(c) if isinstance(c, Sym) else (c if z3.is_expr(c) else bool(c))
        self.reqs.append((t, t, msg))

    def _eq(self, a, b, msg, exact):
        self.obs.append((msg, a))
        t = eq_term(a, b)
        self.reqs.append((t, t if exact else None, msg, a, b))

    def observe(self, name, v):
        self.obs.append((name, dig(v)))

    def set_canon_strings(self, v=True):
        self.c.canon_strings = v

    def exclude(self, c):
        """leave the path out if c holds (outside the property's scope)"""
        if c: raise PathAbort()


class ConcWorld:
    """real libraries, with the environment's nondeterminism taken from the model"""
    def __init__(self, env): self.env, self.cache = env, {}

    def stub(self, full):
        if full in self.cache: return self.cache[full]
        env = self.env
        m = None
        if full == "sys":
            class Sys:
                getsizeof = staticmethod(lambda *a: env.env_int("getsizeof", 1))
                def __getattr__(self, n): return getattr(sys, n)
            m = Sys()
        elif full == "psutil":
            class VM:
                @property
                def available(s): return env.env_int("available_memory", 0)
                total = 2 ** 40
            m = types.ModuleType("psutil"); m.virtual_memory = lambda: VM(); m.cpu_count = lambda *a, **k: 1
        elif full == "random":
            m = types.ModuleType("random")
            m.randint = lambda a, b: env.randint(a, b)
            m.randrange = lambda a, b=None: env.randint(0 if b is None else a, (a if b is None else b) - 1)
            m.choice = lambda s: s[env.randint(0, len(s) - 1)]
            m.random = lambda: 0.5
        elif full == "tempfile":
            m = types.ModuleType("tempfile"); m.gettempdir = lambda: env.tmpdir
        self.cache[full] = m
        return m


class ConcEnv(Base):
    sym = False

    def __init__(self, values, tmpdir):
        import pandas, pathlib
        from bitarray import bitarray
        self.values = values
        self.tmpdir = tmpdir
        self.np, self.pd, self.bitarray, self.Path = np, pandas, bitarray, pathlib.Path
        self.obs = []
        self.rands = []
        self.ncoll = 0
        self.nenv = {}
        self.world = ConcWorld(self)
        self.pkg = Package("real", self.world)
        self.setup()

    def get(self, name, default):
        return self.values.get(name, default)

    def bit(self, name): return int(bool(self.get(name, False)))
    def bool(self, name): return bool(self.get(name, False))

    def int(self, name, lo=None, hi=None):
        return int(self.get(name, lo if lo is not None else 0))

    def real(self, name, lo=None, hi=None, nan=False, inf=False):
        v = self.get(name, lo if lo is not None else 0.0)
        if isinstance(v, str):
            return float(v) if v in ("nan", "inf", "-inf") else float(Fraction(v))
        return float(v)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1: return options[0]
        return options[min(max(int(self.get(name, 0)), 0), len(options) - 1)]

    def cases(self, name, options):
        return options[min(max(int(self.get(name, 0)), 0), len(options) - 1)]

    def env_int(self, name, lo):
        if name == "available_memory" and self.ample_memory: return 2 ** 42
        k = self.nenv.get(name, 0)
        self.nenv[name] = k + 1
        if k > 400: return lo + 64
        return int(self.get("env.%s.%d" % (name, k), lo))

    randint = SymEnv.randint

    def pack(self, bits): return int("".join(str(int(b)) for b in bits), 2)
    def open(self, p, mode): return open(p, mode)

    def assume(self, c):
        if not c: raise Reject()

    def require(self, c, msg):
        if not c: raise RequireFailed(msg)

    def _eq(self, a, b, msg, exact):
        self.obs.append((msg, a))
        if not same(a, b): raise RequireFailed("%s: got %.300r, expected %.300r" % (msg, a, b))

    def observe(self, name, v): self.obs.append((name, dig(v)))
    def set_canon_strings(self, v=True): pass
    def exclude(self, c):
        if c: raise Reject()


# ------------------------------------------------------------------------------------------------ one path
def _alarm(sig, frame): raise PathTimeout()


def read_model(inputs, m):
    vals = {}
    for n, d in inputs.items():
        if d[0] == "b":
            vals[n] = z3.is_true(m.eval(d[1], model_completion=True))
        elif d[0] == "i":
            vals[n] = m.eval(d[1], model_completion=True).as_long()
        else:
            v = None
            for f, nm in zip(d[2:], ("nan", "inf", "-inf")):
                if f is not False and z3.is_true(m.eval(f, model_completion=True)): v = nm
            if v is None:
                fr = val_frac(m.eval(d[1], model_completion=True))
                v = str(fr)
            vals[n] = v
    return vals


def dyadic(vals):
    for v in vals.values():
        if isinstance(v, str) and v not in ("nan", "inf", "-inf"):
            f = Fraction(v)
            d = f.denominator
            if d & (d - 1) or d > 1024 or abs(f.numerator) > 2 ** 30: return False
        elif isinstance(v, int) and abs(v) > 2 ** 62: return False
    return True


def nice_model(ctx, inputs, extra=(), timeout=1500):
    """a model of path /\\ extra, preferably with small dyadic reals. Returns (values, model) or None"""
    asserts = ctx.asserts + [e for e in extra if e is not True]
    if any(ctx.needs_lazy(e) for e in extra): asserts = asserts + ctx.lazy
    s = z3.Solver(); s.set("timeout", 4000)
    s.add(*[zb(a) for a in asserts])
    ctx.stats["queries"] += 1
    t = time.time()
    r = s.check()
    ctx.stats["solver_s"] += time.time() - t
    m = s.model() if r == z3.sat else None
    if r == z3.unknown:
        r2, m = solve_fresh(asserts, 8000, ctx.stats)
        if r2 == z3.unsat: return None
    if m is None: return None
    vals = read_model(inputs, m)
    if dyadic(vals): return vals, m
    rs = [d[1] for d in inputs.values() if d[0] == "r"]
    # keep the discrete part of the model, ask for quarter-integers
    for den, keep in ((1, False), (4, False), (64, False)):
        s2 = z3.Solver(); s2.set("timeout", timeout)
        s2.add(*[zb(a) for a in asserts])
        for i, r_ in enumerate(rs):
            k = z3.Int("nice!%d" % i)
            s2.add(r_ * den == z3.ToReal(k), k >= -4096, k <= 4096)
        t = time.time()
        rr = s2.check()
        ctx.stats["solver_s"] += time.time() - t
        if rr == z3.sat:
            m2 = s2.model()
            return read_model(inputs, m2), m2
    return vals, m


class SqrtModel:
    """a model in which square roots have their numerical value"""
    def __init__(self, m, cache):
        self.m, self.subs = m, []
        for r, s in cache:
            try: v = val_frac(self.eval(r))
            except Exception: continue
            self.subs.append((s, rv(math.sqrt(float(v))) if v > 0 else z3.RealVal(0)))

    def eval(self, t, model_completion=True):
        if self.subs: t = z3.substitute(t, *self.subs)
        return self.m.eval(t, model_completion=True)


class ConcResult:
    __slots__ = ("fail", "exc", "obs", "reject", "tb", "timeout")


def run_concrete(mod, params, values, timeout=60):
    """run the harness on the real code"""
    import warnings
    r = ConcResult()
    r.fail = r.exc = r.tb = None
    r.reject = r.timeout = False
    r.obs = []
    tmp = tempfile.mkdtemp(prefix="rkv_")
    old = signal.signal(signal.SIGALRM, _alarm)
    oldt = signal.alarm(timeout)
    cur = Ctx.cur
    env = None
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            env = ConcEnv(values, tmp)
            mod.run(env, **params)
    except RequireFailed as e:
        r.fail = e.msg
    except Reject:
        r.reject = True
    except PathTimeout:
        r.timeout = True
    except Exception as e:
        r.exc = "%s: %s" % (type(e).__name__, str(e)[:300])
        r.tb = traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        Ctx.cur = cur
        if env is not None: r.obs = env.obs
        shutil.rmtree(tmp, ignore_errors=True)
    return r


def has_failed(r):
    return r.fail is not None or r.exc is not None


class Runner:
    """explores one case (a set of prefixes of it) within a time slice"""
    def __init__(self, mod, tier):
        self.mod, self.tier = mod, tier
        self.path_timeout = getattr(mod, "PATH_TIMEOUT", 40)

    def slice(self, name, params, prefixes, budget, do_replay=1):
        """returns a dict of results, with remaining prefixes"""
        ctx = Ctx(timeout_ms=getattr(self.mod, "SOLVER_MS", 4000), max_forks=getattr(self.mod, "MAX_FORKS", 3000))
        out = dict(case=name, paths=0, decided=0, proved=0, infeasible=0, inconclusive=[], candidates=0, violation=None, validated=0, rejected=0,
                   mismatches=[], functions=set(), notes={}, samples=[], rest=[], partial=0, ran=0)
        t0 = time.time()
        stack = list(prefixes)
        while stack:
            if time.time() - t0 > budget and out["paths"] > 0: break
            prefix = stack.pop()
            new = self.one(ctx, name, params, prefix, out, do_replay)
            stack.extend(new)
            if out["violation"]: break
        out["rest"] = stack
        out["stats"] = dict(ctx.stats)
        out["wall"] = time.time() - t0
        for k, v in snp.FALLBACKS.items(): out["notes"]["fallback " + str(k)] = v
        snp.FALLBACKS.clear()
        return out

    def one(self, ctx, name, params, prefix, out, do_replay):
        Ctx.cur = ctx
        ctx.start(prefix)
        out["paths"] += 1
        ctx.stats["paths"] += 1
        status, exc, tb = "ok", None, None
        env = None
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.path_timeout)
        try:
            try:
                env = SymEnv(ctx)
                self.mod.run(env, **params)
            finally:
                signal.alarm(0)
        except PathAbort: status = "infeasible"
        except PathTimeout: status = "timeout"
        except PathUnknown: status = "unknown"
        except Unmodelled as e: status = "unmodelled: %s" % e
        except TooManyForks: status = "too many forks"
        except z3.Z3Exception as e: status, exc = "encoding error: %s" % e, None
        except RecursionError as e: status = "recursion"
        except Exception as e:
            status, exc, tb = "exception", e, traceback.format_exc()
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        out["functions"] |= ctx.functions
        pend = ctx.pending
        if env is None:
            out["inconclusive"].append((status + (" " + repr(exc) if exc else ""))[:300])
            if exc is not None and status == "exception":
                # the package cannot even be loaded: replay decides
                r = self.real(out, params, {})
                if has_failed(r): self.violate(out, name, params, {}, r)
            return pend
        if status == "infeasible":
            out["infeasible"] += 1
            return pend
        decided = self.discharge(ctx, env, name, params, out)
        if out["violation"]: return pend
        replayed = None
        if status == "exception":
            out["candidates"] += 1
            nm = nice_model(ctx, env.inputs)
            if nm is not None:
                r = self.real(out, params, nm[0])
                if has_failed(r):
                    self.violate(out, name, params, nm[0], r)
                    return pend
                replayed = r
            out["inconclusive"].append("exception not reproduced: %s | %s" % (repr(exc)[:200], (tb or "")[-700:]))
            return pend
        if status != "ok":
            # encoding stopped: run the real code once on a model of the path so far
            nm = nice_model(ctx, env.inputs)
            if nm is not None:
                r = self.real(out, params, nm[0])
                if has_failed(r) and dyadic(nm[0]):
                    self.violate(out, name, params, nm[0], r)
                    return pend
            out["inconclusive"].append(status)
            return pend
        if decided:
            out["decided"] += 1
            if ctx.incomplete:
                out["partial"] += 1
                for n in set(ctx.incomplete): out["notes"][n] = out["notes"].get(n, 0) + 1
            else: out["proved"] += 1
        if do_replay and (out["paths"] <= 8 or out["paths"] % do_replay == 0):
            nm = nice_model(ctx, env.inputs)
            if nm is None:
                out["rejected"] += 1
                return pend
            vals, m = nm
            r = self.real(out, params, vals)
            if r.reject or r.timeout: out["rejected"] += 1
            elif has_failed(r):
                if dyadic(vals): self.violate(out, name, params, vals, r)
                else: out["mismatches"].append("witness fails on the real code, inputs not dyadic: %s" % (r.fail or r.exc))
            else:
                bad = self.compare(env, m, r)
                if bad is None:
                    out["validated"] += 1
                    if len(out["samples"]) < 2: out["samples"].append({k: v for k, v in list(vals.items())[:24]})
                elif dyadic(vals):
                    out["mismatches"].append(bad)
                    if decided: out["decided"] -= 1; out["proved"] -= 0 if ctx.incomplete else 1
                    out["inconclusive"].append("encoding differs from the real code: " + bad)
                else: out["rejected"] += 1
        return pend

    def real(self, out, params, vals):
        r = run_concrete(self.mod, params, vals)
        if not r.reject and not r.timeout: out["ran"] += 1
        return r

    def compare(self, env, m, r):
        m = SqrtModel(m, env.c.sqrt_cache)
        if len(env.obs) != len(r.obs):
            return "different number of observations %d %d" % (len(env.obs), len(r.obs))
        for (n1, v1), (n2, v2) in zip(env.obs, r.obs):
            try: s = ev(v1, m)
            except PathUnknown: continue
            if n1 != n2 or not same(s, v2, 1e-6): return "%s: model %r, real code %r" % (n1, s, v2)
        return None

    def discharge(self, ctx, env, name, params, out):
        """solver: path /\\ not(all requirements)"""
        reqs = []
        for r in env.reqs:
            if r[0] is True: continue
            reqs.append(r)
        if not reqs: return True
        goal = b_not(b_and(*[r[0] for r in reqs]))
        if goal is True: v = z3.sat
        elif ctx.lazy and len(reqs) > 1: v = z3.unknown         # nonlinear: one requirement at a time
        else: v, _m = self.solve(ctx, goal)
        if v == z3.unsat: return True
        if v == z3.unknown and len(reqs) > 1:
            v = z3.unsat
            for r in reqs:
                g = b_not(r[0])
                vi, _ = (z3.sat, None) if g is True else self.solve(ctx, g)
                if vi == z3.sat:
                    v = z3.sat
                    goal = g
                    break
                if vi == z3.unknown: v = z3.unknown
            if v == z3.unsat: return True
        if v == z3.unknown:
            # look for gross violations only
            out["inconclusive"].append("solver unknown: " + reqs[0][2])
            nm = nice_model(ctx, env.inputs)
            if nm is not None:
                r = self.real(out, params, nm[0])
                if has_failed(r) and dyadic(nm[0]): self.violate(out, name, params, nm[0], r)
            return False
        # counterexample: prefer one violating by a margin
        out["candidates"] += 1
        tries = []
        for r in reqs:
            g = b_not(r[0])
            if g is False: continue
            if len(r) > 3 and r[1] is None:
                for mg in (z3.Q(1, 4), z3.Q(1, 1000)):
                    tries.append((b_not(eq_term(r[3], r[4], mg)), r[2]))
        tries.append((goal, "any"))
        for r in reqs[:6]: tries.append((b_not(r[0]), r[2]))
        seen = 0
        for g, msg in tries:
            if g is False: continue
            nm = nice_model(ctx, env.inputs, [g])
            if nm is None: continue
            seen += 1
            rr = self.real(out, params, nm[0])
            if has_failed(rr):
                self.violate(out, name, params, nm[0], rr)
                return False
            if seen >= 6: break
        # equal up to rounding?
        if all(len(r) > 3 and r[1] is None or self.holds(ctx, r[0]) for r in reqs):
            if all(self.holds(ctx, eq_term(r[3], r[4], z3.Q(1, 10 ** 6))) for r in reqs if len(r) > 3 and r[1] is None): return True
        out["inconclusive"].append("counterexample did not reproduce: %s" % [r[2] for r in reqs][:3])
        return False

    def holds(self, ctx, t):
        if t is True or t is False: return t
        return self.solve(ctx, b_not(t))[0] == z3.unsat

    def solve(self, ctx, goal):
        r = ctx._check(zb(goal))
        if r != z3.unsat and ctx.needs_lazy(zb(goal)):
            r, m = solve_fresh(ctx.asserts + ctx.lazy + [goal], 12000, ctx.stats)
            return r, m
        if r == z3.unknown:
            r, m = solve_fresh(ctx.asserts + [goal], 12000, ctx.stats)
            return r, m
        return r, (ctx.solver.model() if r == z3.sat else None)

    def violate(self, out, name, params, vals, r):
        out["violation"] = dict(case=name, values=vals, failure=r.fail or r.exc, traceback=r.tb)
