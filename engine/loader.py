"""Loads the package under test from its current source, either transformed for symbolic execution with modelled libraries
(mode 'sym') or plain with the real libraries (mode 'real').  Each path / replay gets fresh module objects."""
import __future__, ast, builtins, os, sys, types, math, pathlib, io
import numpy as np
from . import core, snp, spd, sbit
from .core import *

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.join(REPO, "ruleskit")

# ------------------------------------------------------------------------------------------------ source transformation
CALLS = {"str", "int", "float", "bool", "len", "isinstance", "issubclass", "type", "bin", "sum", "min", "max", "any", "all", "abs", "hash", "open",
         "round", "sorted", "print", "range", "set", "frozenset", "format", "id", "callable"}
NPCASTS = {"float64", "float32", "int64", "int32", "int16", "int8", "uint8", "ubyte", "uint16", "uint32", "uint64", "bool_", "int_", "float_", "intc"}
LOGNAMES = {"debug", "info", "warning", "error", "critical", "exception", "warn", "log"}


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = [modname]

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        q = ".".join(self.stack)
        self.generic_visit(n)
        self.stack.pop()
        enter = ast.Expr(ast.Call(ast.Name("_s_enter", ast.Load()), [ast.Constant(q)], []))
        k = 1 if (n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str)) else 0
        n.body.insert(k, enter)
        return n

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in LOGNAMES and isinstance(f.value, ast.Name) and f.value.id in ("logger", "logging", "log", "warnings"):
            return ast.copy_location(ast.Constant(None), n)
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id in CALLS:
            n.func = ast.copy_location(ast.Name("_s_" + f.id, ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr in NPCASTS and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(ast.Call(ast.Name("_s_npcast", ast.Load()), [f] + n.args, []), n)
        if isinstance(f, ast.Name) and f.id in ("map", "filter"):
            if n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in CALLS:
                n.args[0] = ast.copy_location(ast.Name("_s_" + n.args[0].id, ast.Load()), n.args[0])
        for kw in n.keywords:
            if kw.arg == "key" and isinstance(kw.value, ast.Name) and kw.value.id in CALLS:
                kw.value = ast.copy_location(ast.Name("_s_" + kw.value.id, ast.Load()), kw.value)
        return n


_code = {}


def get_code(modname, path, transform):
    key = (modname, transform)
    if key not in _code:
        src = open(path, encoding="utf8").read()
        tree = ast.parse(src, path)
        if transform:
            tree = ast.fix_missing_locations(T(modname).visit(tree))
        # annotations are not evaluated (the modules are executed afresh for every path)
        _code[key] = compile(tree, path, "exec", dont_inherit=True, flags=__future__.annotations.compiler_flag)
    return _code[key]


def locate(modname):
    rel = modname.split(".")[1:]
    p = os.path.join(ROOT, *rel)
    if os.path.isdir(p): 
        return os.path.join(p, "__init__.py"), True
    return p + ".py", False


class Package:
    def __init__(self, mode, world):
        self.mode, self.world = mode, world
        self.mods = {}
        self.b = dict(vars(builtins))
        self.b["__import__"] = self._import
        if mode == "sym":
            self.extra = helpers(world)
        else:
            self.extra = {}
            if getattr(world, "builtin_overrides", None): self.b.update(world.builtin_overrides)

    def load(self, name):
        if name in self.mods: return self.mods[name]
        if name == "ruleskit._version":
            m = types.ModuleType(name)
            m.get_versions = lambda: {"version": "0"}
            self.mods[name] = m
            setattr(self.load("ruleskit"), "_version", m)
            return m
        path, pkg = locate(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.b
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        m.__dict__.update(self.extra)
        self.mods[name] = m
        if os.path.exists(path):
            try:
                exec(get_code(name, path, self.mode == "sym"), m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        elif not pkg:
            self.mods.pop(name, None)
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        par, _, leaf = name.rpartition(".")
        if par: setattr(self.load(par), leaf, m)
        return m

    def exists(self, name):
        p, pkg = locate(name)
        return os.path.exists(p) or pkg

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"]
            for _ in range(level - 1): base = base.rpartition(".")[0]
            full = base + ("." + name if name else "")
        else:
            full = name
        if full == "ruleskit" or full.startswith("ruleskit."):
            parts = full.split(".")
            m = None
            for i in range(1, len(parts) + 1):
                m = self.load(".".join(parts[:i]))
            if not fromlist: return self.mods["ruleskit"] if not level else m
            for f in fromlist:
                if not hasattr(m, f) and self.exists(full + "." + f) and hasattr(m, "__path__"):
                    self.load(full + "." + f)
            return m
        stub = self.world.stub(full) if self.world is not None else None
        if stub is not None: return stub
        if full.split(".")[0] == "transparentpath": raise ImportError("No module named 'transparentpath'")
        return builtins.__import__(name, globals, locals, fromlist, level)


# ------------------------------------------------------------------------------------------------ builtin helpers
class SHash(int):
    """structural hash: equal iff the hashed structures hash alike under CPython's numeric/tuple/str hashing, collisions
    other than hash(-1) == hash(-2) excluded"""
    def __new__(cls, struct):
        o = int.__new__(cls, 20240229)
        o.struct = struct
        return o
    def _same(self, o):
        if isinstance(o, SHash): return mk_bool(hash_same(self.struct, o.struct))
        return False
    def __eq__(self, o): return self._same(o)
    def __ne__(self, o):
        r = self._same(o)
        return mk_bool(b_not(as_b(r)))
    def __hash__(self): return 20240229
    def __deepcopy__(self, m): return self
    def __copy__(self): return self


def hash_same(a, b):
    if isinstance(a, SHash): a = a.struct
    if isinstance(b, SHash): b = b.struct
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b): return False
        return b_and(*[hash_same(x, y) for x, y in zip(a, b)])
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        if len(a) != len(b): return False
        bl = list(b)
        rest = []
        for x in a:
            rest.append(b_or(*[hash_same(x, y) for y in bl]))
        for y in bl:
            rest.append(b_or(*[hash_same(x, y) for x in a]))
        return b_and(*rest)
    ka, kb = num_kind(a), num_kind(b)
    if ka is not None and kb is not None:
        if not isinstance(a, Sym) and not isinstance(b, Sym): return hash(a) == hash(b)
        e = cmp_op("eq", a, b)
        m12 = b_or(b_and(cmp_op("eq", a, -1), cmp_op("eq", b, -2)), b_and(cmp_op("eq", a, -2), cmp_op("eq", b, -1)))
        return b_or(e, m12)
    if (ka is None) != (kb is None): return False
    try:
        return hash(a) == hash(b)
    except TypeError:
        return a is b


def contains_sym(x):
    if isinstance(x, (Sym, SHash)): return True
    if isinstance(x, (tuple, frozenset)): return any(contains_sym(v) for v in x)
    return False


def s_hash(x):
    if isinstance(x, SHash): return x
    if isinstance(x, Sym): return SHash(x)
    if isinstance(x, str) and has_ph(x): return SHash(x)
    if isinstance(x, (tuple, frozenset)) and contains_sym(x): return SHash(x)
    h = getattr(type(x), "__hash__", None)
    if h is None: raise TypeError("unhashable type: '%s'" % type(x).__name__)
    if isinstance(x, (int, float, str, tuple, frozenset, type(None), type, types.FunctionType)): return hash(x)
    return h(x)


def s_isinstance(x, cls):
    if isinstance(cls, tuple): return any(s_isinstance(x, c) for c in cls)
    if isinstance(x, (snp.SArr, snp.FillArr)):
        return cls in (snp.SArr, np.ndarray, object) or (isinstance(cls, type) and cls is not snp.SArr and issubclass(np.ndarray, cls) if isinstance(cls, type) else False)
    if isinstance(x, Sym):
        t = vtype(x)
        try: return issubclass(t, cls)
        except TypeError: return isinstance(x, cls)
    return isinstance(x, cls)


def s_type(*a):
    if len(a) != 1: return type(*a)
    x = a[0]
    if isinstance(x, (snp.SArr, snp.FillArr)): return np.ndarray
    t = vtype(x)
    return t if t is not None else type(x)


def s_str(*a, **k):
    if not a: return str()
    return str(a[0]) if len(a) == 1 and not k else str(*a, **k)


def s_int(x=0, base=None):
    if isinstance(x, str) and has_ph(x):
        s = x.strip()
        if base == 2:
            bits = []
            for ch in s:
                if has_ph(ch):
                    v = ph_get(ch)
                    b = bitof(v) if not isinstance(v, SymFloat) else None
                    if b is None:
                        if not Ctx.cur.branch(zb(b_or(cmp_op("eq", v, 0), cmp_op("eq", v, 1)))): raise ValueError("invalid literal for int() with base 2")
                        b = as_b(v)
                    bits.append(b)
                elif ch in "01": bits.append(ch == "1")
                else: raise ValueError("invalid literal for int() with base 2: %r" % x)
            return int_of_bits(bits)
        if base in (None, 10) and len(s) == 1:
            v = ph_get(s)
            if isinstance(v, SymFloat): raise ValueError("invalid literal for int() with base 10: %r" % s)
            return v
        if all(has_ph(c) or c in "0123456789" for c in s):
            # digits
            r = 0
            for c in s:
                v = ph_get(c) if has_ph(c) else int(c)
                r = scalar_op("add", scalar_op("mul", r, 10), v)
            return r
        raise ValueError("invalid literal for int()")
    if base is not None: return int(x, base)
    if isinstance(x, SymBool): return int_of_bit(x.t)
    if isinstance(x, SymInt): return with_dt(x, None)
    if isinstance(x, SymFloat): return cast_int(x.with_dt(None))
    if isinstance(x, SymCase): return mk_case([(g, s_int(v)) for g, v in x.cases])
    if isinstance(x, snp.SArr): return s_int(x.item())
    return int(x)


def s_float(x=0.0):
    if isinstance(x, str) and has_ph(x):
        s = x.strip()
        if len(s) == 1: return s_float(ph_get(s))
        raise ValueError("could not convert string to float: %r" % x)
    if isinstance(x, SymCase): return mk_case([(g, s_float(v)) for g, v in x.cases])
    if isinstance(x, Sym):
        f = to_float(x)
        return mk_float(f.r, f.nan, f.pinf, f.ninf, None, f.src)
    if isinstance(x, snp.SArr) or snp.is_pd(x): return s_float(x.item())
    return float(x)


def s_bool(x=False):
    if isinstance(x, Sym): return mk_bool(as_b(x))
    return bool(x)


def s_len(x):
    if isinstance(x, snp.FillArr): return x.n
    if not isinstance(x, (str, list, tuple, dict, set)):
        # user classes whose __len__ returns a symbolic integer
        f = getattr(type(x), "__len__", None)
        if f is not None and type(x).__module__.startswith("ruleskit"): return f(x)
    return len(x)


def s_bin(x):
    if isinstance(x, SymInt):
        bs = list(x.get_bits())
        if len(bs) > 1 and x.lo is not None and x.lo < 0: raise Unmodelled("bin of negative")
        while len(bs) > 1 and not Ctx.cur.branch(zb(bs[0])): bs = bs[1:]
        if len(bs) > 1: bs[0] = True
        return "0b" + "".join("1" if b is True else "0" if b is False else num_to_str(int_of_bit(b)) for b in bs)
    if isinstance(x, SymBool): return "0b" + num_to_str(int_of_bit(x.t))
    return bin(x)


def s_sum(it, start=0):
    xs = list(it)
    r = start
    for x in xs:
        r = r + x
    return r


def _ext(name, f2):
    real = getattr(builtins, name)
    def f(*a, **k):
        if k: 
            return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and any(isinstance(x, Sym) for x in xs) and all(isinstance(x, Sym) or num_kind(x) is not None for x in xs):
            r = xs[0]
            for x in xs[1:]: r = f2(r, x)
            return r
        return real(xs)
    return f


def s_any(it):
    r = False
    for x in it:
        if isinstance(x, Sym): r = b_or(r, as_b(x))
        elif x: return True
        if r is True: return True
    return mk_bool(r)


def s_all(it):
    r = True
    for x in it:
        if isinstance(x, Sym): r = b_and(r, as_b(x))
        elif not x: return False
        if r is False: return False
    return mk_bool(r)


def s_range(*a):
    return range(*[int(x) if isinstance(x, Sym) else x for x in a])


def s_round(x, n=None):
    if isinstance(x, (SymInt, SymBool)) and n is None: return x
    if isinstance(x, SymFloat):
        if n is None:
            if Ctx.cur.branch(zb(b_not(x.fin))): raise ValueError("cannot convert float NaN to integer")
            import z3
            f = z3.ToInt(x.r)
            d = x.r - z3.ToReal(f)
            return mk_int(z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1))))
        s = scalar_op("mul", x, 10 ** int(n))
        r = s_round(s.with_dt(None) if isinstance(s, SymFloat) else s)
        return scalar_op("div", r, 10 ** int(n))
    return round(x) if n is None else round(x, n)


def s_npcast(t, x):
    if not isinstance(t, type) or not issubclass(t, np.generic): return t(x)
    if isinstance(x, (snp.SArr, snp.FillArr)): return snp.as_sarr(x).astype(t)
    if isinstance(x, Sym): return with_dt(cast(x, np.dtype(t)), np.dtype(t))
    return t(x)


def literal_eval(s):
    if not isinstance(s, str) or not has_ph(s):
        return ast.literal_eval(s)
    names = {}
    out = []
    for ch in s:
        if has_ph(ch):
            nm = "_ph%x_" % ord(ch)
            names[nm] = ph_get(ch)
            out.append(nm)
        else: out.append(ch)
    tree = ast.parse("".join(out).strip(), mode="eval")
    def ev(n):
        if isinstance(n, ast.Constant): return n.value
        if isinstance(n, ast.Name) and n.id in names: return names[n.id]
        if isinstance(n, ast.List): return [ev(x) for x in n.elts]
        if isinstance(n, ast.Tuple): return tuple(ev(x) for x in n.elts)
        if isinstance(n, ast.Set): return {ev(x) for x in n.elts}
        if isinstance(n, ast.Dict): return {ev(k): ev(v) for k, v in zip(n.keys, n.values)}
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
            v = ev(n.operand)
            return -v if isinstance(n.op, ast.USub) else v
        raise ValueError("malformed node or string: %r" % n)
    return ev(tree.body)


class AstMod:
    literal_eval = staticmethod(literal_eval)
    def __getattr__(self, n): return getattr(ast, n)


class MathMod:
    def __getattr__(self, n):
        v = getattr(math, n)
        if not callable(v): return v
        def f(*a, **k):
            a = [x.item() if isinstance(x, snp.SArr) else x for x in a]
            if not any(isinstance(x, Sym) for x in a): return v(*a, **k)
            x = a[0]
            if n == "sqrt":
                if Ctx.cur.branch(zb(cmp_op("lt", x, 0))): raise ValueError("math domain error")
                r = sqrt_float(x)
                return mk_float(r.r, r.nan, r.pinf, r.ninf)
            if n == "isnan": return mk_bool(to_float(x).nan)
            if n == "isinf": return mk_bool(b_or(to_float(x).pinf, to_float(x).ninf))
            if n == "isfinite": return mk_bool(to_float(x).fin)
            if n == "isclose": return snp.close_scalar(a[0], a[1], k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0), True)
            if n == "trunc": return s_int(x)
            if n == "fabs": return s_abs(to_float(x))
            if n in ("floor", "ceil"):
                f_ = to_float(x)
                import z3
                return mk_int(z3.ToInt(f_.r) if n == "floor" else -z3.ToInt(-f_.r))
            Ctx.cur.incomplete.append("math." + n + " concretised")
            return v(*[snp.conc_scalar(y) for y in a], **k)
        return f


def helpers(world):
    def enter(q):
        Ctx.cur.functions.add(q)
    return dict(_s_enter=enter, _s_str=s_str, _s_int=s_int, _s_float=s_float, _s_bool=s_bool, _s_len=s_len, _s_isinstance=s_isinstance,
                _s_issubclass=issubclass, _s_type=s_type, _s_bin=s_bin, _s_sum=s_sum, _s_min=_ext("min", snp.s_min2), _s_max=_ext("max", snp.s_max2),
                _s_any=s_any, _s_all=s_all, _s_abs=abs, _s_hash=s_hash, _s_open=world.open, _s_round=s_round, _s_sorted=sorted,
                _s_print=lambda *a, **k: None, _s_range=s_range, _s_set=set, _s_frozenset=frozenset, _s_npcast=s_npcast, _s_format=format,
                _s_id=id, _s_callable=callable)


# ------------------------------------------------------------------------------------------------ modelled environment
class MemFile:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        if "w" in mode: fs.files[path] = ("t", "") if "b" not in mode else ("e", None)
        elif path not in fs.files: raise FileNotFoundError(2, "No such file or directory", path)
        self.name = path
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def flush(self): pass
    def fileno(self): return 99
    def write(self, s):
        k, v = self.fs.files[self.path]
        self.fs.files[self.path] = ("t", (v or "") + (s if isinstance(s, str) else s.decode()))
    def writelines(self, xs):
        for x in xs: self.write(x)
    def read(self, *a):
        k, v = self.fs.files[self.path]
        return v if v is not None else ""
    def readlines(self): return self.read().splitlines(True)
    def readline(self): return self.readlines()[0]
    def __iter__(self): return iter(self.readlines())
    def seek(self, *a): pass


class MemFS:
    def __init__(self):
        self.files = {}
        self.dirs = {"/", "/tmp"}


_FS = None


class SPath(pathlib.PurePosixPath):
    def is_file(self): return str(self) in _FS.files
    def exists(self): return str(self) in _FS.files or self.is_dir()
    def is_dir(self): return str(self) in _FS.dirs
    def touch(self, *a, **k): _FS.files.setdefault(str(self), ("e", None))
    def unlink(self, missing_ok=False):
        if str(self) not in _FS.files:
            if missing_ok: return
            raise FileNotFoundError(2, "No such file or directory", str(self))
        del _FS.files[str(self)]
    def mkdir(self, *a, **k): _FS.dirs.add(str(self))
    def glob(self, pat):
        import fnmatch
        return [SPath(p) for p in sorted(_FS.files) if str(SPath(p).parent) == str(self) and fnmatch.fnmatch(SPath(p).name, pat)]
    def iterdir(self): return [SPath(p) for p in sorted(_FS.files) if str(SPath(p).parent) == str(self)]
    def stat(self):
        if str(self) not in _FS.files: raise FileNotFoundError(2, "No such file or directory", str(self))
        k, v = _FS.files[str(self)]
        return types.SimpleNamespace(st_size=128 + (v.nbytes if k == "npy" else len(v or "")))
    def open(self, mode="r", **k): return MemFile(_FS, str(self), mode)
    def read_text(self, *a): return MemFile(_FS, str(self), "r").read()
    def write_text(self, s, *a): MemFile(_FS, str(self), "w").write(s)
    def read_bytes(self): return self.read_text().encode()
    def resolve(self, *a): return self
    def absolute(self): return self
    def expanduser(self): return self
    def rename(self, o):
        _FS.files[str(o)] = _FS.files.pop(str(self)); return SPath(o)
    def replace(self, o): return self.rename(o)
    @classmethod
    def cwd(cls): return cls("/cwd")
    @classmethod
    def home(cls): return cls("/home")


class SymWorld:
    """environment of a symbolic path"""
    def __init__(self, env):
        global _FS
        self.env = env
        self.fs = _FS = MemFS()
        self.nt = 0
        self.cache = {}
        spd.FS.write_text = staticmethod(lambda p, t: self.fs.files.__setitem__(str(p), ("t", t)))
        spd.FS.read_text = staticmethod(self.read_text)

    def read_text(self, p):
        if str(p) not in self.fs.files: raise FileNotFoundError(2, "No such file or directory", str(p))
        return self.fs.files[str(p)][1] or ""

    def open(self, path, mode="r", *a, **k): return MemFile(self.fs, str(path), mode)

    def np_save(self, f, arr, **k):
        p = f.path if isinstance(f, MemFile) else str(f) + ("" if str(f).endswith(".npy") else ".npy")
        self.fs.files[p] = ("npy", snp.as_sarr(arr).copy())

    def np_load(self, f, **k):
        p = f.path if isinstance(f, MemFile) else str(f)
        if p not in self.fs.files: raise FileNotFoundError(2, "No such file or directory", p)
        kd, v = self.fs.files[p]
        if kd != "npy": raise EOFError("No data left in file")
        return v.copy()

    def stub(self, full):
        if full in self.cache: return self.cache[full]
        m = self._stub(full)
        if m is not None: self.cache[full] = m
        return m

    def _stub(self, full):
        env = self.env
        if full == "numpy": return snp.Module(self)
        if full == "pandas": return spd.Module()
        if full == "bitarray": return sbit.Module()
        if full == "ast": return AstMod()
        if full == "math": return MathMod()
        if full == "pathlib":
            m = types.ModuleType("pathlib"); m.Path = SPath; m.PurePath = pathlib.PurePosixPath; m.PosixPath = SPath; return m
        if full == "tempfile":
            m = types.ModuleType("tempfile"); m.gettempdir = lambda: "/tmp"; return m
        if full == "time":
            m = types.ModuleType("time"); m.time = self._time; m.perf_counter = self._time; m.sleep = lambda s: None; return m
        if full == "sys":
            class Sys:
                getsizeof = staticmethod(lambda *a: env.env_int("getsizeof", 1))
                def __getattr__(self, n): return getattr(sys, n)
            return Sys()
        if full == "psutil":
            class VM:
                @property
                def available(s): return env.env_int("available_memory", 0)
                total = 2 ** 40
            m = types.ModuleType("psutil"); m.virtual_memory = lambda: VM(); m.cpu_count = lambda *a, **k: 1; return m
        if full == "random":
            m = types.ModuleType("random")
            m.randint = lambda a, b: env.randint(a, b)
            m.randrange = lambda a, b=None: env.randint(0 if b is None else a, (a if b is None else b) - 1)
            m.choice = lambda s: s[env.randint(0, len(s) - 1)]
            m.random = lambda: 0.5
            return m
        if full == "json":
            import json
            m = types.ModuleType("json")
            m.load = lambda f: json.loads(f.read())
            m.loads, m.dumps = json.loads, json.dumps
            m.dump = lambda o, f: f.write(json.dumps(o))
            m.JSONDecodeError = json.JSONDecodeError
            return m
        if full == "os": 
            class OS:
                class path:
                    exists = staticmethod(lambda p: SPath(p).exists())
                    isfile = staticmethod(lambda p: SPath(p).is_file())
                    isdir = staticmethod(lambda p: SPath(p).is_dir())
                    join = staticmethod(os.path.join)
                    basename = staticmethod(os.path.basename)
                    dirname = staticmethod(os.path.dirname)
                    splitext = staticmethod(os.path.splitext)
                remove = staticmethod(lambda p: SPath(p).unlink())
                unlink = remove
                getpid = staticmethod(lambda: 4242)
                environ = {}
                sep = "/"
                fspath = staticmethod(str)
            return OS()
        if full == "collections":
            import collections
            return collections
        return None

    def _time(self):
        self.nt += 1
        return 1000.0 + self.nt * 0.5
