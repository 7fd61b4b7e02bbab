ID = "C03"
BOUNDS = {"quick": "two vectors of 1 to 3 arbitrary bits (and lengths 8, 64, 256 +-1 with 3 arbitrary bits each) in every pair of stored formats; AND/OR/XOR of 1 to 3 vectors of 2 bits in every mix of formats, any free memory, memory running out while they are put together; lengths 1-3 against another length",
          "thorough": "two vectors of up to 4 bits; AND/OR/XOR of up to 4 vectors of up to 3 bits"}
ASSUMES = "With little free memory reported by the system, the AND / OR of many vectors may be refused with MemoryError."
from . import actlib as L

OPS = ["and", "or", "xor", "add", "sub"]
# (setting while building, form, optimize) -> stored formats raw, bitarray, integer, compressed text, compressed array, file
KINDS = {"raw": ("raw", "raw"), "bitarray": ("str", "bitarray"), "integer": ("wc", "integer"), "ctext": ("str", "ctext"), "carray": ("arr", "carray"),
         "file": ("str", "tofile"), "lasy": ("str", "lasy"), "auto": ("str", "raw"), "autowc": ("wcarr", "int64")}


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, b) for a, b in k.items()), k))
    q = tier == "quick"
    ks = list(KINDS)
    for i, k1 in enumerate(ks):
        for j, k2 in enumerate(ks):
            for after in ("str", "wc") if (i == j or not q) else (("str", "wc")[(i + j) % 2],):
                add(what="pair", k1=k1, k2=k2, n=2, pattern="all", after=after)
            if not q or (((i + j) % 3 == 0 or i == j) and "auto" not in k1 + k2): add(what="pair", k1=k1, k2=k2, n=3 if q else 4, pattern="all", after="str")
    for k in ks:
        for after in ("raw", "arr"): add(what="pair", k1=k, k2=k, n=1 if q and k != "carray" else 2, pattern="all", after=after)
        if k != "carray": add(what="pair", k1=k, k2=k, n=1, pattern="all", after="str")
    sizes = sorted({8, 9, 64, 65, 255, 256, 257} | set(x for x in L.literal_sizes(300 if q else 2000) if x > 4))
    for i, n in enumerate(sizes):
        for k in ("bitarray", "integer", "raw", "ctext", "file", "carray"):
            add(what="pair", k1=k, k2=k if (i + len(k)) % 2 else "bitarray", n=n, pattern=("zeros", "ones", "blocks")[(i + len(k)) % 3], after="str", ops=[OPS[(i + len(k)) % 5]] if q else OPS)
    for k1 in ks:
        for k2 in ks:
            if q and k1 != k2 and "auto" not in (k1, k2): continue
            add(what="lengths", k1=k1, k2=k2, n=2, pattern="all", after="str")
    multi = [["raw"], ["bitarray"], ["file"], ["integer", "integer"], ["bitarray", "bitarray"], ["raw", "bitarray"], ["file", "file"], ["file", "raw"], ["ctext", "carray"],
             ["raw", "raw", "raw"], ["file", "file", "file"], ["bitarray", "integer", "ctext"], ["carray", "file", "raw"], ["lasy", "raw", "bitarray"], ["integer"] * 3, ["ctext"] * 3]
    if not q: multi += [["raw"] * 4, ["file", "raw", "ctext", "integer"], ["bitarray"] * 4]
    for ms in multi:
        for op in ("mand", "mor", "mxor"):
            if q and op == "mxor" and len(ms) == 3 and ms[0] in ("lasy", "ctext", "carray"): continue
            for mem in ("any", "ample") if len(ms) < 3 else ("any", "ample", "fails") if op != "mxor" or not q else ("ample",):
                add(what=op, k1=",".join(ms), k2=mem, n=2 if (q or len(ms) > 3) else 3, pattern="all", after="str")
            add(what=op, k1=",".join(ms), k2="asarray", n=2, pattern="all", after="wc")
    return out


def make(env, kind, bits):
    A = env.Activation
    A.DTYPE, A.WILL_COMPARE, A.STORE_RAW = str, False, False
    st, form = KINDS[kind]
    L.apply(env, st)
    a = L.build(env, form, bits, opt=kind not in ("bitarray", "integer"))
    A.DTYPE, A.WILL_COMPARE, A.STORE_RAW = str, False, False
    return a


def vec(env, n, pattern, name):
    return env.bits(name, n) if pattern == "all" else L.sparse_bits(env, n, pattern, name)


def opspec(env, op, x, y):
    if op == "and": return env.ite(env.and_(x == 1, y == 1), 1, 0)
    if op in ("or", "add"): return env.ite(env.or_(x == 1, y == 1), 1, 0)
    if op == "xor": return env.ite(x == y, 0, 1)
    return env.ite(env.and_(x == 1, y == 0), 1, 0)


def apply_op(op, a, b):
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op == "add": return a + b
    return a - b


def run(env, what, k1, k2, n, pattern, after, ops=OPS):
    A = env.Activation
    if what == "pair":
        x, y = vec(env, n, pattern, "x"), vec(env, n, pattern, "y")
        a, b = make(env, k1, x), make(env, k2, y)
        L.apply(env, after)
        op = env.choice("op", ops)
        r = apply_op(op, a, b)
        env.require_eq(r.raw, [opspec(env, op, p, q) for p, q in zip(x, y)], op)
        env.require_eq(len(r), n, "length of " + op)
        env.require_eq(r.nones, env.sum([opspec(env, op, p, q) for p, q in zip(x, y)]), "ones of " + op)
        for v, bits in ((a, x), (b, y)):
            env.require_eq(v.raw, bits, "operand changed by " + op)
            env.require_eq(len(v), n, "length of operand after " + op)
            env.require_eq(v.nones, env.sum(bits), "ones of operand after " + op)
        env.observe("formats", [a.data_format, b.data_format, r.data_format])
        return
    if what == "lengths":
        op = env.choice("op", OPS)
        m = env.choice("m", [1, 3, 4])
        if m == 1 and (k1 == "carray" or k2 == "carray"): m = 5
        swap = env.choice("swap", [False, True])
        x, y = [env.bit("x"), 1] + [0] * (n - 2), [1] * (m - 1) + [env.bit("y")]
        a, b = make(env, k1, x), make(env, k2, y)
        if swap: a, b = b, a
        env.require(env.raises(Exception, apply_op, op, a, b), op + " of different lengths accepted")
        return
    kinds = k1.split(",")
    vs = [env.bits("v%d_" % i, n) for i in range(len(kinds))]
    env.ample_memory = k2 in ("ample", "fails")
    acs = [make(env, k, v) for k, v in zip(kinds, vs)]
    L.apply(env, after)
    f = A.multi_logical_and if what == "mand" else A.multi_logical_or if what == "mor" else A.multi_logical_xor
    try:
        if k2 == "fails":     # memory runs out while the vectors are put together
            with env.failing_stack(2): r = f(acs)
        else: r = f(acs, True) if k2 == "asarray" else f(acs)
    except MemoryError:
        env.require(k2 != "ample", "MemoryError with plenty of memory")
        return
    if what == "mxor": spec = [vs[0][i] if len(vs) == 1 else env.ite(env.and_(env.or_(*[v[i] == 1 for v in vs]), env.or_(*[v[i] == 0 for v in vs])), 1, 0) for i in range(n)]
    elif what == "mand": spec = [env.ite(env.and_(*[v[i] == 1 for v in vs]), 1, 0) for i in range(n)]
    else: spec = [env.ite(env.or_(*[v[i] == 1 for v in vs]), 1, 0) for i in range(n)]
    if k2 == "asarray": env.require_eq(r, spec, what)
    else:
        env.require_eq(r.raw, spec, what)
        env.require_eq(len(r), n, "length of " + what)
        env.require_eq(r.nones, env.sum(spec), "ones of " + what)
    for a, v in zip(acs, vs): env.require_eq(a.raw, v, "operand changed by " + what)
