ID = "C05"
BOUNDS = {"quick": "vectors of 1 to 3 arbitrary bits in every stored format; any first question followed by all the others, with and without forced profiling; histories of 2 operations (create, copy, profile, clear, delete, combine) over up to 4 file vectors with up to 2 collisions of file names",
          "thorough": "as quick with 4 bits; any two first questions; histories of 4 operations"}
ASSUMES = "Vectors of at least one point. A vector opened on the file of another one shares that file and is not deleted here."
import copy
from . import actlib as L
from .c03 import KINDS, make

READS = ["raw", "as_bitarray", "as_integer", "as_compressed", "as_compressed_str", "as_compressed_array", "ones", "nones", "entropy", "rel_entropy", "coverage",
         "sizeof_path", "sizeof_file", "sizeof_raw", "sizeof_bitarray", "sizeof_integer", "sizeof_compressed_array", "sizeof_compressed_str",
         "time_write", "time_read", "time_raw_to_compressed", "time_raw_to_integer", "time_raw_to_bitarray", "time_compressed_to_raw", "time_bitarray_to_raw",
         "time_integer_to_raw", "time_compressed_to_bitarray", "time_bitarray_to_compressed", "time_integer_to_compressed", "time_bitarray_to_integer",
         "time_integer_to_bitarray", "time_compressed_to_integer", "str", "len"]
SETTINGS = ["DTYPE", "WILL_COMPARE", "STORE_RAW", "FORCE_STAT", "NCPUS", "DEFAULT_TEMPDIR"]


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, b) for a, b in k.items()), k))
    q = tier == "quick"
    for k in KINDS:
        for force in (False, True):
            for after in ("str", "wc", "arr"):
                if q and force and after == "arr" and k not in ("carray", "file", "raw"): continue
                for n in ((2,) if q else (1, 2, 3)):
                    if k == "carray" and n < 2: continue
                    add(what="reads", kind=k, n=n, force=force, after=after, first=1)
        add(what="reads", kind=k, n=2 if k == "carray" else 1, force=True, after="str", first=1)
        add(what="reads", kind=k, n=3 if q else 4, force=True, after="wc", first=0)
        if not q: add(what="reads", kind=k, n=2, force=True, after="str", first=2)
        for n in (1, 2, 3):
            if k == "carray" and n < 2: continue
            for after in ("str", "wc", "arr", "raw"): add(what="copy", kind=k, n=n, force=False, after=after, first=0)
    for first in ("create", "copy", "profile", "delete", "lasy", "and"):
        add(what="history", kind=first, n=1, force=False, after="str", first=2 if q else 4)
    if q: return out
    add(what="history", kind="copy", n=2, force=False, after="str", first=2)
    add(what="history", kind="create", n=2, force=False, after="wc", first=2)
    add(what="history", kind="profile", n=2, force=False, after="arr", first=2)
    return out


def settings(env):
    A = env.Activation
    return [str(getattr(A, s, None)) for s in SETTINGS]


def ask(env, a, s):
    if s == "str": return str(a.data_format)
    if s == "len": return len(a)
    if not hasattr(type(a), s): return None
    return getattr(a, s)


def facts(env, a, bits, when):
    n = len(bits)
    env.require_eq(a.raw, bits, "contents " + when)
    env.require_eq(len(a), n, "length " + when)
    env.require_eq(a.nones, env.sum(bits), "ones " + when)
    env.require_eq(a.entropy, env.sum([env.ite(bits[i] == bits[i - 1], 0, 1) for i in range(1, n)]) + 2, "entropy " + when)
    env.require_close(a.coverage, env.div(env.sum(bits), n), "coverage " + when)
    env.require_close(a.rel_entropy, env.div(env.sum([env.ite(bits[i] == bits[i - 1], 0, 1) for i in range(1, n)]) + 2, n), "relative entropy " + when)


def run(env, what, kind, n, force, after, first):
    A = env.Activation
    if what == "history": return history(env, kind, n, after, first)
    bits = env.bits("b", n)
    a = make(env, kind, bits)
    L.apply(env, after)
    A.FORCE_STAT = force
    st = settings(env)
    fmt = a.data_format
    if what == "copy":
        if n == 2:
            q = env.choice("asked", ["nothing", "nones", "all"])
            if q == "nones": env.require_eq(a.nones, env.sum(bits), "ones before copying")
            elif q == "all": facts(env, a, bits, "before copying")
        b = copy.copy(a)
        if n != 3: facts(env, b, bits, "of the copy")
        facts(env, a, bits, "after copying")
        w = env.choice("then", ["clear copy", "delete copy", "clear original", "delete original"])
        x = b if "copy" in w else a
        if w.startswith("clear"): x.clear()
        else: x.delete()
        facts(env, a if x is b else b, bits, "after: " + w)
        return
    reads = [r for r in READS]
    for i in range(first):
        s = env.choice("first%d" % i, reads)
        ask(env, a, s)
        facts_light(env, a, bits, "after " + s)
    for s in reads:
        ask(env, a, s)
        env.require_eq(len(a), n, "length after " + s)
    env.require_eq(a.as_bitarray, bits, "bit array after all reads")
    env.require_eq(a.as_integer, env.pack(bits), "integer after all reads")
    facts(env, a, bits, "after all reads")
    env.require(settings(env) == st, "global settings changed")


def facts_light(env, a, bits, when):
    env.require_eq(a.raw, bits, "contents " + when)
    env.require_eq(len(a), len(bits), "length " + when)


def history(env, start, n, after, steps):
    A, np = env.Activation, env.np
    env.max_collisions = 2 if start in ("create", "delete") or steps > 2 else 1
    L.apply(env, after)
    live = []
    def create(tag):
        bits = env.bits("b%s_" % tag, n)
        live.append((A(np.array(bits, dtype=np.ubyte)), bits))
    create("x"); create("y")
    def check(when):
        for a, bits in live: facts_light(env, a, bits, when)
    check("after creation")
    OPS = ["create", "copy", "profile", "delete", "lasy", "and", "clear"]
    shared = set()
    for k in range(steps):
        op = start if k == 0 else env.choice("op%d" % k, OPS)
        if not live: break
        if op == "create": create(str(k))
        elif op == "copy":
            a, bits = live[env.choice("i%d" % k, list(range(len(live))))]
            live.append((copy.copy(a), bits))
        elif op == "lasy":
            a, bits = live[0]
            if a.data_format != "file": continue
            l = A(a.data, lasy=True)
            shared.add(id(a)); shared.add(id(l))
            live.append((l, bits))
        elif op == "profile":
            a, bits = live[env.choice("i%d" % k, list(range(len(live))))]
            A.FORCE_STAT = True
            for s in ("time_write", "time_read", "sizeof_file", "sizeof_path"): getattr(a, s)
            a2 = A(np.array(bits, dtype=np.ubyte), to_file=False)
            for s in ("time_write", "sizeof_file", "time_read", "time_raw_to_bitarray"): getattr(a2, s)
            live.append((a2, bits))
            A.FORCE_STAT = False
        elif op == "and":
            (a, x), (b, y) = live[0], live[-1]
            live.append((a & b, [env.ite(env.and_(p == 1, q == 1), 1, 0) for p, q in zip(x, y)]))
        elif op == "clear":
            i = env.choice("i%d" % k, list(range(len(live))))
            a, bits = live[i]
            a.clear()
            live[i] = (a, [0] * n)
        elif op == "delete":
            i = env.choice("i%d" % k, list(range(len(live))))
            if id(live[i][0]) in shared: continue
            live.pop(i)[0].delete()
        check("after " + op)
