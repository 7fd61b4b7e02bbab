ID = "C02"
BOUNDS = {"quick": "vectors of 1 to 4 arbitrary bits and lengths around 8, 64, 128, 256 and the integer constants of activation.py (up to 300) with 3 arbitrary bits; every input form x setting; statistics asked in every order of two first questions, then all of them",
          "thorough": "vectors of 1 to 6 arbitrary bits; lengths up to 2000; every order of three first questions"}
ASSUMES = "Vectors of at least one point."
from . import actlib as L

STATS = ["length", "nones", "ones", "coverage", "entropy", "rel_entropy", "raw"]


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, b) for a, b in k.items()), k))
    q = tier == "quick"
    for form in L.FORMS:
        for st in L.SETTINGS:
            for opt in (True, False):
                if not opt and form not in ("bitarray", "integer"): continue
                for n in ((1, 3) if q else (1, 2, 3, 4)):
                    if form == "carray" and n < 2: continue
                    add(form=form, setting=st, opt=opt, n=n, pattern="all", depth=1)
    for form in L.FORMS:
        for st in ("str", "wcarr") if q else L.SETTINGS:
            add(form=form, setting=st, opt=False, n=2, pattern="all", depth=2 if q else 3)
            add(form=form, setting=st, opt=True, n=4 if q else 6, pattern="all", depth=0)
    big = sorted({8, 64, 65, 127, 128, 129, 255, 256, 257} | set(L.literal_sizes(300 if q else 2000)))
    for i, n in enumerate(big):
        for j, form in enumerate(("raw", "bitarray", "integer", "ctext", "carray", "tofile")):
            for k, pattern in enumerate(("zeros", "ones", "blocks", "alt")):
                if form == "carray" and n < 2: continue
                if q and (i + j + k) % 4: continue
                add(form=form, setting=("str", "wc", "arr", "raw", "wcarr")[(i + 2 * j + k) % 5], opt=(i + j) % 2 == 0, n=n, pattern=pattern, depth=0)
    return out


def run(env, form, setting, opt, n, pattern, depth):
    bits = env.bits("b", n) if pattern == "all" else L.sparse_bits(env, n, pattern)
    L.apply(env, setting)
    a = L.build(env, form, bits, opt)
    nones = env.sum(bits)
    changes = env.sum([env.ite(bits[i] == bits[i - 1], 0, 1) for i in range(1, n)])

    def ask(s):
        if s == "length":
            env.require_eq(len(a), n, "len")
            env.require_eq(a.length, n, "length")
        elif s == "nones": env.require_eq(a.nones, nones, "nones")
        elif s == "coverage": env.require_close(a.coverage, env.div(nones, n), "coverage")
        elif s == "entropy": env.require_eq(a.entropy, changes + 2, "entropy")
        elif s == "rel_entropy": env.require_close(a.rel_entropy, env.div(changes + 2, n), "rel_entropy")
        elif s == "raw": env.require_eq(a.raw, bits, "raw")
        else:
            got = list(a.ones)
            env.require_eq([x for x in got], [i for i in range(n) if bits[i] == 1], "ones")

    for d in range(depth): ask(env.choice("ask%d" % d, STATS))
    for s in STATS: ask(s)
    env.observe("stored as", a.data_format)
