ID = "C01"
BOUNDS = {"quick": "vectors of 1 to 4 arbitrary bits; lengths around every integer constant of activation.py up to 600 and around 8, 32, 64, 128, 256 with 3 arbitrary bits, and 1101, 32769 and 65537 observations (in one form each) with up to 3; every form of input x every setting (text/array compression, WILL_COMPARE, STORE_RAW) x optimize on/off; any object sizes reported by the system",
          "thorough": "vectors of 1 to 6 arbitrary bits; lengths around constants up to 5000"}
ASSUMES = "Vectors of at least one point; a compressed array given by the user has length 2 or more (for one point it cannot be told from a raw vector)."
from . import actlib as L

EXPORTS = ["raw", "bitarray", "integer", "ctext", "carray"]


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, b) for a, b in k.items()), k))
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    for form in L.FORMS:
        for st in L.SETTINGS:
            for opt in (True, False):
                if not opt and form not in ("bitarray", "integer", "bintext"): continue
                for n in ns:
                    if form == "carray" and n < 2: continue
                    add(form=form, setting=st, opt=opt, n=n, pattern="all")
    n = 4 if tier == "quick" else 6
    for form in L.FORMS:
        add(form=form, setting="str", opt=True, n=n, pattern="all")
        add(form=form, setting="wcarr", opt=True, n=n, pattern="all")
    big = sorted(set(L.WORDS) | set(L.literal_sizes(600 if tier == "quick" else 5000)))
    for i, n in enumerate(big):
        for j, form in enumerate(("raw", "bitarray", "integer", "ctext", "carray", "tofile")):
            for pattern in ("zeros", "ones", "blocks"):
                if form == "carray" and n < 2: continue
                if tier == "quick" and (i + j + len(pattern)) % 3: continue
                st = ("str", "wc", "arr", "raw", "wcarr")[(i + 2 * j + len(pattern)) % 5]
                add(form=form, setting=st, opt=(i + j) % 2 == 0, n=n, pattern=pattern)
    for form, st, n, pattern in (("carray", "arr", 1101, "alt"), ("raw", "arr", 32769, "zeros"), ("bitarray", "arr", 65537, "blocks10k")):
        add(form=form, setting=st, opt=True, n=n, pattern=pattern)
    return out


def run(env, form, setting, opt, n, pattern):
    np = env.np
    bits = env.bits("b", n) if pattern == "all" else L.sparse_bits(env, n, pattern)
    L.apply(env, setting)
    a = L.build(env, form, bits, opt)
    env.require_eq(a.raw, bits, "raw")
    env.require_eq(len(a), n, "length")
    env.observe("stored as", a.data_format)
    ex = env.choice("export", EXPORTS if n <= 5000 else ["carray", "ctext"])
    rb = env.choice("rebuilt", ["plain", "wc"]) if pattern == "all" and n <= 2 else "plain"
    if ex == "raw": e = a.raw
    elif ex == "bitarray":
        e = a.as_bitarray
        env.require_eq(list(e), bits, "as_bitarray")
    elif ex == "integer":
        e = a.as_integer
        env.require_eq(e, env.pack(bits), "as_integer")
    elif ex == "ctext":
        e = a.as_compressed_str if n % 2 else a.as_compressed
        env.require(isinstance(e, str), "as_compressed_str is text")
        env.require_eq(e, ",".join([str(x) for x in L.compressed(bits)]), "as_compressed_str")
    else:
        e = a.as_compressed_array
        env.require_eq([x for x in e], L.compressed(bits), "as_compressed_array")
    if rb == "wc": env.Activation.WILL_COMPARE = not env.Activation.WILL_COMPARE
    if ex != "carray" or n > 1:
        b = env.Activation(e, length=n, to_file=False) if ex == "integer" else env.Activation(e, to_file=False)
        env.require_eq(b.raw, bits, "rebuilt from " + ex)
        env.require_eq(len(b), n, "length of rebuilt")
    env.require_eq(a.raw, bits, "raw again")
