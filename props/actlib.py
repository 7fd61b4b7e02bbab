"""Ways of building an activation vector from a list of bits, shared by the harnesses."""
import ast, os
from engine import loader

SETTINGS = {
    "str": dict(), "arr": dict(DTYPE="arr"), "wc": dict(WILL_COMPARE=True), "wcarr": dict(WILL_COMPARE=True, DTYPE="arr"),
    "raw": dict(STORE_RAW=True), "rawwc": dict(STORE_RAW=True, WILL_COMPARE=True),
}
# every way to give a vector (form), crossed with settings, gives every stored format
FORMS = ["raw", "float", "bool", "int64", "bitarray", "integer", "ctext", "carray", "bintext", "tofile", "path", "pathtext", "lasy"]


def apply(env, setting):
    A = env.Activation
    for k, v in SETTINGS[setting].items(): setattr(A, k, env.np.ndarray if v == "arr" else v)


def compressed(bits):
    """[first value, positions of the changes..., length] (decides the bits where it must)"""
    out = [int(bool(bits[0] == 1))]
    for i in range(1, len(bits)):
        if bits[i] != bits[i - 1]: out.append(i)
    out.append(len(bits))
    return out


def number(bits):
    r = 0
    for b in bits: r = r * 2 + b
    return r


def build(env, form, bits, opt=True):
    """an Activation given the bits in some form"""
    A, np = env.Activation, env.np
    n = len(bits)
    if form == "raw": return A(np.array(bits, dtype=np.ubyte), optimize=opt, to_file=False)
    if form == "int64": return A(np.array(bits), optimize=opt, to_file=False)
    if form == "float": return A(np.array(bits, dtype=np.float64), optimize=opt, to_file=False)
    if form == "bool": return A(np.array(bits, dtype=np.bool_), optimize=opt, to_file=False)
    if form == "tofile": return A(np.array(bits, dtype=np.ubyte), optimize=opt)
    if form == "bitarray": return A(env.bitarray(list(bits)), optimize=opt)
    if form == "integer": return A(env.pack(bits), optimize=opt, length=n)
    if form == "bintext": return A("".join(["1" if b == 1 else "0" for b in bits]), optimize=opt)
    if form == "ctext": return A(",".join([str(x) for x in compressed(bits)]), optimize=opt)
    if form == "carray": return A(np.array(compressed(bits)), optimize=opt)
    if form in ("path", "pathtext", "lasy"):
        src = A(np.array(bits, dtype=np.ubyte))
        if src.data_format != "file":   # kept raw: nothing to read from
            p = env.Path(env.tmpdir) / "vector.npy"
            with env.open(p, "wb") as f: np.save(f, np.array(bits, dtype=np.ubyte), allow_pickle=False)
        else: p = src.data
        if form == "pathtext": return A(str(p), optimize=opt)
        return A(p, optimize=opt, lasy=form == "lasy")
    raise AssertionError(form)


def literal_sizes(limit=600, files=("activation.py",)):
    """sizes around the integer constants of the current source: lengths at which the code may behave differently"""
    out = set()
    for fn in files:
        try: tree = ast.parse(open(os.path.join(loader.ROOT, fn), encoding="utf8").read())
        except (OSError, SyntaxError): continue
        for n in ast.walk(tree):
            v = None
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool): v = n.value
            elif isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                try:
                    v = {ast.Pow: lambda a, b: a ** b, ast.LShift: lambda a, b: a << b, ast.Mult: lambda a, b: a * b}[type(n.op)](n.left.value, n.right.value)
                except Exception: v = None
            if isinstance(v, (int, float)) and 2 <= v <= limit and v == int(v): out |= {int(v) - 1, int(v), int(v) + 1}
    return sorted(out)


WORDS = [7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]


def sparse_bits(env, n, pattern, name="b"):
    """n bits, few of them symbolic (ends and middle), the others given by a pattern"""
    free = {0, n // 2, n - 1} if n <= 5000 else {n - 1}
    out = []
    for i in range(n):
        if i in free: out.append(env.bit("%s%d" % (name, i)))
        else: out.append({"zeros": 0, "ones": 1, "alt": i % 2, "blocks": (i // 3) % 2, "blocks10k": (i // 10000) % 2}[pattern])
    return out
