"""Automatic mutants of /repo/ruleskit, to look for gaps in the checks (development aid; no check uses it).
mutate.py gen DIR          writes DIR/mutants.json (file, line, function, description, mutated source)
mutate.py tests DIR N      runs the test suite on each, N at a time; DIR/survivors.json
mutate.py checks DIR       runs the checks whose evidence encodes the mutated function on the survivors; DIR/checks.json"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["activation.py", "condition.py", "rule.py", "ruleset.py", "thresholds.py", "utils/rfunctions.py", "utils/rule_utils.py"]
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult}
NAMES = {"any": "all", "all": "any", "min": "max", "max": "min", "nanmean": "mean", "mean": "nanmean", "nanstd": "std", "std": "nanstd", "nansum": "sum", "minimum": "maximum", "maximum": "minimum", "copy": None, "fillna": None, "dropna": None, "sorted": "list", "iloc": "loc", "loc": "iloc", "idxmax": "idxmin", "ones": "zeros", "zeros": "ones", "floor": "ceil", "sort": None}


def sites(tree):
    """(node, function, list of mutations: (description, function applied to the node of a copy))"""
    out = []
    idx = [0]
    def visit(n, fn, skip):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): fn = fn + [n.name]
        if isinstance(n, ast.Raise): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "warnings"): return
        out.append((n, ".".join(fn)))
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list"): continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST): visit(c, fn, skip)
    visit(tree, [], False)
    return out


def muts(n):
    r = []
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []): r.append(("%s->%s" % (type(n.ops[0]).__name__, o.__name__), lambda m, o=o: setattr(m, "ops", [o()])))
    if isinstance(n, ast.BoolOp):
        o = ast.Or if isinstance(n.op, ast.And) else ast.And
        r.append(("->" + o.__name__, lambda m: setattr(m, "op", o())))
        for i in range(len(n.values)): r.append(("drop operand %d" % i, lambda m, i=i: m.values.pop(i)))
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
        r.append(("%s->%s" % (type(n.op).__name__, BIN[type(n.op)].__name__), lambda m: setattr(m, "op", BIN[type(n.op)]())))
    if isinstance(n, ast.Constant):
        v = n.value
        if v is True or v is False: r.append(("%s->%s" % (v, not v), lambda m: setattr(m, "value", not v)))
        elif isinstance(v, (int, float)):
            r.append(("%s->%s" % (v, v + 1), lambda m: setattr(m, "value", v + 1)))
            if v > 0: r.append(("%s->%s" % (v, v - 1), lambda m: setattr(m, "value", v - 1)))
    if isinstance(n, (ast.If, ast.IfExp, ast.While)):
        r.append(("test->True", lambda m: setattr(m, "test", ast.Constant(True))) if not isinstance(n, ast.While) else ("test->False", lambda m: setattr(m, "test", ast.Constant(False))))
        if not isinstance(n, ast.While): r.append(("test->False", lambda m: setattr(m, "test", ast.Constant(False))))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
        r.append(("drop unary", "UNARY"))
    if isinstance(n, ast.Call):
        for i, k in enumerate(n.keywords):
            if k.arg: r.append(("drop keyword " + k.arg, lambda m, i=i: m.keywords.pop(i)))
        if isinstance(n.func, ast.Attribute) and n.func.attr in NAMES:
            nn = NAMES[n.func.attr]
            if nn: r.append(("%s->%s" % (n.func.attr, nn), lambda m, nn=nn: setattr(m.func, "attr", nn)))
            elif not isinstance(n.func.value, ast.Name) or n.func.value.id not in ("np", "pd"): r.append(("drop ." + n.func.attr, "RECEIVER"))
        if isinstance(n.func, ast.Name) and n.func.id in NAMES: r.append(("%s->%s" % (n.func.id, NAMES[n.func.id]), lambda m: setattr(m.func, "id", NAMES[n.func.id])))
        if isinstance(n.func, ast.Name) and n.func.id in ("copy", "deepcopy", "abs", "sorted", "list", "str", "float", "int"): r.append(("drop call " + n.func.id, "ARG"))
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        for a in ("lower", "upper"):
            if getattr(n.slice, a) is not None: r.append(("drop slice " + a, lambda m, a=a: setattr(m.slice, a, None)))
    if isinstance(n, (ast.AugAssign,)) and type(n.op) in BIN: r.append(("aug", lambda m: setattr(m, "op", BIN[type(n.op)]())))
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, ast.AugAssign) or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
        r.append(("delete statement", "PASS"))
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)): r.append(("delete reassignment", "PASS"))
    if isinstance(n, ast.Break): r.append(("break->pass", "PASS"))
    if isinstance(n, ast.Continue): r.append(("continue->pass", "PASS"))
    return r


def gen(d):
    out = []
    for f in FILES:
        src = open("/repo/ruleskit/" + f).read()
        tree = ast.parse(src)
        st = sites(tree)
        for i, (n, fn) in enumerate(st):
            for desc, how in muts(n):
                t2 = copy.deepcopy(tree)
                m = sites(t2)[i][0]
                if callable(how): how(m)
                else:
                    rep = {"PASS": lambda: ast.Pass(), "UNARY": lambda: m.operand, "RECEIVER": lambda: m.func.value, "ARG": lambda: m.args[0] if m.args else None}[how]()
                    if rep is None: continue
                    class T(ast.NodeTransformer):
                        def visit(self, x): return rep if x is m else self.generic_visit(x)
                    t2 = T().visit(t2)
                try: s = ast.unparse(ast.fix_missing_locations(t2)); ast.parse(s)
                except Exception: continue
                line = getattr(n, "lineno", 0)
                out.append(dict(id=len(out), file=f, line=line, fn=fn, desc=desc, text=src.splitlines()[line - 1].strip() if line else "", node=ast.unparse(n).splitlines()[0][:120]))
                open(os.path.join(d, "m%d.py" % out[-1]["id"]), "w").write(s)
    json.dump(out, open(os.path.join(d, "mutants.json"), "w"), indent=0)
    print(len(out))


def tests(d, n):
    ms = json.load(open(os.path.join(d, "mutants.json")))
    ms = ms[int(os.environ.get("MFROM", 0))::int(os.environ.get("MSTEP", 1))]
    import queue
    dirs = queue.Queue()
    base = tempfile.mkdtemp(prefix="mutw")
    for i in range(n):
        w = os.path.join(base, str(i)); os.mkdir(w)
        shutil.copytree("/repo", w + "/repo", symlinks=True); os.mkdir(w + "/tmp")
        dirs.put(w)
    surv = []
    def one(m):
        w = dirs.get()
        try:
            p = w + "/repo/ruleskit/" + m["file"]
            o = open(p).read()
            shutil.copy(os.path.join(d, "m%d.py" % m["id"]), p)
            try:
                r = subprocess.run("TMPDIR=%s/tmp PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 timeout 60 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --maxfail=3 tests 2>&1 | tail -1" % w, shell=True, cwd=w + "/repo", capture_output=True, text=True)
            finally: open(p, "w").write(o)
            shutil.rmtree(w + "/tmp"); os.mkdir(w + "/tmp")
            ok = "2 failed, 413 passed" in r.stdout
            if ok: surv.append(m["id"])
            if m["id"] % 100 < 2: print(m["id"], len(surv), flush=True)
        finally: dirs.put(w)
    with ThreadPoolExecutor(n) as ex: list(ex.map(one, ms))
    json.dump(sorted(surv), open(os.path.join(d, "survivors.json"), "w"))
    shutil.rmtree(base)
    print(len(surv), "of", len(ms), "survive")


PREF = {"activation.py": ["C01", "C02", "C03", "C04", "C05", "C16", "C23"], "condition.py": ["C06", "C07", "C08", "C19", "C24", "C25", "C26"], "rule.py": ["C09", "C10", "C11", "C17", "C07", "C21", "C04", "C12", "C24", "C25", "C23", "C18", "C26"],
        "ruleset.py": ["C16", "C13", "C14", "C15", "C20", "C18", "C17", "C21", "C22", "C23", "C25", "C12", "C26"], "thresholds.py": ["C17"], "utils/rfunctions.py": ["C12", "C13", "C14", "C15", "C09", "C10", "C21", "C25"], "utils/rule_utils.py": ["C19"]}


def checks(d, ids):
    ms = {m["id"]: m for m in json.load(open(os.path.join(d, "mutants.json")))}
    ev = {}
    for f in os.listdir(H + "/evidence"):
        if f.endswith(".json"): ev[f[:-5]] = set(json.load(open(os.path.join(H, "evidence", f)))["coverage"]["functions_encoded"])
    resf = os.path.join(d, "checks.json")
    res = json.load(open(resf)) if os.path.exists(resf) else {}
    base = tempfile.mkdtemp(prefix="mutc")
    shutil.copytree("/repo", base + "/repo", symlinks=True)
    shutil.copytree(H, base + "/verif", ignore=shutil.ignore_patterns(".git", "seeded"))
    try:
        for i in ids or json.load(open(os.path.join(d, "survivors.json"))):
            m = ms[i]
            if str(i) in res and not ids: continue
            full = "ruleskit." + m["file"][:-3].replace("/", ".") + "." + m["fn"]
            cs = [c for c in PREF[m["file"]] if any(full == x or full.startswith(x + ".") or x.startswith(full + ".") for x in ev.get(c, ()))]
            p = base + "/repo/ruleskit/" + m["file"]
            o = open(p).read()
            shutil.copy(os.path.join(d, "m%d.py" % i), p)
            got = None
            try:
                for c in cs:
                    t = time.time()
                    try: r = subprocess.run(["/opt/venv/bin/python", "check.py", c, "--tier", "quick", "--time", os.environ.get("MT", "30")], cwd=base + "/verif", env=dict(os.environ, VERIF_REPO=base + "/repo"), capture_output=True, text=True, timeout=300)
                    except subprocess.TimeoutExpired: got = c + " TIMEOUT"; break
                    if r.returncode: got = "%s rc=%d" % (c, r.returncode); break
            finally: open(p, "w").write(o)
            res[str(i)] = got
            print(i, m["file"], m["line"], m["fn"], m["desc"], "|", m["node"], "=>", got if cs else "NO CHECK", cs if not got else "", flush=True)
            json.dump(res, open(resf, "w"))
    finally: shutil.rmtree(base)


if __name__ == "__main__":
    if sys.argv[1] == "gen": gen(sys.argv[2])
    elif sys.argv[1] == "tests": tests(sys.argv[2], int(sys.argv[3]))
    else: checks(sys.argv[2], [int(x) for x in sys.argv[3:]])
