ID = "C07"
BOUNDS = {"quick": "conditions over up to 3 features each out of 3 columns, in any listing order, both sortings; 2 observations; any real, infinite or NaN values, any real or infinite bounds (reversed included); arrays and data frames; AND of 3 conditions; rules with activations in several formats",
          "thorough": "up to 4 columns, 3 observations, chains of 3 and all orders"}
ASSUMES = "Bounds are not NaN."
import itertools

NAMES = ["B", "A", "D", "C"]


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, str(b).replace(" ", "")) for a, b in k.items()), k))
    q = tier == "quick"
    d = 3 if q else 4
    sets = [list(p) for k in (1, 2) for p in itertools.permutations(range(d), k)]
    n = 2 if q else 3
    for i, f1 in enumerate(sets):
        for j, f2 in enumerate(sets):
            kind = ("array", "df")[(i + j) % 2]
            sort = ("index", "name")[(i // 2 + j) % 2]
            add(what="cond", f1=f1, f2=f2, f3=None, n=n, d=d, kind=kind, sort=sort)
    for f1, f2 in (([0, 1, 2], [2, 1, 0]), ([2, 0, 1], [1]), ([0], [1, 2, 0]), ([0, 2], [1, 0, 2]), ([1, 0], [0, 1, 2]), ([2], [0, 1, 2]), ([0, 1, 2], [2]), ([1], [0, 1, 2]), ([2, 0], [0, 1, 2])):
        for kind in ("array", "df"):
            for sort in ("index", "name"): add(what="cond", f1=f1, f2=f2, f3=None, n=1 if q else 2, d=3, kind=kind, sort=sort)
    for f1, f2 in (([3], [0, 1, 2, 3]), ([2, 3], [0, 1, 2]), ([0, 3], [1, 2])):
        for sort in ("index", "name"): add(what="cond", f1=f1, f2=f2, f3=None, n=1, d=4, kind="df", sort=sort)
    for f1, f2, f3 in (([0], [1], [0]), ([0, 1], [1], [1, 2]), ([0], [0], [0]), ([2, 1], [0, 2], [1])):
        for kind in ("array", "df"): add(what="cond", f1=f1, f2=f2, f3=f3, n=1, d=3, kind=kind, sort="index")
    for f1, f2 in (([0], [0]), ([0], [1]), ([1, 0], [0]), ([0, 1], [1, 2])):
        for kind in ("array", "df"):
            for st in ("file", "str", "wc", "raw"): add(what="rule", f1=f1, f2=f2, f3=st, n=2, d=3, kind=kind, sort="index")
    for sort in ("index", "name"): add(what="refuse", f1=[0], f2=[1], f3=None, n=1, d=3, kind="array", sort=sort)
    return out


def mkcond(env, feats, tag, inf=True):
    lo = [env.real("lo%s%d" % (tag, i), inf=inf) for i in range(len(feats))]
    hi = [env.real("hi%s%d" % (tag, i), inf=inf) for i in range(len(feats))]
    c = env.condition.HyperrectangleCondition(list(feats), bmins=list(lo), bmaxs=list(hi), features_names=[NAMES[f] for f in feats])
    return c, {f: (a, b) for f, a, b in zip(feats, lo, hi)}


def snapshot(c):
    return [list(c.features_names), list(c.features_indexes), list(c.bmins), list(c.bmaxs), c.impossible]


def mx(env, a, b): return env.ite(a >= b, a, b)
def mn(env, a, b): return env.ite(a <= b, a, b)


def run(env, what, f1, f2, f3, n, d, kind, sort):
    H = env.condition.HyperrectangleCondition
    H.SORT_ACCORDING_TO = sort
    if what == "refuse": return refuse(env)
    X = [[env.real("x%d_%d" % (i, j), nan=True, inf=True) for j in range(d)] for i in range(n)]
    xs = env.np.array(X) if kind == "array" else env.pd.DataFrame({NAMES[j]: [X[i][j] for i in range(n)] for j in range(d)})

    def met(b, i):
        t = []
        for f, (lo, hi) in b.items(): t += [env.isfin(X[i][f]), lo <= X[i][f], X[i][f] <= hi]
        return env.and_(*t)

    c1, b1 = mkcond(env, f1, "p")
    c2, b2 = mkcond(env, f2, "q")
    bs = [b1, b2]
    s1, s2 = snapshot(c1), snapshot(c2)
    if what == "rule":
        A, R = env.Activation, env.rule.RegressionRule
        env.rule.Rule.LOCAL_ACTIVATION = f3 == "file"
        A.WILL_COMPARE, A.STORE_RAW = f3 == "wc", f3 == "raw"
        r1, r2 = R(c1), R(c2)
        r1.calc_activation(xs); r2.calc_activation(xs)
        r = r1 & r2
        env.require_eq(r.activation, [env.ite(env.and_(met(b1, i), met(b2, i)), 1, 0) for i in range(n)], "activation of the AND of two rules")
        env.require_eq(r1.activation, [env.ite(met(b1, i), 1, 0) for i in range(n)], "activation of the left rule")
        env.require_eq(r2.activation, [env.ite(met(b2, i), 1, 0) for i in range(n)], "activation of the right rule")
        c = r.condition
        env.require(isinstance(r, R), "type of the AND of two rules")
    else:
        c = c1 & c2
        if f3 is not None:
            c3, b3 = mkcond(env, f3, "r")
            bs.append(b3)
            c = c & c3
    both = [env.ite(env.and_(*[met(b, i) for b in bs]), 1, 0) for i in range(n)]
    env.require_eq(c.evaluate(xs), both, "the AND is met where all are")
    feats = sorted(set(f for b in bs for f in b))
    env.require_eq(sorted(c.features_indexes), feats, "features of the AND")
    for f in feats:
        lo = hi = None
        for b in bs:
            if f in b:
                lo = b[f][0] if lo is None else mx(env, lo, b[f][0])
                hi = b[f][1] if hi is None else mn(env, hi, b[f][1])
        k = list(c.features_indexes).index(f)
        env.require_eq([c.features_names[k], c.bmins[k], c.bmaxs[k]], [NAMES[f], lo, hi], "interval of the AND")
    env.require_eq(len(c), len(feats), "number of features")
    env.require_eq([c.impossible], [env.or_(*[c.bmins[k] > c.bmaxs[k] for k in range(len(c))])], "impossible flag")
    env.require_eq(snapshot(c1), s1, "left operand changed")
    env.require_eq(snapshot(c2), s2, "right operand changed")


def refuse(env):
    H = env.condition.HyperrectangleCondition
    v = env.reals("b", 8)
    w = env.choice("which", ["index", "name", "index2", "name2", "swap"])
    mk = lambda i, n, k: H(list(i), bmins=v[k:k + len(i)], bmaxs=v[k + 2:k + 2 + len(i)], features_names=list(n))
    if w == "index": a, b = mk([0], ["A"], 0), mk([1], ["A"], 4)
    elif w == "name": a, b = mk([0], ["A"], 0), mk([0], ["B"], 4)
    elif w == "index2": a, b = mk([0, 1], ["A", "B"], 0), mk([1, 2], ["C", "B"], 4)
    elif w == "swap": a, b = mk([0, 1], ["A", "B"], 0), mk([1, 0], ["A", "B"], 4)
    else: a, b = mk([0, 1], ["A", "B"], 0), mk([1, 2], ["B", "A"], 4)
    sa, sb = snapshot(a), snapshot(b)
    env.require(env.raises(Exception, lambda: a & b), "inconsistent numbering accepted: " + w)
    env.require(env.raises(Exception, lambda: b & a), "inconsistent numbering accepted (swapped): " + w)
    env.require_eq([snapshot(a), snapshot(b)], [sa, sb], "operands changed")
