ID = "C06"
BOUNDS = {"quick": "up to 3 observations x 3 columns, up to 3 features in the condition in any order; every value any real, NaN or infinite; bounds any real or infinite, reversed included; arrays (float, integer) and data frames (default, shifted and text index, columns in other orders)",
          "thorough": "up to 5 observations x 4 columns, up to 4 features, all feature orders"}
ASSUMES = "Integer-valued data is represented by mathematical integers of int64 columns."
import itertools

NAMES = ["B", "A", "D", "C"]


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, str(b).replace(" ", "")) for a, b in k.items()), k))
    maxd = 3 if tier == "quick" else 4
    n = 2 if tier == "quick" else 3
    for kind in ("array", "df"):
        for d in range(1, maxd + 1):
            for k in range(1, d + 1):
                for feats in itertools.permutations(range(d), k):
                    if tier == "quick" and d == 3 and k == 3 and feats not in ((0, 1, 2), (2, 0, 1), (1, 0, 2)): continue
                    add(kind=kind, n=n, d=d, feats=list(feats), special=True, ints=False, index="range", sort="index")
    for kind in ("array", "df"):
        add(kind=kind, n=3 if tier == "quick" else 5, d=2, feats=[1, 0], special=True, ints=False, index="range", sort="name")
        add(kind=kind, n=n, d=2, feats=[1, 0], special=False, ints=True, index="range", sort="index")
        add(kind=kind, n=1, d=2, feats=[1], special=True, ints=False, index="range", sort="index")
    for index in ("shift", "text", "rev", "dup"):
        add(kind="df", n=2, d=2, feats=[1, 0], special=True, ints=False, index=index, sort="index")
        add(kind="df", n=2, d=2, feats=[0], special=True, ints=False, index=index, sort="name")
    add(kind="df", n=2, d=3, feats=[2, 0], special=True, ints=False, index="range", sort="index", colorder=[2, 0, 1])
    add(kind="df", n=2, d=3, feats=[1, 2], special=True, ints=False, index="shift", sort="name", colorder=[1, 2, 0])
    return out


def mkindex(index, n):
    return {"range": None, "shift": list(range(5, 5 + n)), "text": ["r%d" % i for i in range(n)],
            "rev": list(range(n - 1, -1, -1)), "dup": [0] * n}[index]


def run(env, kind, n, d, feats, special, ints, index, sort, colorder=None):
    H = env.condition.HyperrectangleCondition
    H.SORT_ACCORDING_TO = sort
    if ints: X = [[env.int("x%d_%d" % (i, j), -1000, 1000) for j in range(d)] for i in range(n)]
    else: X = [[env.real("x%d_%d" % (i, j), nan=special, inf=special) for j in range(d)] for i in range(n)]
    lo = [env.real("lo%d" % i, inf=special) for i in range(len(feats))]
    hi = [env.real("hi%d" % i, inf=special) for i in range(len(feats))]
    names = [NAMES[f] for f in feats]
    if kind == "array":
        xs = env.np.array(X)
    else:
        order = colorder or list(range(d))
        xs = env.pd.DataFrame({NAMES[j]: [X[i][j] for i in range(n)] for j in order}, index=mkindex(index, n))
    c = H(list(feats), bmins=list(lo), bmaxs=list(hi), features_names=list(names))
    got = c.evaluate(xs)
    spec = []
    for i in range(n):
        t = []
        for f, a, b in zip(feats, lo, hi):
            x = X[i][f]
            t += [env.isfin(x), a <= x, x <= b]
        spec.append(env.ite(env.and_(*t), 1, 0))
    env.require_eq(got, spec, "condition.evaluate")
    r = env.rule.RegressionRule(H(list(feats), bmins=list(lo), bmaxs=list(hi), features_names=list(names)))
    act = r.evaluate_activation(xs)
    env.require_eq(act.raw, spec, "rule.evaluate_activation")
    env.require_eq(len(act), n, "length of the activation")
    if kind == "array": after = xs
    else: after = [xs[NAMES[j]] for j in range(d)]
    before = X if kind == "array" else [[X[i][j] for i in range(n)] for j in range(d)]
    env.require_eq(after, before, "data modified")
    env.require_eq([c.impossible], [env.or_(*[a > b for a, b in zip(lo, hi)])], "impossible flag")
