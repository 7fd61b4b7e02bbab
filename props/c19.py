ID = "C19"
BOUNDS = {"quick": "every tree shape with 1 to 3 splits over 2 features (any choice of features), any thresholds in the feature ranges, any ranges and values, one free observation; regressor and classifier (2 and 3 classes, named or not), leaf rules or all rules, features named or not",
          "thorough": "every shape with 4 splits over 2 features, with 3 splits over 3 features"}
ASSUMES = "A scikit-learn tree is its arrays (feature, threshold, children, value): the fitting by scikit-learn is not encoded. Trees with at least one split."
from . import rslib as L


def shapes(n):
    if n == 0: return [None]
    return [(l, r) for i in range(n) for l in shapes(i) for r in shapes(n - 1 - i)]


def cases(tier):
    out = []
    def add(**p): out.append(("_".join("%s=%s" % (a, b) for a, b in p.items()), p))
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for sh in shapes(n):
            for leaf in (True, False):
                add(shape=sh, leaf=leaf, kind="reg", nf=2, names=n % 2 == 0, classes=0)
                if n < 3 or tier != "quick":
                    add(shape=sh, leaf=leaf, kind="cls", nf=2, names=n % 2 == 1, classes=2)
                    if n < 3: add(shape=sh, leaf=leaf, kind="named", nf=2, names=True, classes=3)
                if n == 3 and tier != "quick": add(shape=sh, leaf=leaf, kind="reg", nf=3, names=False, classes=0)
    add(shape=((None, (None, None)), None), leaf=True, kind="cls", nf=2, names=True, classes=2)
    return out


def run(env, shape, leaf, kind, nf, names, classes):
    L.quiet(env)
    np = env.np
    if isinstance(shape, list):
        def tup(s): return None if s is None else (tup(s[0]), tup(s[1]))
        shape = tup(shape)
    ru = env.pkg.load("ruleskit.utils.rule_utils")
    from sklearn.tree import DecisionTreeRegressor, DecisionTreeClassifier
    # nodes in preorder, as scikit-learn numbers them
    nodes = []
    def build(s):
        i = len(nodes)
        nodes.append(None)
        if s is None: nodes[i] = (-1, -1)
        else:
            l = build(s[0])
            r = build(s[1])
            nodes[i] = (l, r)
        return i
    build(shape)
    N = len(nodes)
    xmin, xmax = env.reals("min", nf), env.reals("max", nf)
    for a, b in zip(xmin, xmax): env.assume(a <= b)
    feat, thr, val = [], [], []
    for i, (l, r) in enumerate(nodes):
        if l < 0:
            feat.append(-2); thr.append(-2.0)
        else:
            f = env.choice("f%d" % i, list(range(nf)))
            t = env.real("t%d" % i)
            env.assume(env.and_(xmin[f] <= t, t <= xmax[f]))
            feat.append(f); thr.append(t)
        val.append([[env.real("v%d" % i)]] if kind == "reg" else [[env.real("v%d_%d" % (i, c), 0) for c in range(classes)]])
    class Tree: pass
    t = Tree()
    t.feature, t.threshold, t.value = np.array(feat), np.array(thr), np.array(val)
    t.children_left, t.children_right = np.array([a for a, _ in nodes]), np.array([b for _, b in nodes])
    C = DecisionTreeRegressor if kind == "reg" else DecisionTreeClassifier
    class T(C):
        tree_ = None
        n_features_in_ = nf
    tree = T.__new__(T)
    T.tree_ = t
    fn = ["u", "v", "w"][:nf] if names else None
    cn = ["no", "yes", "maybe"][:classes] if kind == "named" else None
    rs = ru.extract_rules_from_tree(tree, list(xmin), list(xmax), features_names=fn, classes_names=cn, get_leaf=leaf)
    x = env.reals("x", nf)
    for j in range(nf): env.assume(env.and_(xmin[j] <= x[j], x[j] <= xmax[j]))
    for i in range(N):
        if nodes[i][0] >= 0: env.assume(x[feat[i]] != thr[i])
    # the node reached and the tests on the way
    paths = {}
    def walk(i, tests):
        paths[i] = tests
        l, r = nodes[i]
        if l >= 0:
            walk(l, tests + [(feat[i], True, thr[i])])
            walk(r, tests + [(feat[i], False, thr[i])])
    walk(0, [])
    order = [i for i in range(N) if nodes[i][0] < 0] if leaf else list(range(1, N))
    env.require_eq(len(rs), len(order), "number of rules")
    X = np.array([list(x)])
    total = 0
    for r, i in zip(rs, order):
        inside = env.and_(*[x[f] < t if left else x[f] > t for f, left, t in paths[i]])
        a = list(r.condition.evaluate(X))[0]
        env.require_eq(a, env.ite(inside, 1, 0), "activation of the rule of a node")
        total = total + a
        fs = sorted(set(f for f, _, _ in paths[i]))
        env.require_eq(sorted(int(q) for q in r.features_indexes), fs, "features of the rule of a node")
        env.require_eq([r.features_names[list(r.features_indexes).index(q)] for q in fs], [(fn or ["X_0", "X_1", "X_2"])[q] for q in fs], "names of the features of a rule")
        for q, lo, hi in zip(r.features_indexes, r.bmins, r.bmaxs):
            env.require(env.and_(lo >= xmin[int(q)], hi <= xmax[int(q)]), "bounds out of the range of the feature")
        if leaf and kind == "reg":
            env.require_close(r.prediction, val[i][0][0], "value of a leaf")
        elif leaf:
            v = val[i][0]
            want = cn[0] if cn else 0
            for c in range(1, classes):
                if bool(env.and_(*[v[c] > v[d] for d in range(c)], *[v[c] >= v[d] for d in range(c, classes)])): want = cn[c] if cn else c
            ties = any(bool(v[c] == v[d]) for c in range(classes) for d in range(c))
            if not ties: env.require_eq(r.prediction, want, "class of a leaf")
    if leaf: env.require_eq(total, 1, "number of leaf rules activated")
