ID = "C10"
BOUNDS = {"quick": "1 to 4 observations, any activation; classes any integers or reals, or texts among 3 (short, long, special names); criterion on other targets of 1 to 3 observations; 300 observations with 5 free choices",
          "thorough": "up to 5 observations"}
ASSUMES = "Targets are not NaN."
TEXTS = [["a", "b", "c"], ["zero", "", "0"], ["B", "a", "a class with a name of more than thirty-two characters"]]


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, b) for a, b in k.items()), k))
    N = 4 if tier == "quick" else 5
    for n in range(1, N + 1):
        for kind in ("int", "real"):
            add(what="fit", n=n, m=2, kind=kind, ykind="array", local=True)
            if n < 4: add(what="fit", n=n, m=1, kind=kind, ykind="series", local=False)
    for n in range(1, N):
        for t in range(3): add(what="fit", n=n, m=1 if n < 3 else 0, kind=t, ykind="array" if t else "series", local=True)
    add(what="fit", n=4, m=0, kind=0, ykind="array", local=True)
    for kind in ("int", "real", 0, 1):
        for n in (1, 2, 3):
            for ykind in ("array", "series"): add(what="proba", n=n, m=1, kind=kind, ykind=ykind, local=True)
        for n in (1, 2): add(what="parts", n=n, m=1, kind=kind, ykind="series" if n == 2 else "array", local=n == 1)
        for m in (1, 2, 3): add(what="crit", n=1, m=m, kind=kind, ykind="series" if m == 2 else "array", local=True)
    for kind in ("int", 0): add(what="long", n=300, m=3, kind=kind, ykind="array", local=True)
    return out


def targets(env, name, n, kind):
    if kind == "int": return [env.int("%s%d" % (name, i)) for i in range(n)]
    if kind == "real": return [env.real("%s%d" % (name, i)) for i in range(n)]
    return [env.choice("%s%d" % (name, i), TEXTS[kind]) for i in range(n)]


def shares(env, act, y):
    """[(class, number of times)], in class order, for the activated targets"""
    out = []
    for a, v in zip(act, y):
        if not a: continue
        for e in out:
            if e[0] == v: e[1] += 1; break
        else: out.append([v, 1])
    res = []
    for e in out:               # insertion sort: comparisons decided by the solver
        k = 0
        while k < len(res) and res[k][0] < e[0]: k += 1
        res.insert(k, e)
    return res


def best(sh):
    b = sh[0]
    for e in sh[1:]:
        if e[1] > b[1]: b = e
    return b[0]


def num(env, p, kind):
    return str(p) if isinstance(kind, int) else p


def run(env, what, n, m, kind, ykind, local):
    env.set_canon_strings(True)
    np, pd = env.np, env.pd
    env.rule.Rule.LOCAL_ACTIVATION = local
    c = env.condition.HyperrectangleCondition([0], bmins=[0.0], bmaxs=[1.0], features_names=["A"])
    def mky(y, ix=None): return pd.Series(list(y), index=ix) if ykind == "series" else np.array(list(y))
    if what == "long":
        act = [env.choice("a%d" % i, [1, 0]) if i < 3 else 1 for i in range(n)]
        base = [0, 1] if kind == "int" else ["a", "b"]
        y = [base[i % 2] for i in range(n)]
        sp = [n - 1, n - 2]
        for i in sp: y[i] = env.choice("y%d" % i, base)
    else:
        act = [env.choice("a%d" % i, [1, 0]) for i in range(n)] if what != "crit" else [1] * n
        y = targets(env, "y", n, kind)
    X = np.array([[0.5 if a else 5.0] for a in act])
    sh = shares(env, act, y)
    k = env.sum([e[1] for e in sh])
    if what == "proba":
        f = env.rfunctions.class_probabilities
        p = f(np.array(act, dtype=np.ubyte), mky(y))
        if not sh: env.require(env.isnan(p), "probabilities without activated target")
        else:
            env.require_eq(len(p), len(sh), "number of classes")
            for i in range(len(sh)):
                env.require_eq(p[i][0], sh[i][0], "class")
                env.require_close(float(p[i][1]), env.div(sh[i][1], k), "share")
        return
    r = env.rule.ClassificationRule(c)
    for a in ("prediction", "criterion", "coverage", "train_set_size", "test_set_size"): env.require(getattr(r, a) is None, a + " of a rule which is not fitted")
    if what == "parts":
        r.calc_activation(X)
        r.calc_prediction(mky(y))
        r.calc_train_set_size(mky(y))
    else: r.fit(mky(y), X)
    env.require_close(r.coverage, env.div(env.sum(act), n), "coverage")
    env.require_eq(r.train_set_size, n, "training size")
    if not sh: env.require(env.isnan(r.prediction), "prediction without activated target")
    else: env.require_eq(r.prediction, best(sh), "prediction")
    if what == "long": return
    # success rate, on the same targets then on others
    if sh:
        if what == "parts": r.calc_criterion(mky(y))
        else: r.eval(mky(y))
        env.require_close(r.criterion, env.div(env.sum([e[1] for e in sh if e[0] == best(sh)]), k), "success rate on the training data")
    if not m: return
    act2 = [env.choice("b%d" % i, [1, 0]) for i in range(m)]
    y2 = targets(env, "t", m, kind)
    X2 = np.array([[0.5 if a else 5.0] for a in act2])
    if what == "parts": r.calc_criterion(mky(y2), activation=env.Activation(np.array(act2, dtype=np.ubyte)))
    else: r.eval(mky(y2, list(range(5, 5 + m))), X2)
    if not any(act2): env.require(env.isnan(r.criterion), "success rate where nothing is activated")
    elif sh:
        p = best(sh)
        env.require_close(r.criterion, env.div(env.count([v == p for a, v in zip(act2, y2) if a]), sum(act2)), "success rate")
