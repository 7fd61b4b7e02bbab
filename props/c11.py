ID = "C11"
BOUNDS = {"quick": "1 to 3 observations with any feature values (finite, NaN, infinite) and bounds, arrays and data frames with any index; predictions any real, integer or text (short, long, blanks); new data or stored activation in every format; 300 observations with 3 free values",
          "thorough": "up to 4 observations, 2 features everywhere"}
ASSUMES = "No class is called 'nan' (the code refuses it). With text predictions the text 'nan' stands for NaN."
IDX = {"range": None, "shift": [10, 11, 12, 13, 14], "text": list("abcde"), "perm": [2, 0, 1, 4, 3], "dup": [1, 1, 0, 0, 1]}
TEXTS = ["a", "0", " ", "a class with a name of more than thirty-two characters"]


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, b) for a, b in k.items()), k))
    N = 3 if tier == "quick" else 4
    for n in range(1, N + 1):
        for pk in ("real", "int", "text", "none", "proba", "probatext"):
            for xk in ("array", "df", "self"):
                for f in ((1, 2) if (n == 2 or tier != "quick") and pk in ("real", "text") else (1,)):
                    add(xk=xk, pk=pk, n=n, feats=f, index="range", local=True)
    for ix in ("shift", "text", "perm", "dup"):
        for pk in ("real", "text"): add(xk="df", pk=pk, n=3, feats=1, index=ix, local=True)
    for pk in ("real", "text"):
        add(xk="df", pk=pk, n=1, feats=1, index="text", local=False)
        add(xk="array", pk=pk, n=2, feats=2, index="range", local=False)
        add(xk="vector", pk=pk, n=3, feats=1, index="range", local=True)
        add(xk="fitted", pk=pk, n=3, feats=1, index="range", local=True)
        for lc in (True, False): add(xk="fittedn", pk=pk, n=2, feats=1, index="range", local=lc)
        for xk in ("array", "df"): add(xk=xk, pk=pk, n=300, feats=1, index="range", local=True)
    return out


def run(env, xk, pk, n, feats, index, local):
    np, pd = env.np, env.pd
    env.rule.Rule.LOCAL_ACTIVATION = local
    H = env.condition.HyperrectangleCondition
    long = n > 10
    lo, hi = env.reals("lo", feats, inf=not long), env.reals("hi", feats, inf=not long)
    names = ["B", "A"][:feats]
    c = H(list(range(feats)), bmins=list(lo), bmaxs=list(hi), features_names=names)
    if pk == "real": p = env.real("p")
    elif pk == "int": p = env.int("p", -100, 100)
    elif pk == "text": p = env.choice("p", TEXTS)
    elif pk == "none": p = env.nan
    elif pk == "proba": p = env.real("p")
    else: p = env.choice("p", ["a", "zero"])
    text = pk in ("text", "probatext")
    r = (env.rule.RegressionRule if pk in ("real", "none") else env.rule.ClassificationRule)(c)
    if pk == "proba": r._prediction = np.array([[p, 0.75], [p + 1, 0.25]])
    elif pk == "probatext": r._prediction = np.array([("Z", 0.25), (p, 0.75)])
    else: r._prediction = p
    def point(i, j):
        if long: return env.real("x%d_%d" % (i, j)) if i in (0, 150, 299) else [0.0, 1.5, -2.5, 100.0][i % 4]
        return env.real("x%d_%d" % (i, j), nan=True, inf=True)
    if long: env.assume(env.and_(lo[0] == -1, hi[0] == 2))
    rows = [[point(i, j) for j in range(feats)] for i in range(n)]
    ix = IDX[index][:n] if IDX[index] else list(range(n))
    met = [env.and_(*[env.and_(env.isfin(rows[i][j]), lo[j] <= rows[i][j], rows[i][j] <= hi[j]) for j in range(feats)]) for i in range(n)]
    X = pd.DataFrame({names[j]: [rows[i][j] for i in range(n)] for j in range(feats)}, index=ix) if xk == "df" else np.array([list(x) for x in rows])
    want = ["nan" if text else env.nan] * n
    want = [env.ite(m, p, w) for m, w in zip(met, want)]
    if xk == "vector":
        a = np.array([env.ite(m, 1, 0) for m in met], dtype=np.ubyte)
        got = r.calc_prediction_vector(activation=a)
        env.require_eq([env.nan if isinstance(w, str) and w == "nan" else w for w in got.tolist()] if not env.sym else got, [env.ite(m, p, env.nan) for m in met], "prediction vector")
        return
    if xk == "self":
        r.calc_activation(X)
        got = r.predict()
    elif xk in ("fitted", "fittedn"):
        m = n + 1 if xk == "fitted" else n
        r.calc_activation(np.array([[0.0 if i != 1 else 1.0] for i in range(m)]))
        before = list(r.activation)
        got = r.predict(X)
        env.require_eq(list(r.activation), before, "activation changed by predict")
        env.require_close(r.coverage, env.div(env.sum(before), m), "coverage changed by predict")
    else: got = r.predict(X)
    env.require_eq(len(got), n, "length of the prediction")
    env.require_eq(got, want, "prediction")
    if xk == "df":
        env.require_eq(list(got.index), list(ix), "index of the prediction")
        env.require(isinstance(got, pd.Series), "a Series for a data frame")
        env.require_eq([X[nm].tolist() for nm in names], [[rows[i][j] for i in range(n)] for j in range(feats)], "data changed by predict")
    else: env.require_eq(X.tolist(), rows, "data changed by predict")
    env.require_eq(r.prediction, p, "prediction of the rule changed")
    env.require_eq([list(r.bmins), list(r.bmaxs)], [lo, hi], "bounds changed by predict")
    if xk in ("array", "df"): env.require(r.activation is None, "activation set by predict")
