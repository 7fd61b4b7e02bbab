ID = "C09"
BOUNDS = {"quick": "1 to 4 observations, any activation, any targets (NaN included, integers too), horizons 1 to 3, arrays or Series with any index, activation kept in memory or in a file, conditions on 1 or 2 features; statistics computed together or one by one, from the activation of the rule or another; 256 to 600 observations with 3 free activations and 2 free targets",
          "thorough": "up to 5 observations"}
ASSUMES = "Deviation checked from two known activated targets on; z-score checked where the targets are not all equal."
IDX = {"range": None, "shift": [10, 11, 12, 13, 14, 15], "text": list("abcdef"), "perm": [2, 0, 1, 4, 3, 5]}


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, b) for a, b in k.items()), k))
    N = 4 if tier == "quick" else 5
    for n in range(1, N + 1):
        for ykind in ("array", "series"):
            add(how="x", n=n, ykind=ykind, index="range", local=True, horizon=1, feats=1, nan=n < 5)
            add(how="x", n=n, ykind=ykind, index="shift" if ykind == "series" else "range", local=False, horizon=1, feats=1, nan=n < 4)
    for n in (2, 3):
        for h in (2, 3): add(how="x", n=n, ykind="array", index="range", local=True, horizon=h, feats=1, nan=True)
        for ix in ("text", "perm"): add(how="x", n=n, ykind="series", index=ix, local=True, horizon=1, feats=1, nan=True)
        add(how="df", n=n, ykind="series", index="perm", local=True, horizon=1, feats=2, nan=True)
        add(how="df", n=n, ykind="array", index="shift", local=True, horizon=1, feats=2, nan=True)
        add(how="x", n=n, ykind="array", index="range", local=True, horizon=1, feats=2, nan=False)
        for how in ("given", "refit", "int", "intseries", "force", "parts", "partsgiven"): add(how=how, n=n, ykind="array", index="range", local=True, horizon=1, feats=1, nan=how != "refit" or n == 2)
    for n in (256, 257, 300, 600):
        for local in (True, False): add(how="long", n=n, ykind="array" if local else "series", index="range", local=local, horizon=2 if n == 300 else 1, feats=1, nan=False)
    return out


def expected(env, act, y, horizon):
    """act: list of booleans (maybe symbolic) ; y: list of reals -> dict of the statistics"""
    # decided here, point by point: what is left is polynomial in the targets
    known = [bool(env.not_(env.isnan(v))) for v in y]
    act = [bool(a) for a in act]
    both = [env.and_(a, k) for a, k in zip(act, known)]
    nb, na = env.count(both), env.count(act)
    z = [env.ite(k, v, 0.0) for k, v in zip(known, y)]
    s = env.sum([env.ite(b, v, 0.0) for b, v in zip(both, z)])
    mean = env.div(s, nb)
    var = env.div(env.sum([env.ite(b, (v - mean) * (v - mean), 0.0) for b, v in zip(both, z)]), nb - 1)
    nk = env.count(known)
    ym = env.div(env.sum(z), nk)
    yv = env.div(env.sum([env.ite(k, (v - ym) * (v - ym), 0.0) for k, v in zip(known, z)]), nk)
    kn = [v for k, v in zip(known, z) if k]
    return dict(differ=env.or_(*[v != kn[0] for v in kn[1:]]) if len(kn) > 1 else False, nb=nb, na=na, mean=mean, var=var, ym=ym, yv=yv)


def check(env, r, act, y, horizon, n, light=False):
    e = expected(env, act, y, horizon)
    env.require_close(r.coverage, env.div(e["na"], n), "coverage")
    env.require_eq(r.train_set_size, n, "training size")
    if e["nb"] == 0:
        env.require(env.isnan(r.prediction), "prediction without known activated target")
        env.require(env.isnan(r.zscore), "z-score without known activated target")
        return
    env.require_close(r.prediction, e["mean"], "prediction")
    env.require_eq(r.sign, env.ite(e["mean"] < 0, "-", "+"), "sign")
    if e["nb"] >= 2:
        env.require_close(r.std, env.sqrt(e["var"]), "deviation")
    if e["differ"]:
        env.require_close(r.zscore, env.div(env.abs(e["mean"] - e["ym"]), env.sqrt(env.div(horizon * e["yv"], e["na"]))) if not env.sym else
                          env.div(env.abs(e["mean"] - e["ym"]), env.sqrt(env.div(horizon, e["na"])) * env.sqrt(e["yv"])), "z-score")


def run(env, how, n, ykind, index, local, horizon, feats, nan):
    np, pd = env.np, env.pd
    R = env.rule.RegressionRule
    env.rule.Rule.LOCAL_ACTIVATION = local
    H = env.condition.HyperrectangleCondition
    kw = {} if horizon == 1 else dict(horizon=horizon)
    ix = IDX[index][:n] if IDX[index] else None
    if how == "long":
        free = {0: "x0", n // 2: "x1", n - 1: "x2"}
        xs = [env.choice(free[i], [0.5, 5.0]) if i in free else (0.5 if i % 7 else 5.0) for i in range(n)]
        y = [env.real("y%d" % i, -1000, 1000) if i in (0, n // 2) else float(i % 5) for i in range(n)]
        ints = False
    else:
        # which points are activated and which targets are known: every combination, one path each
        if how == "x" and n <= 2 and index == "range": xs = env.reals("x", n)
        else: xs = [env.choice("a%d" % i, [0.5, 5.0]) for i in range(n)]
        y = env.ints("y", n, -10, 10) if how.startswith("int") else [env.nan if nan and env.choice("nan%d" % i, [False, True]) else env.real("y%d" % i) for i in range(n)]
    x2 = [env.choice("c%d" % i, [0.5, -5.0]) for i in range(n)] if feats == 2 else [0.5] * n
    c = H([0] if feats == 1 else [1, 0], bmins=[0.0] * feats, bmaxs=[1.0] * feats, features_names=["A"] if feats == 1 else ["B", "A"])
    act = [env.and_(0 <= a, a <= 1, 0 <= b, b <= 1) for a, b in zip(xs, x2)]
    rows = [[a, b] for a, b in zip(xs, x2)]
    X = pd.DataFrame({"A": list(xs), "B": list(x2)}, index=ix) if how == "df" else np.array(rows)
    Y = pd.Series(list(y), index=ix) if ykind == "series" or how == "intseries" else np.array(list(y))
    r = R(c)
    if how == "given":
        a = env.Activation(np.array([env.ite(b, 1, 0) for b in act], dtype=np.ubyte), to_file=local)
        r = R(c, a)
        r.fit(Y, **kw)
    elif how == "refit":
        r.fit(np.array(env.reals("w", n)), np.array([[0.5, 0.5]] * n), **kw)
        r.fit(Y, X, **kw)
    elif how in ("parts", "partsgiven"):
        # each statistic computed alone, from the rule's own activation or a given one
        for a in ("prediction", "sign", "std", "zscore", "criterion", "coverage", "train_set_size", "test_set_size"): env.require(getattr(r, a) is None, a + " of a rule which is not fitted")
        a = env.Activation(np.array([env.ite(b, 1, 0) for b in act], dtype=np.ubyte), to_file=local)
        own = a if how == "parts" else env.Activation(np.array([env.ite(b, 0, 1) for b in act], dtype=np.ubyte), to_file=local)
        r = R(c, own)
        ak = {} if how == "parts" else dict(activation=a)
        env.require(r.calc_sign() is None and r.sign is None, "sign without prediction")
        r.calc_prediction(Y, **ak); r.calc_sign(); r.calc_std(Y, **ak); r.calc_zscore(Y, **ak); r.calc_train_set_size(Y)
        if how == "partsgiven":
            env.require_eq(r.activation, [env.ite(b, 0, 1) for b in act], "activation of the rule when another is given")
            r._activation = a
    elif how == "force": r.fit(Y, X, force_if_not_good=True, **kw)
    else: r.fit(Y, X, **kw)
    check(env, r, act, y, horizon, n)
    if how == "long":
        env.require_eq(r.nones, env.count(act), "number of activated points")
        return
    env.require_eq(r.activation, [env.ite(b, 1, 0) for b in act], "activation")
    env.require_eq(list(Y), list(y), "targets changed")
