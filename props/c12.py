ID = "C12"
BOUNDS = {"quick": "1 to 4 observations (1 to 3 for several vectors), any predictions (missing ones included) and targets; mse, mae, mse_norm, mae_norm and aae criteria, any letter case, the default; targets as array or Series with any index; 1 to 3 prediction vectors side by side",
          "thorough": "up to 5 observations"}
ASSUMES = "Targets are known (no NaN). The ratio criteria are checked where their denominator is not zero. At least one observation has a prediction (else NaN)."
IDX = {"range": None, "shift": [10, 11, 12, 13, 14], "text": list("abcde"), "perm": [2, 0, 1, 4, 3]}
METHODS = ["mse", "mae", "mse_norm", "aae", "default", "mae_norm"]


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, b) for a, b in k.items()), k))
    N = 4 if tier == "quick" else 5
    for meth in METHODS:
        for n in range(1, N + 1):
            add(what="one", meth=meth, n=n, k=1, ykind="array", index="range")
            if n in (2, 3):
                for ix in ("range", "shift", "perm"): add(what="one", meth=meth, n=n, k=1, ykind="series", index=ix)
                add(what="many", meth=meth, n=n, k=2, ykind="array" if n == 2 else "series", index="range" if n == 2 else "perm")
        add(what="many", meth=meth, n=2, k=3, ykind="series", index="text")
        add(what="many", meth=meth, n=1, k=1, ykind="array", index="range")
        add(what="many", meth=meth, n=3, k=1, ykind="array", index="range")
        add(what="rule", meth=meth, n=3, k=1, ykind="array", index="range")
        add(what="rule", meth=meth, n=2, k=1, ykind="series", index="perm")
        add(what="ruleself", meth=meth, n=2, k=1, ykind="array", index="range")
        add(what="rulegiven", meth=meth, n=2, k=1, ykind="series", index="perm")
        add(what="ruleset", meth=meth, n=2 if tier == "quick" else 3, k=2, ykind="series", index="shift")
        add(what="upper", meth=meth, n=2, k=1, ykind="array", index="range")
        add(what="capital", meth=meth, n=2, k=1, ykind="array", index="range")
        add(what="swap", meth=meth, n=2, k=1, ykind="array", index="range")
        add(what="lengths", meth=meth, n=2, k=2, ykind="array", index="range")
        add(what="long", meth=meth, n=300, k=1, ykind="array", index="range")
    add(what="unknown", meth="rmse", n=2, k=1, ykind="array", index="range")
    return out


def median(env, y):
    s = []
    for v in y:
        k = 0
        while k < len(s) and s[k] < v: k += 1
        s.insert(k, v)
    h = len(s) // 2
    return s[h] if len(s) % 2 else (s[h - 1] + s[h]) / 2


def spec(env, meth, p, y):
    """p: list of predictions, None where there is none; the value, or None if undefined"""
    pairs = [(a, b) for a, b in zip(p, y) if a is not None]
    if not pairs: return env.nan
    n = len(pairs)
    if meth in ("mse", "mse_norm", "default"):
        num = env.div(env.sum([(a - b) * (a - b) for a, b in pairs]), n)
        if meth == "mse": return num
        m = env.div(env.sum(y), len(y))
        if not env.or_(*[v != y[0] for v in y[1:]], False): return None
        return env.div(num, env.div(env.sum([(m - b) * (m - b) for b in y]), len(y)))
    num = env.div(env.sum([env.abs(a - b) for a, b in pairs]), n)
    if meth == "mae": return num
    if not env.or_(*[v != y[0] for v in y[1:]], False): return None
    m = median(env, y) if meth == "aae" else env.div(env.sum(y), len(y))
    return env.div(num, env.div(env.sum([env.abs(b - m) for b in y]), len(y)))


def run(env, what, meth, n, k, ykind, index):
    np, pd = env.np, env.pd
    f = env.rfunctions.calc_regression_criterion
    kw = {} if meth == "default" else dict(criterion_method={"upper": meth.upper(), "capital": meth.capitalize(), "swap": meth[0] + meth[1:].upper()}.get(what, meth))
    ix = IDX[index][:n] if IDX[index] else None
    if what == "long":
        y = [env.real("y%d" % i, -100, 100) if i in (3, 200) else float(i % 6) for i in range(n)]
        if meth == "aae": y = [float(i % 6) for i in range(n)]
        p = [[None if i % 5 == 0 else env.real("p", -10, 10) if i == 77 else float(i % 4) for i in range(n)]]
    elif what.startswith("rule"):
        y = env.reals("y", n)
        p = None
    else:
        y = env.reals("y", n)
        p = [[None if env.choice("m%d_%d" % (j, i), [False, True]) else env.real("p%d_%d" % (j, i)) for i in range(n)] for j in range(k)]
    Y = pd.Series(list(y), index=ix) if ykind == "series" else np.array(list(y))
    def vec(v): return pd.Series([env.nan if a is None else a for a in v], dtype=float)
    if what in ("rule", "ruleself", "rulegiven"):
        act = [env.choice("a%d" % i, [1, 0]) for i in range(n)]
        r = env.rule.RegressionRule(env.condition.HyperrectangleCondition([0], bmins=[0.0], bmaxs=[1.0]))
        v = env.real("v")
        r._prediction = v
        r.calc_activation(np.array([[0.5 if a else 5.0] for a in act]) if what != "rulegiven" else np.array([[5.0 if a else 0.5] for a in act]))
        if what == "rule": r.eval(Y, **kw)
        elif what == "ruleself": r.calc_criterion(Y, **kw)
        else: r.calc_criterion(Y, activation=env.Activation(np.array(act, dtype=np.ubyte)), **kw)
        s = spec(env, meth, [v if a else None for a in act], y)
        if s is not None: env.require_close(r.criterion, s, "criterion of a rule (%s)" % meth)
        return
    if what == "ruleset":
        acts = [[env.choice("a%d_%d" % (j, i), [1, 0]) for i in range(n)] for j in range(k)]
        vs = env.reals("v", k)
        rules = []
        for j in range(k):
            r = env.rule.RegressionRule(env.condition.HyperrectangleCondition([j], bmins=[0.0], bmaxs=[1.0]), env.Activation(np.array(acts[j], dtype=np.ubyte)))
            r._prediction = vs[j]
            rules.append(r)
        rs = env.ruleset.RuleSet(rules)
        rs.calc_criterion(y=Y, **kw)
        p = []
        for i in range(n):
            on = [vs[j] for j in range(k) if acts[j][i]]
            p.append(env.div(env.sum(on), len(on)) if on else None)
        s = spec(env, meth, p, y)
        if s is not None: env.require_close(rs.criterion, s, "criterion of a rule set (%s)" % meth)
        return
    if what == "unknown":
        env.require(env.raises(ValueError, f, vec(p[0]), Y, **kw), "unknown criterion accepted")
        return
    if what == "lengths":
        other = np.array(list(y) + [env.real("yy")])
        env.require(env.raises(Exception, f, vec(p[0]), other, **kw), "more targets than predictions accepted")
        env.require(env.raises(Exception, f, pd.DataFrame({"a": vec(p[0]), "b": vec(p[1])}), other, **kw), "more targets than stacked predictions accepted")
        env.require(env.raises(Exception, f, vec(p[0]), np.array([y[0]]), **kw), "fewer targets than predictions accepted")
        return
    if what == "many":
        got = f(pd.DataFrame({"r%d" % j: vec(p[j]) for j in range(k)}), Y, **kw)
        env.require_eq(list(got.index), ["r%d" % j for j in range(k)], "one criterion per prediction vector")
        for j in range(k):
            s = spec(env, meth, p[j], y)
            if s is not None: env.require_close(got["r%d" % j], s, "criterion (%s) of one vector of many" % meth)
        return
    got = f(vec(p[0]), Y, **kw)
    s = spec(env, meth, p[0], y)
    if s is not None: env.require_close(got, s, "criterion (%s)" % meth)
    env.require_eq(list(Y), list(y), "targets changed")
