ID = "C18"
BOUNDS = {"quick": "1 to 3 rules with 1 or 2 features (6 names, some with commas, quotes, blanks, non-ASCII), any real or infinite bounds, or 17 numbers written in different ways, any real, infinite or NaN or missing prediction, deviation, z-score and criterion, any coverage over 2 observations, integer classes (any) or text classes among 5, class probabilities; any rule set criterion, train and test sizes; file named by a path or a text; prediction on 1 new observation with any feature values; rule sets built, fitted, sorted, sliced, or loaded once already; loading into a new rule set or one which held other rules; the empty set",
          "thorough": "2 features for every rule and 3 observations, 12 rules"}
ASSUMES = "No class name is empty, or is read as something else than a text by Python or pandas (numbers, 'None', 'NA'...). Numbers are written exactly (Python's repr) and read back exactly by pandas up to rounding."
from . import rslib as L
FN = ["A", "b,c", 'say "x"', "d' e", "é", "[0]"]
DIGITS = [-0.05, -0.001, 1e-07, -1e-05, 1.5e-10, 0.1, 1 / 3, 1.0000000001, 123456789.125, -123456789.125, 1e22, -1e300, 5e-324, 100.0, 7, -3, 0.0]
TEXTS = ["a", "b, c", "it's", 'q"', "é_1"]


def cases(tier):
    out = []
    def add(k, f, kind="reg", meas="real", bnd="any", act=True, path="path", hist="plain", names=None, size="both"):
        p = dict(k=k, f=f, kind=kind, meas=meas, bnd=bnd, act=act, path=path, hist=hist, names=names, size=size)
        out.append(("_".join("%s=%s" % (a, b) for a, b in p.items()), p))
    for kind in ("reg", "int", "text", "proba", "probatext"):
        add(1, 1, kind); add(1, 2, kind, bnd="fin"); add(2, 1, kind, bnd="fin"); add(1, 1, kind, meas="odd", bnd="fixed", act=False); add(1, 1, kind, act=False, bnd="fin"); add(3, 1, kind, bnd="fixed")
    for nm in range(len(FN)): add(1, 2, "reg", bnd="fixed", names=nm)
    add(2, 1, "reg", meas="odd", bnd="fixed"); add(1, 2, "reg", bnd="any"); add(1, 1, "reg", path="text", bnd="fin")
    for h in ("fit", "sort", "slice", "twice", "named", "append", "used", "usedload"): add(2, 1, "reg", bnd="fin", hist=h); add(2, 1, "text", bnd="fixed", hist=h)
    for s in ("none", "train", "test"): add(1, 1, "reg", bnd="fixed", size=s); add(1, 1, "int", bnd="fixed", size=s)
    add(0, 1); add(12, 1, "reg", bnd="fixed")
    for q in ("bounds", "measures"): add(1, 1, "reg", meas="digits" if q == "measures" else "one", bnd="digits" if q == "bounds" else "fixed"); add(1, 2 if q == "bounds" else 1, "int", meas="digits" if q == "measures" else "one", bnd="digits" if q == "bounds" else "fixed")
    if tier != "quick":
        for kind in ("reg", "int", "text", "proba", "probatext"): add(2, 2, kind); add(2, 2, kind, meas="odd"); add(3, 2, kind, bnd="fin"); add(3, 1, kind)
        add(12, 2, "reg", bnd="fin"); add(2, 2, "reg", hist="twice"); add(2, 2, "reg", hist="fit")
    return out


def number(x):
    import numbers
    return not isinstance(x, str)


def run(env, k, f, kind, meas, bnd, act, path, hist, names, size):
    L.quiet(env)
    np, pd = env.np, env.pd
    RuleSet = env.ruleset.RuleSet
    H = env.condition.HyperrectangleCondition
    R = env.rule.RegressionRule if kind == "reg" else env.rule.ClassificationRule
    p = env.Path(env.tmpdir) / "rules.csv"
    fname = str(p) if path == "text" else p
    feats = ([FN[names], "A" if names else "z"] if names is not None else ["A", "b,c", "C", "D", "E"])
    def odd(nm):
        m = env.choice("m_" + nm, ["real", "nan", "inf", "ninf", "none"])
        return env.real(nm) if m == "real" else env.nan if m == "nan" else float("inf") if m == "inf" else -float("inf") if m == "ninf" else None
    def measure(nm): return env.choice("m_" + nm, DIGITS if nm[:-1] == which else DIGITS[:1]) if meas == "digits" else 1.25 if meas == "one" else odd(nm) if meas == "odd" and (k == 1 or nm in ("crit1", "z0")) else env.real(nm) if k < 5 or nm.endswith("7") else float(len(nm) + sum(map(ord, nm)) % 7) / 4
    which = env.choice("which", ["crit", "std", "z", "p", "rs"]) if meas == "digits" else None
    rules, want = [], []
    for j in range(k):
        ids = [j % 2] if f == 1 else [0, 1]
        inf = bnd == "any"
        if bnd == "digits":
            b = [env.choice("b%d" % i, DIGITS if not i else DIGITS[:4]) for i in range(f)]
            lo, hi = (b, [1e301] * f) if env.choice("side", [0, 1]) else ([-1e301] * f, b)
        elif bnd == "fixed": lo, hi = [-float("inf") if j == 0 else j / 10.0] * f, [1e-7 if j == 1 else 1.0 + j] * f
        else: lo, hi = [env.real("lo%d_%d" % (j, i), inf=inf) for i in range(f)], [env.real("hi%d_%d" % (j, i), inf=inf) for i in range(f)]
        c = H(list(ids), bmins=list(lo), bmaxs=list(hi), features_names=[feats[i] for i in ids])
        r = R(c)
        if kind == "reg" and meas in ("digits", "one"): pred = env.choice("dp", DIGITS) if which == "p" else 0.5
        elif kind == "int" and meas in ("digits", "one"): pred = 3
        elif kind == "reg": pred = (env.real("p%d" % j) if k < 5 or j in (1, 7) else 0.1 * j - 0.3) if meas != "odd" or j or k > 1 else odd("p%d" % j)
        elif kind == "int": pred = env.int("p%d" % j, -50, 50)
        elif kind == "text": pred = env.choice("p%d" % j, TEXTS if k == 1 else TEXTS[:2])
        elif kind == "proba": pred = env.int("p%d" % j, 0, 50)
        else: pred = env.choice("p%d" % j, TEXTS if k == 1 else TEXTS[:2])
        if kind == "proba": r._prediction = np.array([[pred + 1, 0.25], [pred, 0.75]])
        elif kind == "probatext": r._prediction = np.array([("zz", 0.25), (pred, 0.75)])
        else: r._prediction = pred
        r._criterion = measure("crit%d" % j)
        if kind == "reg": r._std, r._zscore = measure("std%d" % j), measure("z%d" % j)
        if kind == "reg" and pred is not None: r.calc_sign() if not bool(env.isnan(pred)) and pred != float("inf") and pred != -float("inf") else None
        bits = (env.bits("a%d_" % j, 2) if j < 2 else [j % 2, 1]) if act else None
        if act: r._activation = L.act(env, bits)
        else: r._coverage = env.real("cov%d" % j, 0, 1)
        r._fitted = True
        if hist == "named": r._name = ["first one", "R, 2", "x"][j % 3]
        rules.append(r)
    rs = RuleSet(rules)
    rs.rule_type = R
    if hist == "fit":
        y = np.array([1.5, -2.25] if kind == "reg" else ["a", "b, c"])
        for r in rules: r._fitted = False
        X0 = np.array([[env.real("x0"), 0.5], [env.real("x1"), 2.5]])
        rs.fit(y, X0)
    elif hist == "sort": rs.sort(reverse=True)
    elif hist == "slice": rs = rs[::-1]
    elif hist == "append":
        more = R(H([0], bmins=[2.0], bmaxs=[3.0], features_names=["A"]))
        more._prediction, more._criterion, more._fitted = (7.5 if kind == "reg" else "a"), 0.5, True
        if kind == "reg": more._std, more._zscore = 0.25, 1.0
        more._activation = L.act(env, [1, 0])
        rs.append(more)
    if k:
        rs.criterion = env.real("crit")
        if size in ("both", "train"): rs.train_set_size = env.int("ntrain", 0, 100000)
        if size in ("both", "test"): rs.test_set_size = env.int("ntest", 0, 100000)
    at = ["prediction", "coverage", "criterion"] + (["std", "zscore"] if kind == "reg" else [])
    def state(s):
        return [[list(r.features_names), list(r.features_indexes), list(r.bmins), list(r.bmaxs)] for r in s], [[getattr(r, a) for a in at] for r in s]
    before = state(rs)
    cov = rs.ruleset_coverage if k and act else None
    rs.save(fname)
    env.require_eq(state(rs), before, "rules changed by saving")
    lo = RuleSet()
    if hist in ("used", "usedload"):      # a rule set which held other rules, built or loaded
        R2 = env.rule.ClassificationRule if kind == "reg" else env.rule.RegressionRule
        o = R2(H([1], bmins=[-1.0], bmaxs=[4.0], features_names=["other"]), L.act(env, [1, 1, 0]))
        o._prediction, o._criterion, o._fitted = 5, 0.125, True
        lo = RuleSet([o])
        lo.criterion, lo.train_set_size, lo.test_set_size = 17.5, 33, 44
        if hist == "usedload":
            lo.save(env.Path(env.tmpdir) / "other.csv")
            lo = RuleSet()
            lo.load(env.Path(env.tmpdir) / "other.csv")
    lo.load(fname)
    if hist == "twice":
        lo.save(env.Path(env.tmpdir) / "again.csv")
        lo = RuleSet()
        lo.load(env.Path(env.tmpdir) / "again.csv")
    env.require_eq(len(lo), len(rs), "number of rules loaded")
    if not k: return
    got = state(lo)
    for a, b in zip(got[0], before[0]):
        env.require_eq(a[:2], b[:2], "features of a loaded rule")
        for u, v in zip(a[2:], b[2:]): env.require_rel(u, v, "bounds of a loaded rule")
    for a, b in zip(got[1], before[1]):
        for nm, u, v in zip(at, a, b):
            if v is None: env.require(u is None or bool(env.isnan(u)), "%s of a loaded rule" % nm)
            elif nm == "prediction" and kind in ("text", "probatext", "int", "proba"): env.require_eq(u, v, "class of a loaded rule")
            else:
                env.require(number(u), "%s of a loaded rule is not a number" % nm)
                env.require_rel(u, v, "%s of a loaded rule" % nm)
    env.require(all(isinstance(r, R) for r in lo), "type of the loaded rules")
    env.require(lo.rule_type is R, "type of rules of the loaded rule set")
    env.require_eq(sorted(set(lo.features_names)), sorted(set(rs.features_names)), "features of the loaded rule set")
    env.require_eq([str(x) for x in lo.to_df(ruleset_attributes=False).index], [str(x) for x in rs.to_df(ruleset_attributes=False).index], "names of the loaded rules")
    env.require(number(lo.criterion), "criterion of the loaded rule set is not a number")
    env.require_close(lo.criterion, rs.criterion, "criterion of the loaded rule set")
    if cov is not None:
        env.require(number(lo.ruleset_coverage), "coverage of the loaded rule set is not a number")
        env.require_close(lo.ruleset_coverage, cov, "coverage of the loaded rule set")
    for s, a in ((("both", "train"), "train_set_size"), (("both", "test"), "test_set_size")):
        if size in s:
            env.require(number(getattr(lo, a)), a + " is not a number")
            env.require_close(getattr(lo, a), getattr(rs, a), a + " of the loaded rule set")
            for r in lo: env.require_eq(getattr(r, a), getattr(rs, a), a + " of a loaded rule")
    if bnd != "any" and k < 5:
        x = env.reals("n", 2)
        X = np.array([list(x)])
        for a, b in zip(lo, rs):
            if b.prediction is None: continue
            env.require_close(a.predict(X), b.predict(X), "prediction of a loaded rule")
