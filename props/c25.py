ID = "C25"
BOUNDS = {"quick": "conditions built from lists of 1 to 3 features, names and bounds whose lengths, repetitions and types are chosen freely, bounds any real numbers; arrays and data frames of 1 to 4 columns and 0 to 2 observations for conditions on up to 2 features out of 4; integers, texts and other objects given as vectors; rules and rule sets of 0 to 2 rules asked for what they do not have, targets of 1 to 3 values for 2 observations, thresholds with unknown transformations or limits",
          "thorough": "lists of 1 to 4, all types at every position"}
ASSUMES = "No clash between random file names (C05), enough memory (C03). Features indexes are not negative. A refusal is an exception; its kind is checked where the documentation or the message names one."
import itertools
from . import rslib as L
NAMES = ["A", "B", "C", "D"]


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, str(b).replace(" ", "")) for a, b in k.items()), k))
    m = 3 if tier == "quick" else 4
    for given in ("indexes", "names", "both"):
        for k in range(1, m + 1): add(what="lengths", k=k, given=given)
        for k in range(2, m + 1): add(what="repeat", k=k, given=given)
    for k in (1, 2) if tier == "quick" else (1, 2, 3): add(what="types", k=k)
    for kind in ("array", "df"):
        for k in (1, 2): add(what="columns", k=k, kind=kind)
    for k in (1, 2): add(what="named", k=k)
    for x in ("rule", "vector", "thresholds", "conditiontext"): add(what=x)
    for sfit in (False, True):
        for rt in ("reg", "cls"): add(what="ruleset", sfit=sfit, rt=rt)
    for rt in ("reg", "cls"):
        for kind in ("array", "series"): add(what="mismatch", rt=rt, kind=kind)
    return out


def run(env, what, k=1, given="both", kind="array", sfit=False, rt="reg"):
    L.quiet(env)
    np = env.np
    H, D = env.condition.HyperrectangleCondition, env.condition.DuplicatedFeatures
    A, RuleSet = env.Activation, env.ruleset.RuleSet
    Reg, Cls = env.rule.RegressionRule, env.rule.ClassificationRule
    any_ = (Exception,)
    def bnd(tag, m): return [env.real("%s%d" % (tag, i), inf=True) for i in range(m)]
    def accepted(c, names, idx, lo, hi):
        got = sorted(zip(c.features_names, c.features_indexes, range(len(c))), key=lambda t: t[0])
        order = sorted(range(len(names)), key=lambda i: names[i])
        env.require_eq([(a, b) for a, b, _ in got], [(names[i], idx[i]) for i in order], "features of an accepted condition")
        env.require_eq([c.bmins[p] for _, _, p in got], [lo[i] for i in order], "lower bounds of an accepted condition")
        env.require_eq([c.bmaxs[p] for _, _, p in got], [hi[i] for i in order], "upper bounds of an accepted condition")
    if what == "lengths":
        sizes = [s for s in range(0, 5) if abs(s - k) <= 1]
        nlo, nhi = env.choice("nlo", sizes), env.choice("nhi", sizes)
        nn = env.choice("nn", sizes) if given == "both" else k
        idx = list(range(k))[::-1] if given != "names" else None
        names = NAMES[:nn] if given != "indexes" else None
        lo, hi = bnd("lo", nlo), bnd("hi", nhi)
        ok = nlo == k and nhi == k and nn == k
        mk = lambda: H(features_indexes=None if idx is None else list(idx), bmins=list(lo), bmaxs=list(hi), features_names=None if names is None else list(names))
        if not ok:
            env.require(env.raises(ValueError, mk), "lists of different lengths should be refused")
            return
        if idx is None: idx = list(range(k))
        if names is None: names = ["X_%d" % i for i in idx]
        accepted(mk(), names, idx, lo, hi)
        env.require(env.raises(ValueError, lambda: H(idx, bmaxs=list(hi), features_names=list(names))), "a condition without lower bounds is refused")
        env.require(env.raises(ValueError, lambda: H(idx, bmins=list(lo), features_names=list(names))), "a condition without upper bounds is refused")
        env.require(env.raises(ValueError, lambda: H(bmins=list(lo), bmaxs=list(hi))), "a condition without features is refused")
        return
    if what == "repeat":
        idx = [env.choice("i%d" % i, list(range(k))) for i in range(k)] if given != "names" else None
        names = [env.choice("n%d" % i, NAMES[:k]) for i in range(k)] if given == "names" else [env.choice("n%d" % i, [NAMES[0], NAMES[i]]) for i in range(k)] if given == "both" else None
        lo, hi = bnd("lo", k), bnd("hi", k)
        bad = (idx is not None and len(set(idx)) < k) or (names is not None and len(set(names)) < k)
        mk = lambda: H(features_indexes=None if idx is None else list(idx), bmins=list(lo), bmaxs=list(hi), features_names=None if names is None else list(names))
        if bad: env.require(env.raises(D, mk), "the same feature twice should be refused")
        else:
            ix = list(range(k)) if idx is None else idx
            accepted(mk(), ["X_%d" % i for i in ix] if names is None else names, ix, lo, hi)
        return
    if what == "types":
        pos = env.choice("pos", list(range(k)))
        idx, names, lo, hi = list(range(k)), NAMES[:k], bnd("lo", k), bnd("hi", k)
        wrong = env.choice("wrong", ["index", "name", "lo", "hi"])
        val = env.choice("val", {"index": [1.5, "1", None], "name": [3, None, ("A",)], "lo": ["0", None, [1]], "hi": ["0", None, [1]]}[wrong])
        l = dict(index=idx, name=names, lo=lo, hi=hi)[wrong]
        l[pos] = val
        env.require(env.raises(TypeError, lambda: H(idx, bmins=lo, bmaxs=hi, features_names=names)), "a %s of another type should be refused" % wrong)
        return
    if what == "columns":
        fs = env.choice("fs", [list(p) for p in itertools.permutations(range(4), k)])
        cols = env.choice("cols", [1, 2, 3, 4])
        rows = env.choice("rows", [1, 2])
        c = H(list(fs), bmins=[0.0] * k, bmaxs=[1.0] * k, features_names=[NAMES[f] for f in fs])
        x = [[env.real("x%d_%d" % (i, j), -2, 2) for j in range(cols)] for i in range(rows)]
        xs = np.array(x) if kind == "array" else env.pd.DataFrame({NAMES[j]: [row[j] for row in x] for j in range(cols)})
        r = Reg(c)
        r._prediction = 1.0
        bad = any(f >= cols for f in fs)
        if bad:
            for fn in (c.evaluate, r.evaluate_activation, r.predict, r.calc_activation): env.require(env.raises(IndexError, fn, xs), "data without a feature should be refused")
            env.require(not r.activation_available, "activation after a refusal")
        else:
            want = [env.ite(env.and_(*[env.and_(row[f] >= 0, row[f] <= 1) for f in fs]), 1, 0) for row in x]
            env.require_eq(list(c.evaluate(xs)), want, "data with all the features")
        return
    if what == "named":
        # a data frame whose columns have other names: never taken by position
        fs = env.choice("fs", [list(p) for p in itertools.permutations(range(3), k)])
        cols = [env.choice("c%d" % j, [NAMES[j], "other%d" % j]) for j in range(3)]
        extra = env.choice("extra", [[], ["a", "X_0", "X_1"]])
        index = env.choice("index", [None, [5, 3]])
        c = H(list(fs), bmins=[0.0] * k, bmaxs=[1.0] * k, features_names=[NAMES[f] for f in fs])
        x = [[env.real("x%d_%d" % (i, j), -2, 2) for j in range(3)] for i in range(2)]
        d = {n: [0.5, 0.5] for n in extra}
        d.update({cols[j]: [row[j] for row in x] for j in range(3)})
        xs = env.pd.DataFrame(d) if index is None else env.pd.DataFrame(d, index=index)
        r = Reg(c)
        r._prediction = 1.0
        if any(NAMES[f] not in cols for f in fs):
            for fn in (c.evaluate, r.evaluate_activation, r.predict, r.calc_activation): env.require(env.raises(IndexError, fn, xs), "a data frame without a feature should be refused")
            env.require(not r.activation_available, "activation after a refusal")
        else:
            want = [env.ite(env.and_(*[env.and_(row[f] >= 0, row[f] <= 1) for f in fs]), 1, 0) for row in x]
            env.require_eq(list(c.evaluate(xs)), want, "data frame with all the features")
        return
    if what == "rule":
        bits = env.bits("b", 2)
        a, c = L.act(env, bits), L.cond(env, 0)
        for cls in (Reg, Cls):
            for bad in ("A in [0, 1]", 1, a, [c]): env.require(env.raises(TypeError, cls, bad), "a rule on something else than a condition is refused")
            for bad in ("0,1,2", 1, c, [0, 1], np.array([0, 1])): env.require(env.raises(TypeError, cls, c, bad), "a rule with something else than a vector is refused")
            env.require(env.raises(ValueError, cls, None, a), "a rule with a vector and no condition is refused")
            r = cls(c)
            r._prediction = 1
            env.require(env.raises(ValueError, r.predict), "predicting without activation nor data is refused")
            env.require(env.raises(ValueError, r.calc_activation), "computing an activation without data is refused")
            env.require(env.raises(ValueError, lambda: r.eval(np.array([1.0, 2.0]))), "evaluating without activation nor data is refused")
            env.require(env.raises(ValueError, lambda: r.fit(np.array([1.0, 2.0]))), "fitting without activation nor data is refused")
            env.require(r.activation is None and r.prediction == 1, "rule after refusals")
            for fn in (r.fit, r.eval): env.require(env.raises(IndexError, lambda: fn(np.array([1.0, 2.0]), method="x")), "the reserved argument is refused")
            s = cls(c, a)
            env.require_eq(list(s.activation), bits, "activation of an accepted rule")
            s._prediction = 1
            for fn in ([s.calc_criterion, s.calc_prediction, s.calc_std, s.calc_zscore] if cls is Reg else [s.calc_criterion]):
                env.require(env.raises(TypeError, lambda: fn(np.array([1.0, 2.0]), activation=np.array([1, 1]))), "an activation of another type is refused")
        return
    if what == "vector":
        n = env.int("n", 0, 6)
        for wc in (False, True):
            A.WILL_COMPARE = wc
            env.require(env.raises(ValueError, A, n), "a number without length is refused")
            env.require(env.raises(ValueError, lambda: A(n, to_file=False)), "a number without length is refused")
            for bad in ([0, 1], (0, 1), 1.5, None, {"0": 1}): env.require(env.raises(TypeError, A, bad), "a vector of another type is refused")
            env.require_eq(list(A(n, length=3, to_file=False).raw), [env.ite((n // 2 ** (2 - i)) % 2 == 1, 1, 0) for i in range(3)], "a number with its length is accepted")
        a, b = L.act(env, env.bits("a", 2)), L.act(env, env.bits("b", 3))
        for op in ("__and__", "__or__", "__xor__", "__sub__", "__add__", "get_correlation"): env.require(env.raises(ValueError, getattr(a, op), b), "vectors of different lengths are refused by " + op)
        env.require(env.raises(any_, lambda: a in b), "vectors of different lengths are refused by in")
        return
    if what == "thresholds":
        v = env.real("v", 0, 1)
        r = Reg(L.cond(env, 0), L.act(env, env.bits("b", 2)))
        r._prediction = v
        for lim, err in (({"prediction": {"min": 0.5, "arg": "nothing"}}, ValueError), ({"prediction": {"max": [1]}}, TypeError), ({"prediction": {"min": None}}, TypeError), ({"prediction": {"equal": {"a": 1}}}, TypeError), ({"prediction": {"different": "not_there"}}, AttributeError)):
            r._good = True
            r.set_thresholds(L.limits(env, lim))
            env.require(env.raises(err, r.check_thresholds, "prediction"), "such a limit should be refused: %s" % lim)
            env.require(r.good, "a rule is not bad because a limit was refused")
        return
    if what == "conditiontext":
        c = L.cond(env, 0)
        for order in ("Index", "names", None, 1):
            H.SORT_ACCORDING_TO = order
            env.require(env.raises(ValueError, lambda: H([0, 1], bmins=[0, 0], bmaxs=[1, 1])), "an unknown sorting is refused")
        H.SORT_ACCORDING_TO = "index"
        return
    R = Reg if rt == "reg" else Cls
    y = np.array([1.0, 2.0]) if rt == "reg" else np.array([0, 1])
    try:
        RuleSet.STACKED_FIT = sfit
        if what == "ruleset":
            empty = RuleSet()
            x = np.array([[env.real("x%d" % i, -1, 2)] for i in range(2)])
            for fn in (empty.evaluate, empty.calc_activation): env.require(env.raises(ValueError, fn, x), "an empty rule set refuses to evaluate")
            env.require(env.raises(any_, lambda: empty.fit(y, x)), "an empty rule set refuses to fit")
            env.require(env.raises(ValueError, lambda: empty.rule_type), "an empty rule set has no rule type")
            for bad in (int, str, env.condition.Condition): env.require(env.raises(TypeError, setattr, empty, "rule_type", bad), "a type that is not one of rules is refused")
            rs = RuleSet([R(L.cond(env, 0))])
            env.require(env.raises(ValueError, lambda: rs.eval(y)), "evaluating an unfitted rule set without data is refused")
            for fn in (rs.fit, rs.eval): env.require(env.raises(IndexError, lambda: fn(y, x, method="x")), "the reserved argument is refused")
            env.require(not rs[0].activation_available and rs[0].prediction is None, "rule after refusals")
            for bad in ("not_there", "features"): env.require(env.raises(ValueError, rs.sort, bad), "an unknown sorting is refused")
            env.require(len(rs) == 1, "rules after refusals")
            return
        # targets and observations in different numbers, all rules fitted at once
        RuleSet.STACKED_FIT = True
        m = env.choice("m", [1, 2, 3])
        yv = [1.0, 2.0, 4.0][:m] if rt == "reg" else [0, 1, 1][:m]
        bits = [[1, 1], [1, 0]]
        def mk(fitted):
            rules = [R(L.cond(env, j), L.act(env, bits[j])) for j in range(2)]
            for r in rules:
                r._fitted = fitted
                if fitted: r._prediction = 1
            return RuleSet(rules)
        yy = L.target(env, yv, kind)
        x = L.data(env, bits)
        for how, fn in (("fit", lambda: mk(False).fit(yy)), ("fit on data", lambda: mk(False).fit(yy, x)), ("eval", lambda: mk(True).eval(yy)), ("eval on data", lambda: mk(True).eval(yy, x))):
            if m == 2: fn()
            else: env.require(env.raises(any_, fn), "targets and observations in different numbers should be refused by " + how)
    finally:
        RuleSet.STACKED_FIT = False
        H.SORT_ACCORDING_TO = "index"
        A.WILL_COMPARE = False
