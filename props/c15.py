ID = "C15"
BOUNDS = {"quick": "1 to 3 rules over 1 or 2 observations (4 rules over 1), every activation, integer classes (among 4 with 0 and a negative one) or text classes among 4 (one empty, one looking like a number), weights absent, any positive reals, integers up to 300, zero, NaN or missing per rule in any order, or a rule attribute; new data (array, or data frame with any index) or the training data; both methods; 300 rules over 1 observation; classes given directly or as fitted probabilities",
          "thorough": "5 rules over 1 observation, 4 over 2, 3 over 3"}
ASSUMES = "Rules with different conditions. Enough memory and no clash between random file names (C03, C05). A prediction may be refused (ValueError) when no rule of the set has a usable weight and is activated somewhere."
from . import rslib as L
CL = {"int": [0, 1, 7, -2], "text": ["a", "", "0", "b"]}


def cases(tier):
    out = []
    def add(what, k, n, cl="int", w="none", x="array", index="range", c=2, fit=False):
        p = dict(what=what, k=k, n=n, cl=cl, w=w, x=x, index=index, c=c, fit=fit)
        out.append(("_".join("%s=%s" % (a, b) for a, b in p.items()), p))
    for cl in ("int", "text"):
        add("new", 1, 2, cl, c=4); add("new", 1, 2, cl, "pos", c=4); add("new", 1, 1, cl, "any", c=4)
        add("new", 2, 2, cl); add("new", 2, 1, cl, c=4); add("new", 2, 1, cl, "pos", c=4); add("self", 2, 1, cl, "pos"); add("new", 2, 1, cl, "any")
        add("new", 3, 1, cl, c=3); add("new", 3, 1, cl, "pos"); add("self", 3, 1, cl, c=2); add("new", 2, 2, cl, "pos")
        add("new", 4, 1, cl); add("new", 2, 2, cl, fit=True)
        for ix in ("shift", "text", "perm"): add("new", 2, 2, cl, "none", "df", ix)
        add("new", 2, 1, cl, "coverage"); add("self", 2, 2, cl, "coverage"); add("new", 2, 1, cl, "criterion"); add("new", 2, 1, cl, "extra")
        add("new", 2, 1, cl, "int"); add("new", 3, 1, cl, "int"); add("many", 300, 1, cl); add("many", 300, 1, cl, "pos"); add("new", 3, 2, cl); add("four", 4, 1, cl, "pos"); add("four", 4, 1, cl)
    if tier != "quick":
        for cl in ("int", "text"):
            add("new", 5, 1, cl); add("new", 3, 1, cl, "pos", c=3); add("new", 3, 1, cl, "any"); add("new", 4, 1, cl, "pos"); add("new", 3, 2, cl, "pos"); add("self", 3, 2, cl); add("new", 3, 3, cl); add("new", 4, 2, cl)
    return out


IDX = {"range": None, "shift": [10, 11, 12, 13, 14], "text": list("abcde"), "perm": [2, 0, 1, 4, 3]}
ZERO = 0.0


def vote(env, classes, score):
    """the class of strictly greatest score, NaN if tied; the scores are positive"""
    cs = []
    for c in classes:
        if not any(bool(c == d) for d in cs): cs.append(c)
    tot = [env.sum([s for c2, s in zip(classes, score) if bool(c2 == c)]) for c in cs]
    out = env.nan
    for i, c in enumerate(cs):
        if bool(env.and_(*[tot[i] > tot[j] for j in range(len(cs)) if j != i], True)): out = c
    return out


def run(env, what, k, n, cl, w, x, index, c, fit):
    L.quiet(env)
    np, pd = env.np, env.pd
    RuleSet, R = env.ruleset.RuleSet, env.rule.ClassificationRule
    many = what == "many"
    cls = [CL[cl][0 if j < 258 or j > 297 else 1] if j else env.choice("c0", CL[cl][:3]) for j in range(k)] if many else CL[cl][:3] + [env.choice("c3", CL[cl])] if what == "four" else [env.choice("c%d" % j, CL[cl][:c]) for j in range(k)]
    ix = IDX[index][:n] if IDX[index] else None
    acts = [[1]] * k if many else [[1], [env.choice("a1", [1, 0])], [1], [1]] if what == "four" else L.choices(env, "a", k, n)
    cond = (lambda j: env.condition.HyperrectangleCondition([0], bmins=[float(-1 - j)], bmaxs=[1.0], features_names=["A"])) if many else (lambda j: L.cond(env, j))
    train = acts if what == "self" else [[1, 0, 1]] + [[0, 1, 0]] * (k - 1)
    ws = [env.real("w", 1, 2) if j == 2 else 1.0 for j in range(k)] if many else env.ints("w", k, 1, 300) if w == "int" else env.reals("w", k) if w not in ("none", "coverage") else [1] * k
    if w == "any": ws = [env.nan if m == "nan" else ZERO if m == "zero" else None if m == "missing" else v for v, m in [(v, env.choice("wm%d" % j, ["pos", "zero", "nan", "missing"])) for j, v in enumerate(ws)]]
    for v in ws:
        if v is not None and v is not env.nan and v is not ZERO and w not in ("none", "coverage"): env.assume(v > 0)
    try:
        for stacked in (False, True):
            RuleSet.STACKED_FIT = stacked
            if fit:
                rules = [R(cond(j)) for j in range(k)]
            else:
                rules = [R(cond(j), L.act(env, t)) for j, t in enumerate(train)]
                for r, p in zip(rules, cls): r._prediction, r._fitted = p, True
            rs = RuleSet(rules, stack_activation=stacked)
            if fit: rs.fit(np.array([cls[0], cls[1], cls[0]]), L.data(env, train))
            preds = [r.prediction for r in rs]
            names = [str(r.condition) for r in rs]
            if w == "none": weights, wv = None, [1] * k
            elif w == "coverage": weights, wv = "coverage", [r.coverage for r in rs]
            elif w == "criterion":
                for r, v in zip(rs, ws): r._criterion = v
                weights, wv = "criterion", ws
            else:
                items = [(nm, v) for nm, v in zip(names, ws) if v is not None][::-1]
                if w == "extra": items.insert(1, ("another rule", 30.0))
                if not items: return
                weights, wv = pd.Series([v for _, v in items], index=[nm for nm, _ in items], dtype=int if w == "int" else float), ws
            xx = None if what == "self" else np.array([[0.5]]) if many else L.data(env, acts, x, ix)
            use = [v is not None and not bool(env.isnan(v)) and not (isinstance(v, (int, float)) and v == 0) for v in wv]
            usable = any(use[j] and any(acts[j]) for j in range(k))
            try: got = rs.predict(xx, weights) if what != "self" else rs.predict(weights=weights)
            except ValueError:
                if usable: raise
                continue
            env.require_eq(len(got), n, "number of predictions")
            g = got.tolist()
            for i in range(n):
                on = [j for j in range(k) if acts[j][i] and use[j]]
                if stacked and w != "none": on = [j for j in on if bool(env.and_(*[wv[j] >= wv[l] for l in (on if not many else [2, 0, 1])], True))]
                score = [1 if stacked or w == "none" else wv[j] for j in on]
                env.require_eq(g[i], vote(env, [preds[j] for j in on], score), "class predicted by the rule set (%s)" % ("stacked" if stacked else "unstacked"))
            env.require_eq([r.prediction for r in rs], preds, "predictions of the rules changed")
            env.require_eq([list(r.activation) for r in rs], train, "activations of the rules changed")
            if stacked: env.require_eq([rs.stacked_activations[c].tolist() for c in rs.stacked_activations.columns], train, "stacked activations changed")
    finally:
        RuleSet.STACKED_FIT = False
