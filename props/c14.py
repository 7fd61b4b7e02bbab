ID = "C14"
BOUNDS = {"quick": "1 to 3 rules over 1 to 3 observations, every activation, any real predictions (NaN in part), weights absent, any positive reals, integers up to 300, zero, NaN or missing per rule in any order, negative ones included in part, or a rule attribute; new data (array, or data frame with any index) or the training data; 300 rules over 2 observations",
          "thorough": "up to 4 rules over 3 observations, 3 rules over 4"}
ASSUMES = "Rules with different conditions. Enough memory and no clash between random file names (C03, C05). Observations where the weights of the activated rules sum to zero are left out. A prediction may be refused (ValueError) when no rule of the set has a usable weight and is activated somewhere."
from . import rslib as L


def cases(tier):
    out = []
    def add(what, k, n, w="none", x="array", nan=False, index="range", fit=False):
        p = dict(what=what, k=k, n=n, w=w, x=x, nan=nan, index=index, fit=fit)
        out.append(("_".join("%s=%s" % (a, b) for a, b in p.items()), p))
    for w in ("none", "any", "pos"):
        add("new", 1, 2, w); add("new", 2, 2, w); add("self", 2, 2, w); add("new", 3, 1, w)
    add("new", 1, 3, "any", nan=True); add("new", 2, 2, "pos", nan=True); add("new", 2, 1, "any", nan=True); add("new", 2, 2, "none", nan=True)
    add("new", 2, 2, "neg"); add("self", 3, 1, "neg"); add("new", 2, 3, "pos"); add("new", 3, 2, "none"); add("new", 3, 2, "pos"); add("self", 2, 3, "none")
    for ix in ("shift", "text", "perm"): add("new", 2, 2, "pos", "df", index=ix)
    add("new", 2, 2, "none", "df", index="perm"); add("new", 3, 1, "any", "df", index="text")
    for w in ("coverage", "criterion", "extra"): add("new", 2, 2, w); add("self", 2, 2, w)
    for w in ("none", "pos"): add("self", 2, 2, w, fit=True); add("new", 2, 2, w, fit=True)
    add("new", 2, 2, "int"); add("new", 3, 1, "int"); add("self", 2, 1, "int")
    add("many", 300, 2, "none"); add("many", 300, 2, "pos"); add("many", 257, 1, "none")
    if tier != "quick":
        add("new", 3, 3, "none"); add("new", 3, 3, "pos"); add("new", 4, 2, "pos"); add("new", 2, 4, "any"); add("new", 3, 2, "any"); add("self", 3, 3, "pos"); add("new", 3, 2, "pos", nan=True); add("many", 700, 2, "pos")
    return out


ZERO = 0.0
IDX = {"range": None, "shift": [10, 11, 12, 13, 14], "text": list("abcde"), "perm": [2, 0, 1, 4, 3]}


def run(env, what, k, n, w, x, nan, index, fit):
    L.quiet(env)
    np, pd = env.np, env.pd
    RuleSet, R = env.ruleset.RuleSet, env.rule.RegressionRule
    many = what == "many"
    ix = IDX[index][:n] if IDX[index] else None
    if many:
        conds = lambda: [env.condition.HyperrectangleCondition([0], bmins=[float(-1 - j)], bmaxs=[1.0], features_names=["A"]) for j in range(k)]
        xs = [-100.5, 0.5][:n] if n == 2 else [0.5]
        acts = [[1 if -1 - j <= v <= 1 else 0 for v in xs] for j in range(k)]
        train = [[1] for _ in range(k)]
        X = lambda: np.array([[v] for v in xs])
        ps = [env.real("p%d" % j, -100, 100) if j in (0, 150, k - 1) else float(j % 7) for j in range(k)]
        ws = [env.real("w%d" % j, 1, 10) if j == 3 else float(1 + j % 3) for j in range(k)]
    else:
        conds = lambda: [L.cond(env, j) for j in range(k)]
        acts = L.choices(env, "a", k, n)
        train = acts if what == "self" else [[1, 0, 1]] + [[0, 1, 1]] * (k - 1)
        X = lambda: L.data(env, acts, x, ix)
        ps = [env.nan if nan and env.choice("pnan%d" % j, [False, True]) else env.real("p%d" % j) for j in range(k)]
        ws = env.ints("w", k, 1, 300) if w == "int" else env.reals("w", k)
        if w == "any": ws = [env.nan if m == "nan" else ZERO if m == "zero" else None if m == "missing" else v for v, m in [(v, env.choice("wm%d" % j, ["pos", "zero", "nan", "missing"])) for j, v in enumerate(ws)]]
        for v in ws:
            if v is not None and v is not env.nan and v is not ZERO: env.assume(v > 0 if w != "neg" else v != 0)
    m = len(train[0])
    y = None
    if fit: y = env.reals("y", m)
    results = {}
    try:
        for stacked in (False, True):
            RuleSet.STACKED_FIT = stacked
            rules = [R(c, L.act(env, t)) for c, t in zip(conds(), train)]
            for r, p in zip(rules, ps): r._prediction, r._fitted = p, True
            if fit:
                rules = [R(c) for c in conds()]
            rs = RuleSet(rules, stack_activation=stacked)
            if fit: rs.fit(np.array(list(y)), L.data(env, train))
            preds = [r.prediction for r in rs]
            names = [str(r.condition) for r in rs]
            if w == "none": weights, wv = None, [1] * k
            elif w == "coverage": weights, wv = "coverage", [r.coverage for r in rs]
            elif w == "criterion":
                for r, v in zip(rs, ws): r._criterion = v
                weights, wv = "criterion", ws
            else:
                items = [(nm, v) for nm, v in zip(names, ws) if v is not None][::-1]
                if w == "extra": items.insert(1, ("another rule", 3.0))
                if not items: return
                weights, wv = pd.Series([v for _, v in items], index=[nm for nm, _ in items], dtype=int if w == "int" else float), ws
            xx = None if what == "self" else X()
            use = [v is not None and not bool(env.isnan(v)) and not (isinstance(v, (int, float)) and v == 0) for v in wv]
            usable = any(use[j] and (not bool(env.isnan(preds[j]))) and any(acts[j]) for j in range(k))
            before = [(r.prediction, list(r.activation), r.coverage) for r in rs]
            cols = None if rs.stacked_activations is None else [rs.stacked_activations[c].tolist() for c in rs.stacked_activations.columns]
            try: got = rs.predict(xx, weights) if what != "self" else rs.predict(weights=weights)
            except ValueError:
                if usable: raise
                got = None
            want = []
            for i in range(n):
                on = [j for j in range(k) if acts[j][i] and use[j] and not bool(env.isnan(preds[j]))]
                if not on:
                    want.append(env.nan)
                    continue
                tot = env.sum([wv[j] for j in on])
                if w == "neg": env.exclude(tot == 0)
                want.append(env.div(env.sum([wv[j] * preds[j] for j in on]), tot))
            if got is not None:
                env.require_eq(len(got), n, "number of predictions")
                g = got.tolist()
                for i in range(n): env.require_close(g[i], want[i], "prediction of the rule set (%s)" % ("stacked" if stacked else "unstacked"))
            env.require_eq([r.prediction for r in rs], [b[0] for b in before], "predictions of the rules changed")
            env.require_eq([list(r.activation) for r in rs], [b[1] for b in before], "activations of the rules changed")
            env.require_eq([r.coverage for r in rs], [b[2] for b in before], "coverage of the rules changed")
            if cols is not None: env.require_eq([rs.stacked_activations[c].tolist() for c in rs.stacked_activations.columns], cols, "stacked activations changed")
            if isinstance(weights, pd.Series): env.require_eq(weights.tolist(), [v for _, v in items], "weights changed")
            if xx is not None and not many:
                val = [[0.5 if b else 5.0 for b in acts[j]] for j in range(k)]
                env.require_eq([xx[L.NAMES[j]].tolist() for j in range(k)] if x == "df" else xx.T.tolist(), val, "data changed")
    finally:
        RuleSet.STACKED_FIT = False
