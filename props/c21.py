ID = "C21"
BOUNDS = {"quick": "1 or 2 rules fitted over 3 observations (or given any prediction), then one or two operations among evaluating on new data, evaluating on the training data, computing the criterion, predicting on new or training data, evaluating activations, each on new data of 1 to 3 observations with every activation and any targets, as arrays or with any index, without weights, with any positive weights or weighted by an attribute of the rules; mse and mae criteria or success rate; both fitting methods, stacked activations kept or not; rules evaluated alone; rules with measures but no activation (loaded) predicting on new data",
          "thorough": "up to 3 rules, 4 observations of new data, every two operations in all configurations"}
ASSUMES = "Rules with different conditions. Enough memory and no clash between random file names (C03, C05). Evaluating a rule set on data where none of its rules is activated may be refused (ValueError), its state is checked all the same."
MAX_PATHS = {"quick": 40000, "thorough": 400000}
from . import rslib as L
OPS = ["eval", "evalself", "criterion", "criterionself", "predict", "predictself", "acts", "ruleeval", "rulepredict"]
IDX = {"range": None, "shift": [10, 11, 12, 13, 14], "text": list("abcde"), "perm": [2, 0, 1, 4, 3]}
TRAIN = [[1, 0, 1], [0, 1, 1], [1, 1, 0]]


def cases(tier):
    out = []
    def add(kind, k, n, ops, sfit=False, stack=False, x="array", index="range", w="none", fit=False, meth="mse", cls="int"):
        p = dict(kind=kind, k=k, n=n, ops=ops, sfit=sfit, stack=stack, x=x, index=index, w=w, fit=fit, meth=meth, cls=cls)
        out.append(("_".join("%s=%s" % (a, b) for a, b in p.items()).replace("'", "").replace(" ", ""), p))
    big = tier != "quick"
    for kind in ("reg", "cls"):
        for op in ("predict", "rulepredict", "acts", "criterion", "all"): add(kind, 2, 2, [op], fit="loaded"); add(kind, 1, 2, [op], stack=True, x="df", fit="loaded")
        for op in ("predict", "criterion"): add(kind, 2, 2, [op], sfit=True, stack=True, fit="loaded")
    for sfit in (False, True):
        for stack in (False, True):
            for kind in ("reg", "cls"):
                for op in OPS:
                    if big or op == "eval" or stack == sfit: add(kind, 2, 2, [op], sfit, stack)
                add(kind, 1, 3, ["eval"], sfit, stack); add(kind, 2, 3 if big or kind == "reg" else 2, ["eval"], sfit, stack, fit=kind == "cls" and not big); add(kind, 2, 2, ["eval"], sfit, stack, "df", "perm"); add(kind, 1, 1, ["eval"], sfit, stack)
                add(kind, 2, 2, ["eval"], sfit, stack, "df", "text", fit=True); add(kind, 2, 2, ["evalself"], sfit, stack, fit=True)
                add(kind, 2, 2 if big or kind == "reg" else 1, ["eval"], sfit, stack, w="pos"); add(kind, 2, 2, ["eval"], sfit, stack, w="coverage"); add(kind, 2, 1, ["criterion"], sfit, stack, w="pos")
                add(kind, 2, 2, ["eval"], sfit, stack, meth="mae", cls="text")
                for pair in ([["eval", "eval"], ["eval", "predict"], ["predict", "evalself"], ["evalself", "eval"], ["eval", "criterionself"]] if not big else [[a, b] for a in OPS for b in OPS]):
                    if big or stack == sfit or kind == "reg": add(kind, 2, 1, pair, sfit, stack)
                if big:
                    add(kind, 3, 2, ["eval"], sfit, stack); add(kind, 2, 4, ["eval"], sfit, stack); add(kind, 2, 3, ["eval"], sfit, stack, "df", "perm", "pos"); add(kind, 2, 3, ["eval", "eval"], sfit, stack, fit=True)
    return out


def run(env, kind, k, n, ops, sfit, stack, x, index, w, fit, meth, cls):
    L.quiet(env)
    np, pd = env.np, env.pd
    RuleSet = env.ruleset.RuleSet
    reg = kind == "reg"
    R = env.rule.RegressionRule if reg else env.rule.ClassificationRule
    names = [0, 1] if cls == "int" else ["x", "y"]
    lab = lambda nm: env.choice(nm, names)
    m = 3
    ix = IDX[index][:n] if IDX[index] else None
    conds = [L.cond(env, j) for j in range(k)]
    kw = {"criterion_method": meth} if reg else {}
    try:
        RuleSet.STACKED_FIT = sfit
        if fit == "loaded":
            # rules which have their measures but no activation
            rules = [R(c) for c in conds]
            ps = [env.real("p%d" % j) if reg else lab("p%d" % j) for j in range(k)]
            cov = [env.real("cov%d" % j, 0, 1) for j in range(k)]
            for r, p, c in zip(rules, ps, cov):
                r._prediction, r._coverage, r._criterion, r._fitted = p, c, 0.25, True
                if reg: r._std, r._zscore = 1.5, 2.5
            rs = RuleSet(rules, stack_activation=stack)
            rs._coverage, rs.criterion, rs.train_set_size, rs.test_set_size = 0.75, 0.5, 7, 8
            acts = L.choices(env, "a", k, n)
            if not any(b for a in acts for b in a): return
            y = env.reals("y", n) if reg else [lab("y%d" % i) for i in range(n)]
            X, Y = L.data(env, acts, x, ix), np.array(list(y))
            op = ops[0]
            if op in ("predict", "all"): rs.predict(X)
            if op in ("rulepredict", "all"):
                for r in rs: r.predict(X)
            if op in ("acts", "all"): rs.evaluate(X); rs.evaluate_self_activation(X); rs.evaluate_stacked_activations(X); rules[0].evaluate_activation(X)
            if op == "criterion": rs.calc_criterion(Y, X, **kw)
            env.require_eq([(r.prediction, r.coverage, r.criterion, r.std if reg else None, r.zscore if reg else None) for r in rs], [(p, c, 0.25, 1.5 if reg else None, 2.5 if reg else None) for p, c in zip(ps, cov)], "measures of loaded rules after " + op)
            env.require([r.activation_available for r in rs] == [False] * k and [r.activation for r in rs] == [None] * k, "activation of loaded rules after " + op)
            env.require(not rs.activation_available, "activation of a loaded rule set after " + op)
            env.require_eq((rs.ruleset_coverage, rs.train_set_size, rs.test_set_size if op != "criterion" else 8), (0.75, 7, 8), "measures of a loaded rule set after " + op)
            if op != "criterion": env.require_eq(rs.criterion, 0.5, "criterion of a loaded rule set after " + op)
            return
        if fit:
            rules = [R(c) for c in conds]
            rs = RuleSet(rules, stack_activation=stack)
            ytrain = env.reals("yt", m) if reg else [names[0], names[1], names[1]]
            rs.fit(np.array(list(ytrain)), L.data(env, TRAIN[:k]))
            # (what fitting gives is the matter of C10 and C13)
            ps = [r.prediction for r in rs]
        else:
            rules = [R(c, L.act(env, t)) for c, t in zip(conds, TRAIN)]
            ps = [env.real("p%d" % j) if reg else lab("p%d" % j) for j in range(k)]
            for r, p in zip(rules, ps):
                r._prediction, r._fitted = p, True
                if reg: r._std = 1.5
            rs = RuleSet(rules, stack_activation=stack)
            ytrain = env.reals("yt", m) if reg else [names[0], names[1], names[0]]
        train = TRAIN[:k]
        ws = env.reals("w", k) if w == "pos" else None
        if ws:
            for v in ws: env.assume(v > 0)
        def weights():
            if w == "none": return None
            if w == "coverage": return "coverage"
            return pd.Series(list(ws), index=[str(r.condition) for r in rs])
        wv = [1] * k if w == "none" else ws if ws else [env.div(sum(t), m) for t in train]
        def state():
            st = rs.stacked_activations
            return [[(list(r.activation), r.prediction, r.coverage, r.nones, r.std if reg else None) for r in rs], list(rs.activation), rs.ruleset_coverage,
                    None if st is None else (list(st.columns), list(st.index), [st[c].tolist() for c in st.columns]), rs.stack_activation, rs.train_set_size]
        def rule_criterion(j, acts, y):
            on = [i for i in range(len(y)) if acts[j][i]]
            if not on: return env.nan
            if reg: return env.div(env.sum([(ps[j] - y[i]) * (ps[j] - y[i]) if meth == "mse" else env.abs(ps[j] - y[i]) for i in on]), len(on))
            return sum(y[i] == ps[j] for i in on) / len(on)
        def set_prediction(i, acts):
            on = [j for j in range(k) if acts[j][i]]
            if not on: return None
            if reg: return env.div(env.sum([wv[j] * ps[j] for j in on]), env.sum([wv[j] for j in on]))
            tot = {}
            for j in on: tot[ps[j]] = tot.get(ps[j], 0) + wv[j]
            if len(tot) == 1: return list(tot)[0]
            a, b = tot[names[0]], tot[names[1]]
            return names[0] if a > b else names[1] if b > a else None
        def set_criterion(acts, y):
            pr = [set_prediction(i, acts) for i in range(len(y))]
            on = [i for i in range(len(y)) if pr[i] is not None]
            if not on: return env.nan
            if reg: return env.div(env.sum([(pr[i] - y[i]) * (pr[i] - y[i]) if meth == "mse" else env.abs(pr[i] - y[i]) for i in on]), len(on))
            return sum(y[i] == pr[i] for i in on) / len(on)
        base = state()
        if base[3] is None: base3_free = True  # stacked activations may be made on the way, from the training data
        else: base3_free = False
        for t, op in enumerate(ops):
            tag = "t%d" % t
            own = op.endswith("self")
            acts = train if own else L.choices(env, tag + "a", k, n)
            length = m if own else n
            y = (list(ytrain) if own else env.reals(tag + "y", n)) if reg else (list(ytrain) if own else [lab(tag + "y%d" % i) for i in range(n)])
            series = x == "df" and not own
            Y = pd.Series(list(y), index=ix) if series else np.array(list(y))
            X = None if own else L.data(env, acts, x, ix)
            W = weights()
            none = not any(b for a in acts for b in a)
            refused = False
            try:
                if op in ("eval", "evalself"): rs.eval(Y, X, weights=W, **kw) if X is not None else rs.eval(Y, weights=W, **kw)
                elif op in ("criterion", "criterionself"): rs.calc_criterion(Y, X, weights=W, **kw)
                elif op in ("predict", "predictself"): rs.predict(X, W)
                elif op == "acts":
                    union = [1 if any(a[i] for a in acts) else 0 for i in range(n)]
                    env.require_eq(list(rs.evaluate_self_activation(X).raw), union, "activation evaluated on new data")
                    env.require_eq(list(rs.evaluate(X).raw), union, "activation evaluated on new data")
                    sa = rs.evaluate_stacked_activations(X)
                    env.require_eq((list(sa.columns), [sa[c].tolist() for c in sa.columns]), ([str(c) for c in conds], acts), "stacked activations evaluated on new data")
                elif op == "ruleeval":
                    for r in rs: r.eval(Y, X, **kw)
                else:
                    for r in rs: r.predict(X)
            except ValueError:
                if not none: raise
                refused = True
            if op in ("eval", "evalself", "ruleeval") and not refused:
                for j, r in enumerate(rs): env.require_close(r.criterion, rule_criterion(j, acts, y), "criterion of a rule after " + op)
            if op in ("eval", "evalself", "criterion", "criterionself") and not refused:
                want = set_criterion(acts, y)
                env.require_close(rs.criterion, want, "criterion of the rule set after " + op)
            if op in ("eval", "evalself") and not refused: env.require_eq(rs.test_set_size, length, "test set size after " + op)
            now = state()
            if base3_free and now[3] is not None:
                env.require_eq((now[3][0], now[3][2]), ([str(c) for c in conds], train), "stacked activations after " + op)
                now[3] = None
            env.require_eq(len(rs), k, "number of rules after " + op)
            for what, a, b in zip(["rules", "activation of the rule set", "coverage of the rule set", "stacked activations", "stack_activation", "train set size"], now, base):
                env.require_eq(a, b, "%s changed by %s" % (what, op))
            if X is not None:
                val = [[0.5 if b else 5.0 for b in acts[j]] for j in range(k)]
                env.require_eq([X[L.NAMES[j]].tolist() for j in range(k)] if x == "df" else X.T.tolist(), val, "data changed by " + op)
            env.require_eq(Y.tolist(), list(y), "targets changed by " + op)
            if series: env.require_eq((list(Y.index), list(X.index)), (list(ix or range(n)),) * 2, "index of the data changed by " + op)
            if isinstance(W, pd.Series): env.require_eq(W.tolist(), list(ws), "weights changed by " + op)
    finally:
        RuleSet.STACKED_FIT = False
