ID = "C13"
BOUNDS = {"quick": "2 rules over 2 or 3 observations (3 rules over 2, 1 rule over 4), every activation; targets any reals (NaN included in part) or integers among 4 / texts among 3 as classes; array or Series targets with any index, array or data frame features; evaluation on the training data, on other data, keeping the activations or not; each criterion; with and without thresholds; horizons 1 and 2",
          "thorough": "2 rules over 4 observations, 3 rules over 3"}
ASSUMES = "Rules with different conditions. Enough memory and no clash between random file names (C03, C05)."
from . import rslib as L

ATTR = {"reg": ["coverage", "prediction", "std", "sign", "zscore", "train_set_size"], "cls": ["coverage", "prediction", "train_set_size"]}
TEXTS = ["a", "zero", ""]
LIM = {"cov": {"coverage": {"min": 0.5}}, "pred": {"coverage": {"min": 0}, "prediction": {"min": 0}}, "crit": {"coverage": {"min": 0}, "criterion": {"max": 1}}}


def cases(tier):
    out = []
    def add(what, k, n, kind="reg", y="array", x="array", nan=False, ev="self", thr="none", meth="default", horizon=1, index="range"):
        p = dict(what=what, k=k, n=n, kind=kind, y=y, x=x, nan=nan, ev=ev, thr=thr, meth=meth, horizon=horizon, index=index)
        out.append(("_".join("%s=%s" % (a, b) for a, b in p.items()), p))
    q = tier == "quick"
    add("fit", 1, 4); add("fit", 2, 3); add("fit", 3, 2); add("fit", 2, 2, nan=True); add("fit", 1, 3, nan=True); add("fit", 1, 4, y="series", index="perm")
    add("fit", 2, 3, y="series", index="shift"); add("fit", 2, 2, y="series", x="df", index="text"); add("fit", 2, 3, horizon=2); add("fit", 1, 3, nan=True, y="series", index="perm")
    add("refit", 1, 2); add("refit", 2, 2, y="series", index="shift"); add("given", 2, 3); add("given", 1, 3, y="series", index="perm")
    for m in ("default", "mse", "mae", "aae"):
        add("eval", 2, 2, meth=m); add("eval", 1, 3, meth=m, ev="new", y="series", index="perm"); add("eval", 1, 3, meth=m, ev="keep")
    add("eval", 2, 2, ev="new"); add("eval", 2, 2, ev="keep", y="series", index="shift")
    for thr in ("cov", "pred"):
        add("fit", 2, 2, thr=thr); add("eval", 2, 2, thr=thr, meth="mse")
    add("eval", 2, 2, thr="crit", meth="mse"); add("eval", 2, 2, thr="crit", meth="mse", ev="new")
    for kind in ("int", "text"):
        add("fit", 2, 2, kind=kind); add("fit", 1, 3, kind=kind); add("fit", 2, 2, kind=kind, y="series", index="perm"); add("fit", 3, 2, kind=kind) if kind == "int" or not q else None
        add("fit", 1, 3, kind=kind, y="series", x="df", index="text")
        for ev in ("self", "new", "keep"): add("eval", 1, 2, kind=kind, ev=ev); add("eval", 2, 2, kind=kind, ev=ev, y="series", index="shift") if kind == "int" else None
        add("fit", 2, 2, kind=kind, thr="cov")
    add("fit", 2, 3, kind="int")
    if not q:
        add("refit", 1, 3); add("fit", 2, 4); add("fit", 3, 3); add("fit", 1, 5); add("fit", 2, 3, nan=True); add("eval", 2, 3, meth="mse"); add("eval", 2, 3, ev="new"); add("fit", 1, 4, kind="int")
        for thr in ("cov", "pred"): add("fit", 2, 3, thr=thr)
    return out


IDX = {"range": None, "shift": [10, 11, 12, 13, 14], "text": list("abcde"), "perm": [2, 0, 1, 4, 3]}


def known(env, y): return [not bool(env.isnan(v)) for v in y]


def run(env, what, k, n, kind, y, x, nan, ev, thr, meth, horizon, index):
    L.quiet(env)
    reg = kind == "reg"
    if not reg: env.set_canon_strings(True)
    RuleSet = env.ruleset.RuleSet
    R = env.rule.RegressionRule if reg else env.rule.ClassificationRule
    acts = L.choices(env, "a", k, n)
    def targets(name, m):
        if reg: return [env.nan if nan and env.choice("%snan%d" % (name, i), [False, True]) else env.real("%s%d" % (name, i)) for i in range(m)]
        few = what == "eval" or k * n > 4
        if kind == "int": return [env.int("%s%d" % (name, i), 0 if few and i else -1, 2 if not few else 1) for i in range(m)]
        return [env.choice("%s%d" % (name, i), TEXTS if not few or not i else TEXTS[1:]) for i in range(m)]
    yy = targets("y", n)
    ok = known(env, yy)
    ix = IDX[index][:n] if IDX[index] else None
    enough = [sum(1 for a, v in zip(acts[j], ok) if a and v) >= 2 for j in range(k)]
    if thr != "none": env.rule.Rule.SET_THRESHOLDS(L.limits(env, LIM[thr]))
    kw = {} if horizon == 1 else dict(horizon=horizon)
    ekw = {} if meth == "default" or not reg else dict(criterion_method=meth)
    def same(a, b, j, when):
        for at in ATTR["reg" if reg else "cls"]:
            env.require_close(getattr(a, at), getattr(b, at), "%s %s" % (at, when))
    sets = {}
    try:
        for stacked in (False, True):
            RuleSet.STACKED_FIT = stacked
            X = L.data(env, acts, x, ix)
            rules = [R(L.cond(env, j)) for j in range(k)]
            if what == "given":
                rules = [R(L.cond(env, j), L.act(env, acts[j])) for j in range(k)]
                X = None
            rs = RuleSet(list(rules))
            rs.rule_type = R
            if what == "refit":
                rs.fit(env.np.array(env.reals("w", n)), L.data(env, [[1] * n for _ in range(k)]))
            rs.fit(L.target(env, yy, y, ix), X, **kw)
            sets[stacked] = (rs, rules)
        (r0, l0), (r1, l1) = sets[False], sets[True]
        env.require_eq([l0.index(r) for r in r0], [l1.index(r) for r in r1], "rules kept")
        for r in r0:
            j = l0.index(r)
            if enough[j]: same(l0[j], l1[j], j, "after a stacked fit")
        if what != "eval": return
        # evaluation
        m = n if ev == "self" else 2
        acts2 = acts if ev == "self" else L.choices(env, "b", k, m) if k * n <= 3 else [[1, env.choice("b%d" % j, [0, 1])] for j in range(k)]
        y2 = yy if ev == "self" else targets("t", m)
        if not any(any(a) for a in acts2): return  # nothing to evaluate: may be refused
        ix2 = ix if ev == "self" else [7, 3, 5][:m] if y == "series" else None
        for stacked in (False, True):
            RuleSet.STACKED_FIT = stacked
            rs = sets[stacked][0]
            if ev == "self": rs.eval(L.target(env, y2, y, ix2), **ekw)
            else: rs.eval(L.target(env, y2, y, ix2), L.data(env, acts2), keep_new_activations=ev == "keep", **ekw)
        env.require_eq([l0.index(r) for r in r0], [l1.index(r) for r in r1], "rules kept after evaluation")
        for r in r0:
            j = l0.index(r)
            if not enough[j]: continue
            env.require_close(l0[j].criterion, l1[j].criterion, "criterion after a stacked evaluation")
            for at in ("prediction", "coverage"): env.require_close(getattr(l0[j], at), getattr(l1[j], at), at + " after a stacked evaluation")
    finally:
        RuleSet.STACKED_FIT = False
        env.rule.Rule.THRESHOLDS = None
