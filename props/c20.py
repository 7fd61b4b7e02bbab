ID = "C20"
BOUNDS = {"quick": "sets of 1 to 4 rules on one, two or three features out of four (in either order), any bounds and predictions (missing ones included), any activation bits over 2 observations; default sort, sort by prediction, criterion, deviation, coverage, number of activated observations or a class, in both orders, with stacked activations in part; equality, membership and duplicates between sets of up to 3 rules, names or indexes compared, class predictions included",
          "thorough": "sets of up to 5 rules for sorting, 4 for equality, membership and duplicates"}
ASSUMES = "Feature names made of letters, digits and underscores, each with one index. Bounds of the same type (floats). Sort keys have no NaN."
MAX_PATHS = {"quick": 40000, "thorough": 400000}
from . import rslib as L
FEATS = [["A"], ["B"], ["A", "B"], ["B", "A"], ["C"], ["AB"]]
IND = {"A": 0, "B": 1, "C": 2, "AB": 3}
# lower bound, upper bound, prediction: told apart only by their last digits
DIGITS = [(1.0, 2.0, 3.0), (1.0000000001, 2.0, 3.0), (1.0, 2.0000000001, 3.0), (1.0, 2.0, 3.0000000001), (1.0, 2.0, 123456789.125), (1.0, 2.0, 123456789.25), (1e-7, 2.0, 1e-7), (2e-7, 2.0, 1e-7), (1e-7, 2.0, 2e-7)]
KEYS = ["prediction", "criterion", "std", "coverage", "nones"]


def cases(tier):
    out = []
    def add(what, k, key=None, rev=False, stack=False, feats="mix", kind="reg", m=None):
        p = dict(what=what, k=k, key=key, rev=rev, stack=stack, feats=feats, kind=kind, m=m)
        out.append(("_".join("%s=%s" % (a, b) for a, b in p.items()), p))
    big = tier != "quick"
    for rev in (False, True):
        for k in (1, 2, 3): add("default", k, rev=rev, feats="names")
        add("default", 4, rev=rev, feats="names4")
        add("default", 2, rev=rev); add("default", 3, rev=rev, feats="same"); add("default", 2, rev=rev, feats="same2"); add("default", 2, rev=rev, stack=True, feats="few")
        add("default", 3, rev=rev, feats="half"); add("default", 2, rev=rev, feats="three")
        for key in KEYS: add("key", 2, key, rev); add("key", 3, key, rev, stack=True, feats="same")
        add("key", 2, "prediction", rev, kind="cls"); add("key", 3, "prediction", rev, kind="cls", feats="same")
        add("key", 4, "criterion", rev, feats="same")
        if big: add("default", 4, rev=rev, feats="same"); add("default", 3, rev=rev, feats="same2"); add("default", 3, rev=rev); add("key", 5, "criterion", rev, feats="same"); add("key", 4, "coverage", rev, feats="key")
    add("badkey", 2); add("eq", 1, m=1, feats="three"); add("in", 1, feats="three")
    for w in ("dup", "dupset", "dupindex"): add(w, 2, feats="three")
    for w in ("in", "dup", "dupset", "dupindex"): add(w, 1 if w == "in" else 2, feats="digits")
    add("eq", 1, m=1, feats="digits"); add("default", 2, feats="digits")
    for k, m in [(1, 1), (2, 1), (1, 2), (2, 2)] + [(3, 2), (2, 3), (0, 1), (1, 0), (0, 0)]: add("eq", k, m=m, feats="same")
    add("eq", 1, m=1); add("eq", 2, m=2, feats="two"); add("eq", 1, m=1, feats="renum"); add("eq", 2, m=1, feats="renum")
    if big: add("eq", 2, m=2, feats="few"); add("eq", 3, m=3, feats="same")
    for kind in ("reg", "cls"):
        add("in", 0, feats="same", kind=kind); add("in", 1, feats="same", kind=kind); add("in", 1, feats="few", kind=kind)
        for k in (2, 3): add("in", k, feats="one", kind=kind)
        add("in", 2, feats="half", kind=kind)
        for w in ("dup", "dupset", "dupindex"):
            add(w, 1, feats="few", kind=kind); add(w, 2, feats="same", kind=kind); add(w, 2, feats="few", kind=kind); add(w, 3, feats="one", kind=kind)
        add("dupset", 0, feats="same", kind=kind)
        if big:
            add("in", 2, feats="same", kind=kind); add("in", 3, feats="half", kind=kind)
            for w in ("dup", "dupset", "dupindex"): add(w, 4, feats="one", kind=kind); add(w, 3, feats="same", kind=kind); add(w, 2, kind=kind)
    return out


def run(env, what, k, key, rev, stack, feats, kind, m):
    L.quiet(env)
    env.set_canon_strings(True)
    np = env.np
    RuleSet = env.ruleset.RuleSet
    R = env.rule.RegressionRule if kind == "reg" else env.rule.ClassificationRule
    H = env.condition.HyperrectangleCondition
    # in larger sets, lower bounds, upper bounds and predictions come from different ranges
    apart = (k >= 2 or feats != "same") and what in ("in", "dup", "dupset", "dupindex") or stack or what == "eq" and k + m > 3
    rng = lambda q: [(-100, -1), (1, 100), (1000, 2000)][q] if apart else ()
    def rule(t, i, act=True):
        """the rule, and (features sorted by index, lower bounds, upper bounds, prediction)"""
        fs = {"same": [["A"]], "same2": [["A", "B"], ["B", "A"]], "three": [["B", "A", "C"]], "two": [["A"], ["B"]], "names": [["A"], ["B"], ["A", "B"], ["AB"]], "names4": [["A"], ["B"], ["A", "B"]],
              "half": [["A"], ["B"]], "one": [["A"]], "key": [["A"], ["B", "C"]], "few": [["A"], ["B", "C"], ["C", "B"]], "digits": [["A"]], "renum": [["A", "B"]], "mix": FEATS}[feats]
        fs = env.choice("f%s%d" % (t, i), fs) if len(fs) > 1 else fs[0]
        if feats in ("names", "names4"): lo, hi = [0.25 * ((i * 3) % 4) for f in fs], [1.0 + i % 2 for f in fs]
        elif feats == "digits":
            lo, hi, dp = env.choice("d%s%d" % (t, i), DIGITS)
            lo, hi = [lo], [hi]
        elif what == "key": lo, hi = [float(i) for f in fs], [5.0 for f in fs]
        elif feats in ("half", "one") or what in ("in", "dup", "dupset", "dupindex") and len(fs) > 1: lo, hi = env.reals("lo%s%d" % (t, i), len(fs), *rng(0)), [9.0] * len(fs)
        else: lo, hi = env.reals("lo%s%d" % (t, i), len(fs), *rng(0)), env.reals("hi%s%d" % (t, i), len(fs), *rng(1))
        # equal conditions may number their features differently
        num = env.choice("num%s" % t, [IND, {"A": 1, "B": 0}]) if feats == "renum" else IND
        c = H([num[f] for f in fs], bmins=list(lo), bmaxs=list(hi), features_names=list(fs))
        r = R(c, L.act(env, [env.bit("b%s%d_%d" % (t, i, j)) for j in range(2)] if key in ("coverage", "nones") else [1, i % 2])) if act else R(c)
        p = None
        if kind == "cls": p = env.choice("p%s%d" % (t, i), ["x", "y"] if what == "key" else [1, 2, None])
        elif feats == "digits": p = dp
        elif what == "key" or what in ("default",): p = env.real("p%s%d" % (t, i))
        elif what != "eq": p = None if env.choice("none%s%d" % (t, i), [False, True]) else env.real("p%s%d" % (t, i), *rng(2))
        r._prediction, r._fitted = p, p is not None
        if kind == "reg" and what == "key": r._criterion, r._std = env.real("c%s%d" % (t, i)) if key == "criterion" else 1.0, env.real("s%s%d" % (t, i)) if key == "std" else 1.0
        o = sorted(range(len(fs)), key=lambda q: IND[fs[q]])
        return r, ([fs[q] for q in o], [lo[q] for q in o], [hi[q] for q in o], p)
    def same(a, b, pred=True):
        """a condition on the solver's values"""
        if a[0] != b[0] or (pred and (a[3] is None) != (b[3] is None)): return False
        return env.and_(*[x == y for x, y in zip(a[1] + a[2], b[1] + b[2])], True if not pred or a[3] is None else a[3] == b[3])
    if what in ("default", "key", "badkey"):
        made = [rule("", i) for i in range(k)]
        if stack or key == "coverage":
            # stacked activations need different conditions
            for i in range(k):
                for j in range(i): env.assume(env.not_(same(made[i][1], made[j][1], False)))
        rs = RuleSet([r for r, _ in made], stack_activation=stack)
        if what == "badkey":
            env.require(env.raises(ValueError, rs.sort, "no_such_thing"), "sorting by an attribute rules do not have is refused with ValueError")
            env.require([id(r) for r in rs] == [id(r) for r, _ in made], "rules changed by a refused sort")
            return
        before = [id(r) for r in rs]
        union, acts = list(rs.activation), {id(r): list(r.activation) for r in rs}
        if what == "default": rs.sort(reverse=rev) if rev else rs.sort()
        else: rs.sort(key, reverse=rev)
        env.require(sorted(id(r) for r in rs) == sorted(before), "rules held after a sort")
        pos = [before.index(id(r)) for r in rs]
        for i, r in zip(pos, rs):
            fs, lo, hi, p = made[i][1]
            env.require_eq((list(r.features_names), list(r.bmins), list(r.bmaxs), list(r.features_indexes)), (fs, lo, hi, [IND[f] for f in fs]), "condition of a rule after a sort")
            env.require_eq(r.prediction, p, "prediction of a rule after a sort")
            env.require_eq(list(r.activation), acts[id(r)], "activation of a rule after a sort")
        env.require_eq(list(rs.activation), union, "activation of the rule set after a sort")
        if stack:
            env.require_eq([list(rs.stacked_activations[c].tolist()) for c in rs.stacked_activations.columns], [acts[id(r)] for r in rs], "stacked activations after a sort")
        for a, b in zip(pos, pos[1:]):
            if what == "key":
                u, v = [dict(prediction=lambda r: r.prediction, criterion=lambda r: r._criterion, std=lambda r: r._std, coverage=lambda r: env.sum(acts[id(r)]), nones=lambda r: env.sum(acts[id(r)]))[key](made[q][0]) for q in (a, b)]
                env.require(u >= v if rev else u <= v, "order by %s" % key)
            else:
                (f, lo, hi, _), (g, lo2, hi2, _) = made[a][1], made[b][1]
                env.require(len(f) <= len(g), "rules on fewer features come first")
                if len(f) == len(g):
                    env.require(f >= g if rev else f <= g, "order of the features names")
                    if f == g:
                        x, y = lo + hi, lo2 + hi2
                        env.require(env.or_(*[env.and_(*[x[q] == y[q] for q in range(t)], x[t] < y[t]) for t in range(len(x))], env.and_(*[s == t for s, t in zip(x, y)])), "order of the bounds")
        return
    if what == "eq":
        a, b = [rule("", i) for i in range(k)], [rule("o", i) for i in range(m)]
        ra, rb = RuleSet([r for r, _ in a]), RuleSet([r for r, _ in b])
        want = env.and_(*[env.or_(*[same(x[1], y[1], False) for y in b], False) for x in a], *[env.or_(*[same(x[1], y[1], False) for y in a], False) for x in b], True)
        got = ra == rb
        env.require(env.not_(want) if not got else want, "two rule sets are equal exactly when they hold the same conditions")
        if got: env.require(hash(ra) == hash(rb), "equal rule sets have equal hashes")
        got = ra != rb
        env.require(want if not got else env.not_(want), "two rule sets differ exactly when they are not equal")
        return
    if what == "in":
        a, b = [rule("", i) for i in range(k)], rule("o", 0)
        rs = RuleSet([r for r, _ in a])
        want = env.or_(*[same(x[1], b[1]) for x in a], False)
        got = b[0] in rs
        env.require(want if got else env.not_(want), "membership is having a rule of the same condition and prediction")
        return
    a = [rule("", i) for i in range(k)]
    want = env.or_(*[same(a[i][1], a[j][1]) for i in range(k) for j in range(i)], False)
    rules = [r for r, _ in a]
    try:
        RuleSet.CHECK_DUPLICATED = what == "dupset"
        if what == "dupset": e = env.raises(ValueError, lambda: RuleSet(rules))
        elif what == "dup": e = env.raises(ValueError, lambda: RuleSet.check_duplicated_rules(rules, name_or_index="name"))
        else: e = env.raises(ValueError, lambda: RuleSet.check_duplicated_rules(rules))
    finally: RuleSet.CHECK_DUPLICATED = False
    env.require(want if e else env.not_(want), "rules are refused exactly when one is there twice")
