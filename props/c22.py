ID = "C22"
BOUNDS = {"quick": "every history of 2 operations among 12 (append, +=, + of a rule or rule set, slices, sorts, replacing the rules, fitting, evaluating, dropping bad rules when fitting or evaluating, saving and loading) from a set of 1 to 3 rules (some with the same condition) on one to three features out of four, any activation bits deciding what is dropped over 2 observations, stacked fit or not; any numbering of the features out of 6 in the configured table; adding rules of another kind or no rules; replacing the rules by rules of either kind or none",
          "thorough": "histories of 3 operations"}
ASSUMES = "Each feature name has one index. Rules with different conditions, which have an activation. Enough memory and no clash between random file names (C03, C05)."
MAX_PATHS = {"quick": 40000, "thorough": 400000}
import itertools
from . import rslib as L
IND = {"A": 2, "B": 0, "AB": 3, "D": 1}
SETS = [["A"], ["A", "B"], ["D", "AB", "B"], ["B"], ["AB"], ["D"], ["B", "D"], ["A"]]
OPS = ["append", "iadd", "iaddset", "add", "addset", "tail", "rev", "sort", "sortcov", "setrules", "fit", "eval", "fitdrop", "evaldrop", "load"]
LATER = ["append", "iaddset", "addset", "tail", "sort", "setrules", "fitdrop", "evaldrop", "load"]
LIM = {"coverage": {"min": 0.75}}


def cases(tier):
    out = []
    def add(what, k=2, steps=1, sfit=False, kind="reg", first=None, stack=False):
        p = dict(what=what, k=k, steps=steps, sfit=sfit, kind=kind, first=first, stack=stack)
        out.append(("_".join("%s=%s" % (a, b) for a, b in p.items()), p))
    for sfit in (False, True):
        for f in OPS: add("history", 2, 2 if tier == "quick" else 3, sfit, first=f, stack=sfit)
        for k in (1, 3): add("history", k, 1, sfit); add("history", k, 1, sfit, "cls", stack=True)
        if tier != "quick":
            for f in OPS: add("history", 3, 2, sfit, first=f)
    for kind in ("reg", "cls"):
        for k in (1, 2, 3): add("twins", k, 1 if tier == "quick" else 2, kind=kind)
    for k in (1, 2, 3): add("table", k); add("table", k, kind="cls")
    for kind in ("reg", "cls"):
        for k in (0, 1, 2): add("type", k, kind=kind); add("type", k, kind=kind, stack=True)
        for k in (0, 1, 2):
            for stack in (False, True): add("retype", k, kind=kind, stack=stack)
    return out


def run(env, what, k, steps, sfit, kind, first, stack):
    L.quiet(env)
    np = env.np
    RuleSet = env.ruleset.RuleSet
    Reg, Cls = env.rule.RegressionRule, env.rule.ClassificationRule
    R = Reg if kind == "reg" else Cls
    H = env.condition.HyperrectangleCondition
    used = [0]
    feats = {}       # id of a rule's condition text -> features
    def new(tag, cls=R, symbolic=False):
        j = used[0]
        used[0] += 1
        i = j // 2 if what == "twins" else j      # twins have the same condition and different predictions
        fs = SETS[i % len(SETS)]
        c = H([IND[f] for f in fs], bmins=[0.0] * len(fs), bmaxs=[1.0 + i] * len(fs), features_names=list(fs))
        r = cls(c, L.act(env, [env.bit("b%s%d_%d" % (tag, j, i)) for i in range(2)] if symbolic else [1, j % 2]))
        feats[str(c)] = fs
        r._prediction, r._fitted = (1.0 + j if cls is Reg else 1 + j if what == "twins" else 1), True
        r._coverage = 0.5
        return r
    def check(rs, when, table=IND):
        held = [feats[str(r.condition)] for r in rs]
        all_ = sorted(set(itertools.chain(*held)))
        env.require_eq(sorted(rs.features_names), all_, "features of the rule set after " + when)
        env.require_eq(sorted(rs.features_indexes), sorted(table[f] for f in all_), "features indexes of the rule set after " + when)
        count = rs.get_features_count()
        env.require_eq(sorted((f, n) for f, n in count), sorted((f, sum(f in h for h in held)) for f in all_), "features count after " + when)
        env.require_eq([n for _, n in count], sorted([n for _, n in count], reverse=True), "features count is by decreasing number after " + when)
        for r, h in zip(rs, held):
            env.require_eq(sorted(r.features_names), sorted(h), "features of a rule after " + when)
            env.require_eq([table[f] for f in r.features_names], list(r.features_indexes), "features indexes of a rule after " + when)
    if what == "retype":
        # rules replaced by some of either kind, or by none
        O = Cls if R is Reg else Reg
        rs = RuleSet([new("") for _ in range(k)], stack_activation=stack)
        N = env.choice("kind", [R, O])
        m = env.choice("m", [0, 1, 2])
        rules = [new("n", N) for _ in range(m)]
        rs.rules = rules if m else env.choice("none", [[], None])
        env.require_eq([id(r) for r in rs] == [id(r) for r in rules], True, "rules after replacing them")
        def pred():
            p = rs.predict()
            env.require_eq(len(list(p)), 2, "predictions after replacing the rules")
            for i, v in enumerate(list(p)):
                on = [r for r in rs if list(r.activation)[i]]
                if on and N is Reg: env.require_close(v, env.div(sum(r._prediction for r in on), len(on)), "prediction after replacing the rules")
                elif on: env.require_eq(v, 1, "class predicted after replacing the rules")
        if m:
            env.require(rs.rule_type is N, "type of the new rules")
            check(rs, "replacing the rules")
            pred()
            bad = new("b", R if N is O else O)
            env.require(env.raises(TypeError, rs.append, bad), "a rule of another kind than the new ones is refused")
            env.require(env.raises(TypeError, lambda: rs + RuleSet([bad])), "rules of another kind than the new ones are refused")
            env.require_eq([id(r) for r in rs] == [id(r) for r in rules], True, "rules after refusing one")
            more = new("m", N)
        else:
            env.require(env.raises(ValueError, lambda: rs.rule_type), "type of no rules, once replaced")
            more = new("m", N)
        rs.append(more)
        env.require(rs.rule_type is N, "type of the rules after append")
        env.require_eq([id(r) for r in rs] == [id(r) for r in rules + [more]], True, "rules after append")
        check(rs, "append")
        return pred()
    if what == "type":
        O = Cls if R is Reg else Reg
        rules = [new("") for _ in range(k)]
        rs = RuleSet(rules, stack_activation=stack)
        env.require_eq([id(r) for r in rs] == [id(r) for r in rules], True, "rules after creation")
        if k: env.require(rs.rule_type is R, "type of the rules")
        else: env.require(env.raises(ValueError, lambda: rs.rule_type), "type of no rules")
        def unchanged(when):
            env.require_eq([id(r) for r in rs] == [id(r) for r in rules], True, "rules after " + when)
            if k: check(rs, when)
        bad = new("o", O)
        if k:
            env.require(env.raises(TypeError, rs.append, bad), "a rule of another kind is refused")
            unchanged("refusing a rule of another kind")
            env.require(env.raises(TypeError, lambda: rs.__iadd__(RuleSet([bad]))), "rules of another kind are refused")
            unchanged("refusing rules of another kind")
            env.require(env.raises(TypeError, lambda: rs + bad), "the sum with a rule of another kind is refused")
            unchanged("refusing a sum")
            env.require(env.raises(TypeError, lambda: RuleSet(rules + [bad])), "a set of rules of two kinds is refused")
        for x in ("text", 1, None, [new("l")]):
            env.require(env.raises(TypeError, rs.append, x), "what is not a rule is refused")
            unchanged("refusing what is not a rule")
        env.require(env.raises(TypeError, lambda: RuleSet(rules + ["text"])), "a set of something else than rules is refused")
        how = env.choice("how", ["append", "iadd", "iaddset", "iaddset2", "add", "addset", "addto", "iaddnone", "addnone"])
        more = [new("m") for _ in range(2 if how == "iaddset2" else 0 if how.endswith("none") else 1)]
        if how == "append": rs.append(more[0])
        elif how == "iadd": rs += more[0]
        elif how.startswith("iadd"): rs += RuleSet(more)
        elif how == "add": rs = rs + more[0]
        elif how == "addto": rs = RuleSet(more) + rs
        else: rs = rs + RuleSet(more)
        rules = more + rules if how == "addto" else rules + more
        k = len(rules)
        if how.startswith("add"): env.require_eq(sorted(map(id, rs)) == sorted(map(id, rules)), True, "rules of a sum")
        else: unchanged(how)
        if k:
            check(rs, how)
            env.require(rs.rule_type is R, "type of the rules after " + how)
            env.require(env.raises(TypeError, rs.append, bad), "a rule of another kind is refused after " + how)
            env.require_eq(len(rs), k, "number of rules after refusing one")
            env.require_eq(len(list(rs.predict())), 2, "predictions after " + how)
        else: env.require(env.raises(ValueError, lambda: rs.rule_type), "type of no rules after " + how)
        return
    try:
        RuleSet.STACKED_FIT = sfit
        if what == "table":
            perm = env.choice("table", [dict(zip(sorted(IND), p)) for p in list(itertools.permutations(range(4)))[::4]])
            RuleSet.all_features_indexes = dict(perm)
            rs = RuleSet([new("") for _ in range(k)])
            check(rs, "creation with a table of features", perm)
            x = [[env.real("x%d_%d" % (i, f), -1, 6) for f in range(4)] for i in range(1)]
            for j, r in enumerate(rs):
                want = [env.ite(env.and_(*[env.and_(x[i][perm[f]] >= 0, x[i][perm[f]] <= 1.0 + j) for f in feats[str(r.condition)]]), 1, 0) for i in range(1)]
                env.require_eq(list(r.evaluate_activation(np.array(x)).raw), want, "activation with a table of features")
            rs.rules = [rs[0], new("")]
            check(rs, "replacing the rules with a table of features", perm)
            check(rs[1:], "slicing with a table of features", perm)
            check(rs + new(""), "adding with a table of features", perm)
            return
        drop = first and first.endswith("drop")
        rs = RuleSet([new("", symbolic=True) for _ in range(k)], stack_activation=stack)
        check(rs, "creation")
        y = np.array([1.0, 2.0]) if kind == "reg" else np.array([0, 1])
        for t in range(steps):
            op = first if first and t == 0 else env.choice("op%d" % t, [o for o in OPS if "fit" not in o and "eval" not in o] if what == "twins" else OPS if steps == 1 else LATER)
            if not len(rs): return
            tag = "t%d" % t
            if op == "append": rs.append(new(tag))
            elif op == "iadd": rs += new(tag)
            elif op == "iaddset": rs += RuleSet([new(tag), new(tag)], stack_activation=stack)
            elif op == "add":
                old = rs
                rs = rs + new(tag)
                check(old, "being added to")
            elif op == "addset": rs = rs + RuleSet([new(tag), new(tag)])
            elif op == "tail": rs = rs[1:]
            elif op == "rev": rs = rs[::-1]
            elif op == "sort": rs.sort()
            elif op == "sortcov": rs.sort("coverage")
            elif op == "setrules": rs.rules = [rs[-1], new(tag)]
            elif op == "load":
                env.set_canon_strings(True)
                p = env.Path(env.tmpdir) / ("saved%d.csv" % t)
                for r in rs: r._std, r._zscore, r._criterion, r._sign = 1.0, 1.0, 1.0, "+"
                rs.criterion, rs.train_set_size, rs.test_set_size = 1.0, 2, 2
                rs.save(p)
                old = rs
                rs = RuleSet()
                rs.load(p)
                check(rs, "loading")
                check(old, "saving")
                return
            else:
                # activated as the rules' own activations say
                for r in rs: r._fitted = not op.startswith("fit")
                if op.endswith("drop"): env.rule.Rule.SET_THRESHOLDS(L.limits(env, LIM))
                if op.startswith("fit"): rs.fit(y)
                else:
                    env.assume(env.or_(*[b == 1 for r in rs for b in list(r.activation)]))
                    if op.endswith("drop"): env.assume(env.or_(*[env.and_(*[b == 1 for b in list(r.activation)]) for r in rs]))
                    rs.eval(y)
                env.rule.Rule.THRESHOLDS = None
            check(rs, op)
    finally:
        RuleSet.STACKED_FIT = False
        RuleSet.all_features_indexes = {}
        env.rule.Rule.THRESHOLDS = None
