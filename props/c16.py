ID = "C16"
BOUNDS = {"quick": "every history of an operation among 18 and one among 10 (append, += rule, += rule set, + rule, + rule set, slices, sorts, replacing the rules, fitting, evaluating on new data keeping the activations or not, dropping bad rules when fitting or evaluating, predicting) from a set of 1 to 3 rules over 2 observations, any activation bits (of one rule in histories of more than one operation, of two out of three otherwise, the others having fixed ones), stacked activations kept, stacked fit or not; of 2 operations among 8 when stacked activations are not kept; histories of 1 over 3 observations; creating a set and computing its activations when memory runs out while they are put together",
          "thorough": "also histories of 1 over 4 observations; every history of 3 operations among 18; of 2 over 3 observations"}
ASSUMES = "Rules with different conditions, which all have an activation. Enough memory but where stated and no clash between random file names (C03, C05)."
MAX_PATHS = {"quick": 40000, "thorough": 400000}
from . import rslib as L
OPS = ["append", "iadd", "iaddset", "add", "addset", "tail", "rev", "front", "sort", "sortrev", "sortcov", "setrules", "fit", "evalkeep", "evalother", "fitdrop", "evaldrop", "predict"]
LATER = ["append", "iaddset", "tail", "rev", "sort", "setrules", "fit", "evalkeep", "fitdrop", "evaldrop"]
CORE = ["append", "iaddset", "tail", "rev", "sort", "fit", "evalkeep", "fitdrop"]
LIM = {"coverage": {"min": 0.75}}


def cases(tier):
    out = []
    def add(k, n, steps, ops, stack, sfit, kind="reg", given=True, first=None):
        p = dict(k=k, n=n, steps=steps, ops=ops, stack=stack, sfit=sfit, kind=kind, given=given, first=first)
        out.append(("_".join("%s=%s" % (a, b) for a, b in p.items()), p))
    for stack in (False, True):
        for sfit in (False, True):
            add(2, 3 if tier == "quick" else 4, 1, "all", stack, sfit)
            if stack or tier != "quick":
                for f in OPS: add(2, 2, 2, "later" if tier == "quick" else "all", stack, sfit, first=f)
            add(3, 2, 1, "all", stack, sfit); add(1, 2, 1, "all", stack, sfit)
            add(2, 2, 1, "all", stack, sfit, "cls"); add(2, 2, 1 if tier == "quick" else 2, "core", stack, sfit, given=False) if stack == sfit else None
            if not stack and tier == "quick": add(2, 2, 2, "core", stack, sfit)
            if sfit == stack and tier != "quick": add(2, 2, 3, "core", stack, sfit)
            if tier != "quick":
                for f in OPS: add(2, 2, 3, "all", stack, sfit, first=f); add(2, 3, 2, "all", stack, sfit, first=f); add(3, 2, 2, "all", stack, sfit, first=f)
    for k in (2, 3): add(k, 2, 0, "all", False, False, first="nomem")
    return out


def run(env, k, n, steps, ops, stack, sfit, kind, given, first):
    L.quiet(env)
    np = env.np
    RuleSet = env.ruleset.RuleSet
    R = env.rule.RegressionRule if kind == "reg" else env.rule.ClassificationRule
    names = {}   # str(condition) -> feature
    cur = {}     # feature -> bits
    used = [0]
    def bits(tag, j):
        if j >= (1 if steps > 1 or not given else 2 if k == 3 else 9): return [(i + j + sum(map(ord, tag))) % 2 for i in range(n)]
        return [env.bit("%s_%d" % (tag, i)) for i in range(n)]
    def new(tag, with_act=True):
        j = used[0]
        used[0] += 1
        c = L.cond(env, j % 5, 0.0, 1.0 + j)
        names[str(c)] = j
        cur[j] = bits("b%d%s" % (j, tag), j)
        r = R(c, L.act(env, cur[j])) if with_act else R(c)
        return r
    def X(tag):
        """new data: fresh activation bits for every rule of the set"""
        fresh = {}
        for j in range(used[0]): fresh[j] = bits("%s_%d" % (tag, j), j)
        # rules 5 apart share a feature (not reached within the bounds)
        d = np.array([[env.ite(fresh[j][i] == 1, 0.5, 50.0) for j in range(min(5, used[0]))] for i in range(n)])
        return fresh, d
    y = np.array([float(i * i + 1) for i in range(n)]) if kind == "reg" else np.array([i % 2 for i in range(n)])
    def check(rs, order, when):
        got = [names[str(r.condition)] for r in rs]
        if order is not None: env.require_eq(got, order, "rules held after " + when)
        if not got: return
        for r, j in zip(rs, got): env.require_eq(list(r.activation), cur[j], "activation of a rule after " + when)
        union = [env.ite(env.or_(*[cur[j][i] == 1 for j in got], False), 1, 0) for i in range(n)]
        env.require(rs.activation is not None, "no activation after " + when)
        env.require_eq(list(rs.activation), union, "activation of the rule set after " + when)
        env.require_close(rs.ruleset_coverage, env.div(env.sum(union), n), "coverage of the rule set after " + when)
        st = rs.stacked_activations
        env.require(bool(rs.stacked_activations_available) == (st is not None), "availability of the stacked activations after " + when)
        if rs.stack_activation and stack: env.require(st is not None, "stacked activations lost after " + when)
        if st is not None:
            env.require_eq([names.get(c, c) for c in st.columns], got, "columns of the stacked activations after " + when)
            env.require_eq([st[c].tolist() for c in st.columns], [cur[j] for j in got], "stacked activations after " + when)
            env.require_eq(list(st.index), list(range(n)), "index of the stacked activations after " + when)
    try:
        RuleSet.STACKED_FIT = sfit
        rules = [new("", given) for _ in range(k)]
        order = list(range(k))
        if first == "nomem":       # memory runs out while the activations are put together
            with env.failing_stack(1): rs = RuleSet(rules)
            check(rs, order, "creation with little memory")
            fresh, d = X("low")
            with env.failing_stack(1): rs.calc_activation(d)
            cur.update(fresh)
            return check(rs, order, "computing the activations with little memory")
        env.require(not RuleSet(stack_activation=stack).stacked_activations_available, "stacked activations of no rules")
        rs = RuleSet(rules, stack_activation=stack)
        if not given:
            fresh, d = X("first")
            rs.fit(y, d)
            cur.update(fresh)
            check(rs, order, "fit")
        else: check(rs, order, "creation")
        menu = dict(all=OPS, later=LATER, core=CORE)[ops]
        for t in range(steps):
            op = first if first and t == 0 else env.choice("op%d" % t, menu)
            if not len(rs): return
            tag = "t%d" % t
            if op == "append": rs.append(new(tag)); order = order + [used[0] - 1]
            elif op == "iadd": rs += new(tag); order = order + [used[0] - 1]
            elif op == "iaddset":
                more = RuleSet([new(tag), new(tag)], stack_activation=env.choice("ostack%d" % t, [stack, not stack]))
                rs += more
                order = order + [used[0] - 2, used[0] - 1]
                check(more, [used[0] - 2, used[0] - 1], "being added")
            elif op == "add":
                old = rs
                rs = rs + new(tag)
                check(old, order, "adding")
                order = order + [used[0] - 1]
            elif op == "addset":
                rs = rs + RuleSet([new(tag), new(tag)], stack_activation=stack)
                env.require_eq(sorted(names[str(r.condition)] for r in rs), sorted(order + [used[0] - 2, used[0] - 1]), "rules of a sum")
                order = None
            elif op == "tail": rs = rs[1:]; order = order[1:] if order else None
            elif op == "rev": rs = rs[::-1]; order = order[::-1] if order else None
            elif op == "front": rs = rs[:2]; order = order[:2] if order else None
            elif op == "sort": rs.sort(); order = None
            elif op == "sortrev": rs.sort(reverse=True); order = None
            elif op == "sortcov": rs.sort("coverage"); order = None
            elif op == "setrules":
                rl = [rs[-1], new(tag)]
                rs.rules = rl
                order = [names[str(r.condition)] for r in rl]
            elif op in ("fit", "evalkeep", "evalother", "fitdrop", "evaldrop", "predict"):
                if op in ("evalother", "predict", "evaldrop"):
                    for r in rs: r._prediction, r._fitted = (1.0 if kind == "reg" else 0), True
                elif op == "evalkeep":
                    for r in rs: r._prediction, r._fitted = (1.0 if kind == "reg" else 0), True
                else:
                    for r in rs: r._fitted = False
                fresh, d = X(tag)
                drop = op.endswith("drop")
                if drop: env.rule.Rule.SET_THRESHOLDS(L.limits(env, LIM))
                if op.startswith("fit"):
                    rs.fit(y, d)
                    cur.update(fresh)
                elif op == "predict":
                    try: rs.predict(d)
                    except ValueError: pass  # nothing activated
                else:
                    keep = op != "evalother"
                    # evaluating needs an activated rule
                    env.assume(env.or_(*[b == 1 for r in rs for b in fresh[names[str(r.condition)]]]))
                    if drop: env.assume(env.or_(*[env.and_(*[b == 1 for b in fresh[names[str(r.condition)]]]) for r in rs]))
                    rs.eval(y, d, keep_new_activations=keep)
                    if keep: cur.update(fresh)
                if drop:
                    order = None
                    env.rule.Rule.THRESHOLDS = None
            check(rs, order, op)
            if order is None: order = [names[str(r.condition)] for r in rs]
    finally:
        RuleSet.STACKED_FIT = False
        env.rule.Rule.THRESHOLDS = None
