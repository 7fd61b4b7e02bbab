ID = "C24"
BOUNDS = {"quick": "rules on 1 or 2 features with any real bounds and an activation of 1 to 3 arbitrary bits (in a file, in memory, deleted or none), one or two assignments among bounds, features names and indexes (as lists, or bounds as text) in any order, evaluated on any real point, an array or a data frame; rule sets of 1 or 2 rules; refused assignments (wrong length, twice the same feature, unknown name)",
          "thorough": "3 features, 4 bits"}
ASSUMES = "Bounds are not NaN. No clash between random file names (C05), enough memory (C03)."
import itertools
from . import rslib as L
IDX = [1, 0, 2]
NEWIDX = [2, 1, 0]
NAMES = ["A", "B", "C"]
NEWNAMES = ["U", "V", "W"]
WRITES = ["bmins", "bmaxs", "features_names", "features_indexes", "bminstext", "bmaxstext"]


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, str(b).replace(" ", "")) for a, b in k.items()), k))
    q = tier == "quick"
    for k in ((1, 2) if q else (1, 2, 3)):
        for n in ((1, 3) if q else (1, 3, 4)):
            for where in ("file", "memory", "none", "deleted"): add(what="read", k=k, n=n, where=where)
        for a in WRITES:
            add(what="write", k=k, ops=[a], kind="array")
            add(what="write", k=k, ops=[a], kind="df")
            for b in WRITES:
                if a[:5] != b[:5]: add(what="write", k=k, ops=[a, b], kind="df" if a < b else "array")
        for where in ("file", "none"): add(what="refuse", k=k, where=where)
    for k in (1, 2):
        for n in (1, 2): add(what="set", k=k, n=n)
    add(what="own", k=1)
    for k in (1, 2): add(what="item", k=k)
    return out


def run(env, what, k, n=2, where="file", ops=(), kind="array"):
    L.quiet(env)
    np = env.np
    H, Rule = env.condition.HyperrectangleCondition, env.rule.RegressionRule
    def bounds(tag): return [env.real("%s%d" % (tag, i), -9, 9) for i in range(k)]
    def mk(lo, hi, names=NAMES, idx=IDX, a=None):
        c = H(list(idx[:k]), bmins=list(lo), bmaxs=list(hi), features_names=list(names[:k]), sort=False)
        return Rule(c, a), c
    def stats(bits):
        m = len(bits)
        changes = env.sum([env.ite(bits[i] == bits[i - 1], 0, 1) for i in range(1, m)])
        return dict(nones=env.sum(bits), coverage=env.div(env.sum(bits), m), entropy=changes + 2, rel_entropy=env.div(changes + 2, m), length=m)
    def show(r, c, lo, hi, names, idx, when):
        env.require_eq([list(r.features_names), list(r.features_indexes)], [list(names[:k]), list(idx[:k])], "features shown by the rule " + when)
        env.require_eq([list(r.bmins), list(r.bmaxs)], [list(lo), list(hi)], "bounds shown by the rule " + when)
        env.require_eq([list(c.features_names), list(c.features_indexes)], [list(names[:k]), list(idx[:k])], "features of the condition " + when)
        env.require_eq([list(c.bmins), list(c.bmaxs)], [list(lo), list(hi)], "bounds of the condition " + when)
        env.require_eq([r.impossible, c.impossible], [env.or_(*[a > b for a, b in zip(lo, hi)])] * 2, "impossible flag " + when)
        env.require_eq(len(r), k, "number of features " + when)
    if what == "read":
        lo, hi = bounds("lo"), bounds("hi")
        bits = env.bits("b", n)
        a = None if where == "none" else L.act(env, bits, to_file=where == "file")
        if where == "deleted": _ = a.entropy, a.rel_entropy, a.coverage, a.nones
        r, c = mk(lo, hi, a=a)
        if where == "deleted": r.del_activation()
        show(r, c, lo, hi, NAMES, IDX, "after creation")
        if a is None:
            for s in ("nones", "entropy", "length", "raw"): env.require(env.raises(AttributeError, getattr, r, s), "a rule without activation has no " + s)
            env.require(r.coverage is None, "a rule without activation has no coverage")
            env.require(r.activation is None and not r.activation_available, "a rule without activation has no activation")
        else:
            for s, v in stats(bits).items(): env.require_close(getattr(r, s), v, s + " shown by the rule")
            if where != "deleted":
                env.require_eq(list(r.raw), bits, "vector shown by the rule")
                env.require_eq(list(r.activation), bits, "activation of the rule")
        for s in ("not_there", "bmin", "Bmins"):
            env.require(env.raises(AttributeError, getattr, r, s), "an attribute that nothing has is refused")
            env.require(not hasattr(r, s), "an attribute that nothing has is not there")
        v = env.real("v")
        r._prediction = v
        env.require_eq(r.prediction, v, "own attribute")
        env.require(r.condition is c, "condition of the rule")
        return
    if what == "item":    # one bound changed in place
        lo, hi = bounds("lo"), bounds("hi")
        env.assume(env.and_(*[a <= b for a, b in zip(lo, hi)]))     # whether a condition is impossible is decided when it is built or assigned to
        r, c = mk(lo, hi)
        v = env.real("v", -9, 9)
        i = env.choice("i", list(range(k)))
        w = env.choice("w", ["bmins", "bmaxs"])
        getattr(env.choice("on", [r, c]), w)[i] = v
        got = [list(c.bmins), list(c.bmaxs)]
        env.require_eq([list(r.bmins), list(r.bmaxs)], got, "bounds of the rule and of its condition after changing one")
        env.require_eq(got[w == "bmins"], hi if w == "bmins" else lo, "the other bounds after changing one")
        env.require_eq([x for j, x in enumerate(got[w != "bmins"]) if j != i], [x for j, x in enumerate(lo if w == "bmins" else hi) if j != i], "bounds of the other features after changing one")
        x = [[env.real("x%d" % f, -10, 10) for f in range(3)]]
        want = [env.ite(env.and_(*[env.and_(x[0][p] >= a, x[0][p] <= b) for p, a, b in zip(IDX, *got)]), 1, 0)]
        env.require_eq(list(r.evaluate_activation(np.array(x)).raw), want, "evaluation after changing one bound")
        return
    if what == "write":
        bits = env.bits("b", 2)
        lo, hi = bounds("lo"), bounds("hi")
        names, idx = NAMES, IDX
        r, c = mk(lo, hi, a=L.act(env, bits))
        s, d = mk([0.0] * k, [1.0] * k)
        for t, op in enumerate(ops):
            if op.startswith("bmin") or op.startswith("bmax"):
                new = [[-1, 3, 0.5], [2.5, 1, -4]][t][:k] if op.endswith("text") else bounds("new%d" % t)
                val = str(new) if op.endswith("text") else list(new)
                if op.startswith("bmins"): lo = new; r.bmins = val
                else: hi = new; r.bmaxs = val
            elif op == "features_names": names = NEWNAMES; r.features_names = list(names[:k])
            else: idx = NEWIDX; r.features_indexes = list(idx[:k])
            show(r, c, lo, hi, names, idx, "after assigning " + op)
        show(s, d, [0.0] * k, [1.0] * k, NAMES, IDX, "of another rule")
        x = [[env.real("x%d_%d" % (i, f), -10, 10) for f in range(3)] for i in range(2)]
        if kind == "df":
            xs = env.pd.DataFrame({nm: [row[j] for row in x] for j, nm in enumerate(NAMES[:k] + NEWNAMES[:k]) if j < 3} if k == 1 else {nm: [row[i] for row in x] for i, nm in enumerate(names[:k])})
            col = {nm: j for j, nm in enumerate(NAMES[:k] + NEWNAMES[:k])} if k == 1 else {nm: i for i, nm in enumerate(names[:k])}
            pos = [col[nm] for nm in names[:k]]
        else:
            xs = np.array(x)
            pos = idx[:k]
        want = [env.ite(env.and_(*[env.and_(row[p] >= a, row[p] <= b) for p, a, b in zip(pos, lo, hi)]), 1, 0) for row in x]
        env.require_eq(list(r.evaluate_activation(xs).raw), want, "evaluation after assigning")
        env.require_eq(list(r.activation), bits, "activation after assigning")
        return
    if what == "refuse":
        lo, hi = bounds("lo"), bounds("hi")
        bits = env.bits("b", 2)
        r, c = mk(lo, hi, a=L.act(env, bits) if where == "file" else None)
        D = env.condition.DuplicatedFeatures
        bad = [("bmins", [0.0] * (k + 1), IndexError), ("bmaxs", [0.0] * (k + 1), IndexError), ("bmins", "[0]" if k > 1 else "[0, 1]", IndexError), ("bmaxs", [], IndexError),
               ("features_names", ["U"] * (k + 1), D), ("features_names", ["U", "V", "W", "Z"][:k + 1], IndexError), ("features_indexes", [3] * (k + 1), D),
               ("features_indexes", list(range(k + 1)), IndexError), ("not_there", 1, AttributeError), ("prediction", 1.0, AttributeError), ("good", False, AttributeError), ("condition", None, AttributeError)]
        if k > 1: bad += [("features_names", ["U"] * k, D), ("features_indexes", [0] * k, D), ("bmins", [1.0], IndexError)]
        for at, val, err in bad:
            env.require(env.raises(err, setattr, r, at, val), "assigning %s should be refused: %s" % (at, val))
            show(r, c, lo, hi, NAMES, IDX, "after a refused assignment of %s" % at)
            env.require(r.prediction is None and r.good, "own attributes after a refused assignment")
            if where == "file": env.require_eq(list(r.activation), bits, "activation after a refused assignment")
        return
    if what == "set":
        allbits = [env.bits("b%d" % j, n) for j in range(k)]
        rs = env.ruleset.RuleSet([Rule(L.cond(env, j), L.act(env, allbits[j])) for j in range(k)])
        union = [env.ite(env.or_(*[allbits[j][i] == 1 for j in range(k)], False), 1, 0) for i in range(n)]
        for s, v in stats(union).items():
            if s != "coverage": env.require_close(getattr(rs, s), v, s + " shown by the rule set")
        env.require_eq(list(rs.raw), union, "vector shown by the rule set")
        env.require_eq(len(rs), k, "number of rules")
        for s in ("not_there", "bmins"): env.require(env.raises(AttributeError, getattr, rs, s), "an attribute that nothing has is refused")
        empty = env.ruleset.RuleSet()
        env.require(env.raises(AttributeError, getattr, empty, "nones"), "a rule set without activation has no nones")
        env.require(empty.activation is None and not empty.activation_available, "a rule set without activation has no activation")
        return
    # the rule's own attributes stay its own
    bits = env.bits("b", 2)
    v, w = env.real("v", 0, 1), env.int("w", 0, 5)
    lo, hi = bounds("lo"), bounds("hi")
    r, c = mk(lo, hi, a=L.act(env, bits))
    r.coverage = v
    env.require_eq(r.coverage, v, "assigned coverage")
    r.train_set_size = w
    env.require_eq([r.train_set_size, r.test_set_size], [w, None], "assigned size")
    r.test_set_size = w + 1
    env.require_eq([r.train_set_size, r.test_set_size], [w, w + 1], "assigned sizes")
    r._mine = w
    env.require_eq(r._mine, w, "own private attribute")
    env.require(not hasattr(c, "_mine") and not hasattr(r._activation, "_mine"), "own private attribute set elsewhere")
    show(r, c, lo, hi, NAMES, IDX, "after assigning own attributes")
    env.require_eq(list(r.activation), bits, "activation after assigning own attributes")
