ID = "C26"
BOUNDS = {"quick": "conditions on 1 to 3 features out of four, in any order, with any real bounds (in different ranges when there are more than one feature) (or bounds told apart only by their last digits, or infinite), rules with any real, text or missing prediction, fitted on any 2 targets, rule sets of 0 to 5 rules showing 1 or 2 rules on each side, and of 9, 10 and 11 rules with the default number; texts read again after assigning bounds or features, sorting, slicing or appending",
          "thorough": "also rule sets of up to 14 rules, showing up to 3"}
ASSUMES = "Bounds are not NaN. Feature names made of letters and digits. No clash between random file names (C05), enough memory (C03)."
import itertools
import re
from . import rslib as L
IND = {"A": 2, "B": 0, "AB": 3, "D": 1}
DIGITS = [(1.0, 2.0), (1.0000000001, 2.0), (1.0, 2.0000000001), (-1e-7, 1e-7), (1e-7, 2e-7), (123456789.125, 123456789.25), (float("-inf"), 0.1), (0.1, float("inf")), (1 / 3, 2 / 3), (-0.5, 1e22)]


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, str(b).replace(" ", "")) for a, b in k.items()), k))
    q = tier == "quick"
    for k in (1, 2, 3): add(what="cond", k=k); add(what="set", k=k)
    for k in (1, 2): add(what="digits", k=k)
    for kind in ("reg", "cls"):
        for k in (1, 2): add(what="rule", k=k, kind=kind); add(what="fit", k=k, kind=kind)
    add(what="empty", k=0)
    for kind in ("reg", "cls"):
        for k in range(6 if q else 8): add(what="rs", k=k, kind=kind)
        for k in (9, 10, 11) if q else (8, 9, 10, 11, 12, 13, 14): add(what="default", k=k, kind=kind)
    return out


def run(env, what, k, kind="reg"):
    L.quiet(env)
    env.set_canon_strings(True)
    np = env.np
    H = env.condition.HyperrectangleCondition
    RuleSet = env.ruleset.RuleSet
    R = env.rule.RegressionRule if kind == "reg" else env.rule.ClassificationRule
    text = lambda fs, lo, hi: " AND ".join("%s in [%s, %s]" % t for t in zip(fs, map(str, lo), map(str, hi)))
    by = lambda fs: sorted(range(len(fs)), key=lambda q: IND[fs[q]])
    if what == "empty":
        env.require_eq(str(RuleSet()), "", "text of a set of no rules")
        return
    def shown(c, fs, lo, hi, when):
        """the text of a condition, its features in the condition's order"""
        o = [list(fs).index(f) for f in c.features_names]
        env.require_eq(sorted(o), list(range(len(fs))), "features of the condition " + when)
        t = text([fs[q] for q in o], [lo[q] for q in o], [hi[q] for q in o])
        env.require_eq(str(c), t, "text of a condition " + when)
        env.require_eq(repr(c), t, "representation of a condition " + when)
        return t
    if what in ("cond", "set", "digits"):
        fs = list(env.choice("f", [p for p in itertools.permutations(sorted(IND), k)][::k if k > 1 else 1]))
        if what == "digits":
            v = env.choice("d", DIGITS)
            lo, hi = [v[0]] * k, [v[1]] * k
        # values of different ranges have different texts
        else: lo, hi = [env.real("lo%d" % q, -9, 9) if not q else env.real("lo%d" % q, 100 * q, 100 * q + 9) for q in range(k)], [env.real("hi%d" % q, -9, 9) if not q and what == "cond" else env.real("hi%d" % q, 1000 * (q + 1), 1000 * (q + 1) + 9) for q in range(k)]
        c = H([IND[f] for f in fs], bmins=list(lo), bmaxs=list(hi), features_names=list(fs))
        t = shown(c, fs, lo, hi, "once made")
        if what == "digits":
            parts = [re.fullmatch(r"(\w+) in \[(\S+), (\S+)\]", s) for s in t.split(" AND ")]
            env.require(all(parts), "form of the text of a condition")
            env.require_eq([(m[1], float(m[2]), float(m[3])) for m in parts], list(zip(c.features_names, c.bmins, c.bmaxs)), "bounds read back from the text of a condition")
            w = env.choice("e", DIGITS)
            d = H([IND[f] for f in fs], bmins=[v[0]] * (k - 1) + [w[0]], bmaxs=[v[1]] * (k - 1) + [w[1]], features_names=list(fs))
            env.require_eq(str(c) == str(d), v == w, "conditions have the same text exactly when they are the same")
            return
        if what == "set":
            new = [env.real("new%d" % q, 10000 * (q + 1), 10000 * (q + 1) + 9) for q in range(k)]
            w = env.choice("w", ["bmins", "bmaxs", "features_names"])
            r = R(c)
            on = env.choice("on", [0, 1])
            if w == "features_names": new = ["N%d" % q for q in range(k)]
            setattr((c, r)[on], w, list(new))
            fs2, lo2, hi2 = list(c.features_names) if w != "features_names" else new, [lo[q] for q in by(fs)], [hi[q] for q in by(fs)]
            if w == "bmins": lo2 = new
            elif w == "bmaxs": hi2 = new
            t = text([fs[q] for q in by(fs)] if w != "features_names" else new, lo2, hi2)
            env.require_eq(str(c), t, "text of a condition after setting " + w)
            env.require_eq(str(r), "If %s Then <prediction unset>." % t, "text of a rule after setting " + w)
        return
    def make(j, tag="", n=2, act=True):
        f = ["A", "B", "D", "AB"][j % 4]
        s = 1000 * j + (500 if tag else 0)
        lo, hi = (env.real("lo%s%d" % (tag, j), s, s + 9), env.real("hi%s%d" % (tag, j), s + 100, s + 109)) if j < 2 and not (j and what != "rule") else (-1.0 - j, 1.0 + j)
        c = H([IND[f]], bmins=[lo], bmaxs=[hi], features_names=[f])
        r = R(c, L.act(env, [1, j % 2]))
        p = (env.real("p%s%d" % (tag, j), *(() if what == "rule" else (s + 200, s + 209))) if kind == "reg" else env.choice("p%s%d" % (tag, j), ["x", 2])) if j < 2 else 0.5 * j if kind == "reg" else j
        r._prediction, r._fitted = p, True
        return r, "If %s Then %s." % (text([f], [lo], [hi]), p), (lo, f, hi)
    if what == "rule":
        r, t, (lo, f, hi) = make(0)
        if k == 2:
            o = H([IND["B"], IND["A"]], bmins=[0.25, lo], bmaxs=[0.75, hi], features_names=["B", "A"])
            p, r = r._prediction, R(o)
            env.require_eq(str(r), "If %s Then <prediction unset>." % text(["B", "A"], [0.25, lo], [0.75, hi]), "text of a rule which is not fitted")
            r._prediction, r._fitted = p, True
            t = "If %s Then %s." % (text(["B", "A"], [0.25, lo], [0.75, hi]), p)
        env.require_eq(str(r), t, "text of a rule")
        return
    if what == "fit":
        b = [env.bit("b%d" % i) for i in range(2)]
        env.assume(env.or_(b[0] == 1, b[1] == 1))
        c = H([IND["A"], IND["B"]][:k], bmins=[0.0] * k, bmaxs=[1.0] * k, features_names=["A", "B"][:k])
        r = R(c, L.act(env, b))
        y = env.reals("y", 2, -9, 9) if kind == "reg" else env.choice("y", [[1, 1], [1, 2], ["x", "x"], ["x", "y"]])
        t = "If %s Then " % str(c)
        env.require_eq(str(r), t + "<prediction unset>.", "text of a rule before it is fitted")
        r.fit(np.array(y))
        env.require_eq(str(r), t + str(r.prediction) + ".", "text of a rule once fitted")
        # and when it is fitted with others
        RuleSet.STACKED_FIT = True
        try:
            s = R(H([IND["A"], IND["B"]][:k], bmins=[0.0] * k, bmaxs=[1.0] * k, features_names=["A", "B"][:k]), L.act(env, b))
            RuleSet([s], stack_activation=True).fit(np.array(y))
        finally: RuleSet.STACKED_FIT = False
        env.require_eq(str(s), t + str(s.prediction) + ".", "text of a rule once fitted in a set")
        return
    made = [make(j) for j in range(k)]
    rs = RuleSet([m[0] for m in made])
    lines = [m[1] for m in made]
    env.require_eq([str(r) for r in rs], lines, "texts of the rules of a rule set")
    def want(ls, n): return "\n".join(ls) if len(ls) < 2 * n else "\n".join(ls[:n] + ["..."] + ls[len(ls) - n:])
    if what == "default":
        env.require_eq(str(rs), want(lines, 5), "text of a rule set")
        return
    try:
        n = env.choice("n", [1, 2] if k < 6 else [1, 2, 3])
        RuleSet.NLINES = n
        env.require_eq(str(rs), want(lines, n), "text of a rule set")
        if not k: return
        op = env.choice("op", ["append", "tail", "rev", "sort", "add"])
        if op == "append":
            m = make(1, "new")
            rs.append(m[0])
            lines = lines + [m[1]]
        elif op == "add":
            m = make(3, "new")
            rs = rs + m[0]
            lines = lines + [m[1]]
        elif op == "tail": rs, lines = rs[1:], lines[1:]
        elif op == "rev": rs, lines = rs[::-1], lines[::-1]
        else:
            rs.sort()
            env.require_eq(sorted(str(r) for r in rs), sorted(lines), "texts of the rules once sorted")
            lines = [str(r) for r in rs]
        env.require_eq(str(rs), want(lines, n), "text of a rule set after " + op)
    finally: RuleSet.NLINES = 5
