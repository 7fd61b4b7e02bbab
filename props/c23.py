ID = "C23"
BOUNDS = {"quick": "vectors of 1 to 3 arbitrary bits in every stored format, any single statistic or all asked for before deleting or clearing, deleted once or twice; rules and rule sets of 1 to 3 rules over 2 or 3 observations whose activations are deleted for one rule, all the rules or the rule set, stacked activations kept or not, activations in files or in memory; cleaning of files among up to 4 other files",
          "thorough": "up to 5 bits; any two statistics asked for before; up to 4 observations"}
ASSUMES = "Vectors of at least one point. No clash between random file names (C05), enough memory (C03). The statistics compared after deletion are those asked for before it."
MAX_PATHS = {"quick": 40000, "thorough": 400000}
from . import rslib as R
from . import actlib as L
from .c03 import KINDS, make
STATS = ["nones", "entropy", "rel_entropy", "coverage", "ones", "len", "all", "none"]


def cases(tier):
    out = []
    def add(what, kind="raw", n=2, k=1, after="str", tofile=True, stack=False):
        p = dict(what=what, kind=kind, n=n, k=k, after=after, tofile=tofile, stack=stack)
        out.append(("_".join("%s=%s" % (a, b) for a, b in p.items()), p))
    q = tier == "quick"
    for kind in KINDS:
        for n in ((1, 2, 3) if q else (1, 2, 3, 4, 5)):
            if kind == "carray" and n < 2: continue
            for after in ("str", "wc", "arr"):
                if q and (n == 3 and (after != "str" or kind.startswith("auto")) or n == 2 and after != "str" and kind.startswith("auto")): continue
                add("delete", kind, n, after=after)
                add("clear", kind, n, after=after)
    for n in ((2, 3) if q else (2, 3, 4)):
        for tofile in (True, False):
            add("rule", n=n, tofile=tofile)
            for k in (1, 2, 3):
                if k == 3 and n > 2 and q: continue
                for stack in (False, True):
                    if q and k * n > 4 and (stack or not tofile): continue
                    if q and k * n == 4 and not tofile and not stack: continue
                    add("ruleset", n=n, k=k, tofile=tofile, stack=stack)
    for tofile in (True, False): add("clean", n=2, tofile=tofile)
    return out


def stat(a, s): return len(a) if s == "len" else getattr(a, s)


def expected(env, bits, s):
    n = len(bits)
    ent = env.sum([env.ite(bits[i] == bits[i - 1], 0, 1) for i in range(1, n)]) + 2
    return dict(nones=env.sum(bits), entropy=ent, rel_entropy=env.div(ent, n), coverage=env.div(env.sum(bits), n), len=n)[s]


def facts(env, a, bits, when, stats=("nones", "entropy", "rel_entropy", "coverage", "len")):
    for s in stats: env.require_close(stat(a, s), expected(env, bits, s), "%s %s" % (s, when))


def run(env, what, kind, n, k, after, tofile, stack):
    R.quiet(env)
    np, A = env.np, env.Activation
    if what in ("delete", "clear"):
        bits, other = env.bits("b", n), env.bits("o", min(n, 2))
        a = make(env, kind, bits)
        b = make(env, kind, other)
        L.apply(env, after)
        asked = env.choice("asked", STATS if what == "delete" and after == "str" else ["all", "none", "nones"])
        todo = ["nones", "entropy", "rel_entropy", "coverage", "len"] if asked == "all" else [] if asked == "none" else [asked]
        got = {s: stat(a, s) for s in todo}
        path = a.data if a.data_format == "file" else None
        if what == "delete":
            for t in range(2 if asked in ("all", "none", "len") else 1):
                a.delete()
                if path is not None: env.require(not path.is_file(), "file of a deleted vector still there")
                else: env.require(a.data is None, "data of a deleted vector still there")
                for s in todo:
                    if s == "ones": continue     # a list read from the data
                    env.require_close(stat(a, s), expected(env, bits, s), s + " after deletion")
        else:
            a.clear()
            env.require_eq(a.raw, [0] * n, "contents of a cleared vector")
            facts(env, a, [0] * n, "of a cleared vector")
            env.require_eq(list(a.ones), [], "positions of a cleared vector")
            env.require_eq(a.as_bitarray, [0] * n, "bit array of a cleared vector")
        env.require_eq(b.raw, other, "contents of another vector")
        facts(env, b, other, "of another vector")
        return
    H = env.condition.HyperrectangleCondition
    if what == "rule":
        bits, other = env.bits("b", n), env.bits("o", n)
        r, s = [env.rule.RegressionRule(R.cond(env, j), R.act(env, v, to_file=tofile)) for j, v in ((0, bits), (1, other))]
        v = env.real("v")
        r._prediction = v
        env.require(r.activation_available, "activation available")
        env.require_close(r.coverage, expected(env, bits, "coverage"), "coverage before deletion")
        for t in range(2):
            r.del_activation()
            env.require(not r.activation_available, "deleted activation still available")
            env.require(r.activation is None, "a deleted activation is None")
            env.require_close(r.coverage, expected(env, bits, "coverage"), "coverage after deletion")
            env.require_eq(r.prediction, v, "prediction after deletion")
        env.require(env.raises(ValueError, r.predict), "prediction on a deleted activation is refused")
        x = [[env.real("x%d" % i, -1, 2)] for i in range(2)]
        got = r.predict(np.array(x))
        for i in range(2): env.require_close(got[i], env.ite(env.and_(x[i][0] >= 0, x[i][0] <= 1), v, env.nan), "prediction on new data after deletion")
        env.require_eq(list(s.activation), other, "activation of another rule")
        r.calc_activation(np.array([[0.5], [7.0]]))
        env.require(r.activation_available, "activation computed again")
        env.require_eq(list(r.activation), [1, 0], "activation computed again")
        env.require_close(r.coverage, 0.5, "coverage computed again")
        return
    if what == "ruleset":
        bits = [env.bits("b%d" % j, n) for j in range(k)]
        rules = [env.rule.RegressionRule(R.cond(env, j), R.act(env, bits[j], to_file=tofile)) for j in range(k)]
        rs = env.ruleset.RuleSet(rules, stack_activation=stack)
        union = [env.ite(env.or_(*[bits[j][i] == 1 for j in range(k)], False), 1, 0) for i in range(n)]
        cov = expected(env, union, "coverage")
        for j in range(k): env.require_close(rules[j].coverage, expected(env, bits[j], "coverage"), "coverage of a rule before")
        env.require_close(rs.ruleset_coverage, cov, "coverage before")
        gone, gone_set, gone_stack = set(), False, not stack
        ops = ["one", "rules", "set", "stacked"]
        for t in range(2):
            op = env.choice("op%d" % t, ops)
            if op == "one": rs[0].del_activation(); gone.add(0)
            elif op == "rules": rs.del_activations(); gone = set(range(k))
            elif op == "set": rs.del_activation(); gone_set = True
            else: rs.del_stacked_activations(); gone_stack = True
            env.require(rs.activation_available == (not gone_set), "availability of the activation of the rule set after " + op)
            if gone_set: env.require(rs.activation is None, "a deleted activation of the rule set is None")
            else: env.require_eq(list(rs.activation), union, "activation of the rule set after " + op)
            env.require_close(rs.ruleset_coverage, cov, "coverage of the rule set after " + op)
            st = rs.stacked_activations
            env.require((st is None) == gone_stack, "stacked activations after " + op)
            if st is not None: env.require_eq([list(st[c].tolist()) for c in st.columns], bits, "stacked activations after " + op)
            for j in range(k):
                env.require(rules[j].activation_available == (j not in gone), "availability of the activation of a rule after " + op)
                if j in gone: env.require(rules[j].activation is None, "a deleted activation is None")
                else: env.require_eq(list(rules[j].activation), bits[j], "activation of a rule after " + op)
                env.require_close(rules[j].coverage, expected(env, bits[j], "coverage"), "coverage of a rule after " + op)
        return
    # cleaning: only the files of vectors go
    A.DEFAULT_TEMPDIR = env.Path(env.tmpdir)
    names = ["notes.txt", "ACTIVATION_VECTOR.csv", "other_ACTIVATION_VECTOR_1.txt", "ACTIVATION_VECTOR_9.csv"]
    for x in names:
        with env.open(env.Path(env.tmpdir) / x, "w") as f: f.write("kept")
    bits = env.bits("b", n)
    a = R.act(env, bits, to_file=tofile)
    A.clean_files()
    for x in names: env.require((env.Path(env.tmpdir) / x).is_file(), "another file was removed")
    if a.data_format == "file": env.require(not a.data.is_file(), "file of a vector left")
    else: env.require_eq(a.raw, bits, "a vector in memory after cleaning")
