ID = "C08"
BOUNDS = {"quick": "conditions on 1 to 3 features in every listing order and both sortings; bounds any real numbers, integers or infinities; equality of two conditions over every choice of features and orders; bounds replaced once or twice (list or text)",
          "thorough": "up to 4 features"}
ASSUMES = "Bounds are not NaN. Bounds given as text are finite numbers."
import itertools

SETS = {"abc": ["B", "A", "D", "C"], "mixed": ["B", "AA", "a", "X_10"]}   # names of one length; names of differing lengths and letter cases
IDX = [3, 1, 0, 2]     # index order differs from name order


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, str(b).replace(" ", "")) for a, b in k.items()), k))
    m = 3 if tier == "quick" else 4
    for k in range(1, m + 1):
        for p in itertools.permutations(range(k)):
            for sort in ("index", "name"):
                add(what="keep", feats=list(p), other=None, sort=sort)
                if k > 1: add(what="keep", feats=list(p), other=None, sort=sort, names="mixed")
                if k <= 3: add(what="set", feats=list(p), other=None, sort=sort)
    for sort in ("index", "name"):
        for a, b in (([0], [0]), ([0], [1]), ([0, 1], [1, 0]), ([0, 1], [0, 1]), ([0, 1], [0]), ([0, 1], [0, 2]), ([0, 1, 2], [2, 0, 1]), ([1, 2, 0], [0, 1, 2])):
            add(what="eq", feats=a, other=b, sort=sort)
    add(what="eqint", feats=[0, 1], other=[1, 0], sort="index")
    add(what="eqint", feats=[0], other=[0], sort="name")
    add(what="ruleeq", feats=[0, 1], other=[1, 0], sort="index")
    add(what="default", feats=[0, 1, 2], other=None, sort="index")
    add(what="default", feats=[0, 1, 2], other=None, sort="name")
    add(what="default", feats=[0, 1, 3], other=None, sort="name", names="mixed")
    add(what="eq", feats=[0, 1, 2], other=[2, 0, 1], sort="name", names="mixed")
    return out


def run(env, what, feats, other, sort, names="abc"):
    NAMES = SETS[names]
    env.set_canon_strings(True)
    H = env.condition.HyperrectangleCondition
    H.SORT_ACCORDING_TO = sort
    k = len(feats)

    def mk(fs, tag, ints=False, inf=True):
        if ints: lo, hi = [env.int("lo%s%d" % (tag, f), -3, 3) for f in fs], [env.int("hi%s%d" % (tag, f), -3, 3) for f in fs]
        else: lo, hi = [env.real("lo%s%d" % (tag, f), inf=inf) for f in fs], [env.real("hi%s%d" % (tag, f), inf=inf) for f in fs]
        c = H([IDX[f] for f in fs], bmins=list(lo), bmaxs=list(hi), features_names=[NAMES[f] for f in fs])
        return c, {f: (a, b) for f, a, b in zip(fs, lo, hi)}

    def paired(c, b, when):
        env.require_eq(len(c), len(b), "number of features " + when)
        env.require_eq(sorted(c.features_names), sorted(NAMES[f] for f in b), "features " + when)
        for i in range(len(c)):
            f = NAMES.index(c.features_names[i])
            env.require_eq([c.features_indexes[i], c.bmins[i], c.bmaxs[i]], [IDX[f], b[f][0], b[f][1]], "feature and bounds apart " + when)
            env.require_eq(list(c[i]), [NAMES[f], IDX[f], b[f][0], b[f][1]], "item access " + when)
        env.require_eq([c.impossible], [env.or_(*[a > z for a, z in b.values()])], "impossible flag " + when)

    if what == "keep":
        c, b = mk(feats, "p")
        paired(c, b, "after creation")
        order = [NAMES[f] for f in sorted(b, key=lambda f: IDX[f])] if sort == "index" else sorted(NAMES[f] for f in b)
        env.require_eq(list(c.features_names), order, "order of the features")
        c.sort()
        paired(c, b, "after sorting")
        H.SORT_ACCORDING_TO = "name" if sort == "index" else "index"
        c.sort()
        paired(c, b, "after sorting otherwise")
        u = H([IDX[f] for f in feats], bmins=[b[f][0] for f in feats], bmaxs=[b[f][1] for f in feats], features_names=[NAMES[f] for f in feats], sort=False)
        env.require_eq(list(u.features_names), [NAMES[f] for f in feats], "order without sorting")
        paired(u, b, "without sorting")
        env.require(u == c, "sorted and unsorted condition differ")
    elif what == "default":
        lo, hi = env.reals("lo", k), env.reals("hi", k)
        c = H(bmins=list(lo), bmaxs=list(hi), features_names=[NAMES[f] for f in feats])
        u = H([2, 0, 1], bmins=list(lo), bmaxs=list(hi))
        for i in range(k):
            j = [NAMES[f] for f in feats].index(c.features_names[i])
            env.require_eq([c.bmins[i], c.bmaxs[i]], [lo[j], hi[j]], "bounds by name")
            j = [2, 0, 1].index(u.features_indexes[i])
            env.require_eq([u.bmins[i], u.bmaxs[i], u.features_names[i]], [lo[j], hi[j], "X_%d" % [2, 0, 1][j]], "bounds by index")
        env.require(env.raises(Exception, lambda: H([0, 0], bmins=[0, 0], bmaxs=[1, 1])), "same feature twice")
        env.require(env.raises(Exception, lambda: H([0, 1], bmins=[0, 0], bmaxs=[1])), "missing bound")
        env.require(env.raises(Exception, lambda: H([0, 1], bmins=[0, 0], bmaxs=[1, 1], features_names=["A", "A"])), "same name twice")
    elif what == "set":
        c, b = mk(feats, "p", inf=False)
        cur = dict(b)
        for step in range(2):
            w = env.choice("set%d" % step, ["bmins", "bmaxs", "bminstext", "bmaxstext"] if step == 0 else ["bmins", "bmaxs"])
            new = [env.real("n%d_%d" % (step, i)) for i in range(k)]
            val = str(list(new)) if False else new
            if w.endswith("text"):
                val = [float(x) for x in (0.5, -1.25, 3)][:k]
                new = val
                val = str(val)
            if w.startswith("bmins"): c.bmins = val if isinstance(val, str) else list(val)
            else: c.bmaxs = val if isinstance(val, str) else list(val)
            for i in range(k):
                f = NAMES.index(c.features_names[i])
                cur[f] = (new[i], cur[f][1]) if w.startswith("bmins") else (cur[f][0], new[i])
            paired(c, cur, "after setting " + w)
            X = [[env.real("x%d" % f) for f in range(4)]]
            xs = env.pd.DataFrame({NAMES[f]: [X[0][f]] for f in range(4)})
            env.require_eq(c.evaluate(xs), [env.ite(env.and_(*[env.and_(a <= X[0][f], X[0][f] <= z) for f, (a, z) in cur.items()]), 1, 0)], "met after setting " + w)
        env.require(env.raises(Exception, lambda: setattr(c, "bmins", [0.0] * (k + 1))), "too many bmins accepted")
        env.require(env.raises(Exception, lambda: setattr(c, "bmaxs", [0.0] * (k - 1))), "too few bmaxs accepted")
    else:
        c1, b1 = mk(feats, "p", ints=what == "eqint")
        c2, b2 = mk(other, "q")
        same = set(b1) == set(b2) and env.and_(*[env.and_(b1[f][0] == b2[f][0], b1[f][1] == b2[f][1]) for f in b1])
        if what == "ruleeq":
            r1, r2 = env.rule.RegressionRule(c1), env.rule.RegressionRule(c2)
            got = r1 == r2
        else: r1, r2, got = c1, c2, c1 == c2
        env.require_eq(env.ite(got, 1, 0), env.ite(same, 1, 0), "equality")
        env.require_eq(env.ite(r2 == r1, 1, 0), env.ite(same, 1, 0), "equality, swapped")
        env.require_eq(env.ite(r1 != r2, 1, 0), env.ite(same, 0, 1), "inequality")
        if got: env.require(hash(r1) == hash(r2), "equal but different hashes")
        env.require(not (c1 == "text"), "equal to something else")
