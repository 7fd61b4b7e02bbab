ID = "C04"
BOUNDS = {"quick": "two vectors of 1 to 3 arbitrary bits (lengths 8, 64, 256 +-1 with 3 arbitrary bits each) in every pair of stored formats; rules with any non-zero real predictions; unequal lengths up to 4",
          "thorough": "two vectors of up to 5 arbitrary bits in every pair of formats"}
ASSUMES = "The correlation of rules is checked for non-zero, non-NaN predictions (a zero prediction has no sign)."
from . import actlib as L
from .c03 import KINDS, make, vec


def cases(tier):
    out = []
    def add(**k): out.append(("_".join("%s=%s" % (a, b) for a, b in k.items()), k))
    q = tier == "quick"
    ks = list(KINDS)
    for i, k1 in enumerate(ks):
        for j, k2 in enumerate(ks):
            for w in ("contains", "corr", "rule"):
                if q and (i + j) % 2 and w == "rule": continue
                add(what=w, k1=k1, k2=k2, n=(3 if "auto" not in k1 + k2 else 2) if q else 4, pattern="all")
                if k1 == k2 and k1 != "carray": add(what=w, k1=k1, k2=k2, n=1, pattern="all")
                if k1 == k2 and not q: add(what=w, k1=k1, k2=k2, n=5, pattern="all")
            add(what="lengths", k1=k1, k2=k2, n=2, pattern="all")
    sizes = sorted({8, 9, 64, 65, 255, 256, 257} | set(x for x in L.literal_sizes(300 if q else 2000) if x > 4))
    for i, n in enumerate(sizes):
        for j, k in enumerate(("bitarray", "integer", "raw", "ctext", "file")):
            for w in ("contains", "corr"):
                add(what=w, k1=k, k2=k if (i + j) % 2 else "bitarray", n=n, pattern=("zeros", "ones", "blocks")[(i + j) % 3])
    return out


def rule(env, a, p, f=0):
    c = env.condition.HyperrectangleCondition([f], bmins=[0.0], bmaxs=[1.0], features_names=["X%d" % f])
    r = env.rule.RegressionRule(c, a)
    r._prediction = p
    return r


def run(env, what, k1, k2, n, pattern):
    if what == "lengths":
        m = env.choice("m", [3, 4])
        w = env.choice("w", ["contains", "corr", "rulecorr", "rulecontains"])
        swap = env.choice("swap", [False, True])
        a, b = make(env, k1, [env.bit("x"), 1]), make(env, k2, [1] * (m - 1) + [env.bit("y")])
        if swap: a, b = b, a
        if w == "contains": f = lambda: b in a
        elif w == "corr": f = lambda: a.get_correlation(b)
        else:
            ra, rb = rule(env, a, 1.0), rule(env, b, 2.0, 1)
            f = (lambda: ra.get_correlation(rb)) if w == "rulecorr" else (lambda: rb in ra)
        env.require(env.raises(Exception, f), w + " of different lengths accepted")
        return
    x, y = vec(env, n, pattern, "x"), vec(env, n, pattern, "y")
    a, b = make(env, k1, x), make(env, k2, y)
    sub = env.and_(*[env.or_(x[i] == 1, y[i] == 0) for i in range(n)])
    agree = env.div(env.count([x[i] == y[i] for i in range(n)]), n)
    if what == "contains":
        got = b in a
        env.require_eq(env.ite(got, 1, 0), env.ite(sub, 1, 0), "containment")
    elif what == "corr":
        got = a.get_correlation(b)
        env.require_close(got, agree, "correlation")
        env.require(env.and_(got >= 0, got <= 1), "correlation between 0 and 1")
    else:
        p, q = env.real("p"), env.real("q")
        env.assume(p != 0); env.assume(q != 0)
        ra, rb = rule(env, a, p), rule(env, b, q, 1)
        w = env.choice("w", ["contains", "corr"])
        if w == "contains":
            got = rb in ra
            env.require_eq(env.ite(got, 1, 0), env.ite(sub, 1, 0), "containment of rules")
        else:
            got = ra.get_correlation(rb)
            env.require_close(got, agree * env.ite(p > 0, 1, -1) * env.ite(q > 0, 1, -1), "correlation of rules")
    env.require_eq(a.raw, x, "operand changed")
    env.require_eq(b.raw, y, "operand changed")
