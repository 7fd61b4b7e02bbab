ID = "C17"
BOUNDS = {"quick": "one rule with any real (or NaN) prediction, deviation, z-score and criterion and any coverage over 2 to 4 observations, any real limits of every kind (min, max, equal, different, alone or two together) on one or two attributes, set for all rules or for one rule, absolute value, square root, integer part of any value and exponential or logarithm of 4 values, limits taken from another attribute, default limit on the coverage; fitting and evaluating sets of 1 to 3 rules over 2 observations (1 over 3) by both methods (evaluating on the same or new data, keeping the new activations or not) with limits on every measured attribute, every activation, any real targets, integer classes",
          "thorough": "limits on three attributes; sets of 3 rules over 3 observations"}
ASSUMES = "Limits are numbers and attributes are numbers (text attributes can only be limited after a transformation). Enough memory and no clash between random file names (C03, C05)."
from . import rslib as L
import math

ATTRS = ["prediction", "std", "zscore", "criterion", "coverage"]
KINDS = [("min",), ("max",), ("equal",), ("different",), ("min", "max"), ("min", "different"), ("max", "different"), ("min", "equal")]
SETLIM = {"cov": {"coverage": {"min": 0.5}}, "covmax": {"coverage": {"min": 0, "max": 0.5}}, "maxonly": {"coverage": {"max": 0.5}}, "default": {"std": {"max": 1000000.0}}, "pred": {"coverage": {"min": 0}, "prediction": {"min": 1, "max": 5}},
          "abspred": {"coverage": {"min": 0}, "prediction": {"min": 2, "arg": "abs"}}, "std": {"coverage": {"min": 0.0}, "std": {"max": 1.5}}, "z": {"coverage": {"min": 0}, "zscore": {"min": 1}},
          "crit": {"coverage": {"min": 0}, "criterion": {"max": 1}}, "two": {"coverage": {"min": 0.5}, "prediction": {"different": 3}}, "ref": {"coverage": {"min": 0}, "prediction": {"min": "std"}},
          "size": {"coverage": {"min": 0}, "train_set_size": {"min": 3}}, "cls": {"coverage": {"min": 0}, "prediction": {"different": 1}}, "rate": {"coverage": {"min": 0}, "criterion": {"min": 0.5}}, "nones": {"coverage": {"min": 0}, "nones": {"min": 2}}}


def cases(tier):
    out = []
    def add(**p): out.append(("_".join("%s=%s" % (a, b) for a, b in p.items()), p))
    for at in ATTRS:
        for kd in KINDS:
            for own in (False, True):
                if own and kd != ("min",) and kd != ("different",): continue
                add(what="one", attrs=(at,), kinds=(kd,), arg=None, own=own)
        for arg in ("abs", "sqrt", "int"): add(what="one", attrs=(at,), kinds=(("min", "max"),), arg=arg, own=False)
        for arg in ("exp", "log"): add(what="one", attrs=(at,), kinds=(("min",),), arg=arg, own=False)
    for a in ATTRS[:4]:
        for b in ATTRS:
            if a != b: add(what="one", attrs=(a, b), kinds=(("min",), ("max",)), arg=None, own=False)
            if a != b: add(what="ref", attrs=(a, b), kinds=(), arg=None, own=False)
    add(what="one", attrs=("prediction",), kinds=(("equal",),), arg="abs", own=True)
    for nm in ("none", "badarg", "badtype", "missing", "single"): add(what=nm, attrs=("prediction",), kinds=(), arg=None, own=False)
    for lim in SETLIM:
        for op in ("fit", "eval"):
            if (lim in ("crit", "rate")) != (op == "eval"): continue
            for kind in ("reg", "cls"):
                if kind == "cls" and lim not in ("cov", "covmax", "maxonly", "cls", "rate", "default", "nones") or kind == "reg" and lim in ("cls", "rate"): continue
                for sfit in (False, True):
                    add(what="set", attrs=lim, kinds=kind, arg=(2, 2), own=sfit)
                    if lim in ("cov", "pred", "crit", "nones"): add(what="set", attrs=lim, kinds=kind, arg=(3, 2) if lim != "crit" else (1, 3), own=sfit)
    for sfit in (False, True):
        for lim in ("cov", "crit", "nones", "pred"): add(what="evalnew", attrs=lim, kinds="reg", arg=(2, 2), own=sfit)
        for lim in ("cov", "covmax", "nones", "crit", "pred"): add(what="evalkeep", attrs=lim, kinds="reg", arg=(2, 2), own=sfit)
        for lim in ("cov", "nones", "rate"): add(what="evalkeep", attrs=lim, kinds="cls", arg=(2, 2), own=sfit)
        add(what="stackkeep", attrs="cov", kinds="reg", arg=(2, 2), own=sfit)
        add(what="ownset", attrs="cov", kinds="reg", arg=(2, 2), own=sfit)
    if tier != "quick":
        for kd in KINDS: add(what="one", attrs=("prediction", "std", "coverage"), kinds=(kd, ("max",), ("min",)), arg=None, own=False)
        for sfit in (False, True):
            for lim in ("cov", "pred", "two", "nones"): add(what="set", attrs=lim, kinds="reg", arg=(3, 3), own=sfit)
    return out


def breaks(env, v, lim):
    """does v break the limits; v is None if not measured"""
    if v is None: return False
    t = []
    isn = bool(env.isnan(v))
    for kd, l in lim.items():
        if kd == "min": t.append(False if isn else v < l)
        elif kd == "max": t.append(False if isn else v > l)
        elif kd == "equal": t.append(True if isn else v != l)
        elif kd == "different": t.append(False if isn else v == l)
    return env.or_(*t, False)


def trunc(env, v):
    """integer part, for |v| <= 3"""
    out = 0
    for k in (1, 2, 3): out = env.ite(v >= k, k, env.ite(v <= -k, -k, out))
    return out


def run(env, what, attrs, kinds, arg, own):
    L.quiet(env)
    if what in ("set", "evalnew", "evalkeep", "stackkeep", "ownset"): return run_set(env, what, attrs, kinds, arg[0], arg[1], own)
    np = env.np
    Rule, R, T = env.rule.Rule, env.rule.RegressionRule, env.thresholds.Thresholds
    try:
        if what == "none":
            Rule.SET_THRESHOLDS(env.choice("no", [None, env.Path(env.tmpdir) / "absent.json"]))
            r = R(L.cond(env, 0), L.act(env, [0, 0, 0]))
            r._prediction = env.real("p")
            r.check_thresholds()
            env.require(r.good, "bad without thresholds")
            env.require(r.bad_because is None, "a reason without thresholds")
            return
        if what in ("badarg", "badtype"):
            Rule.SET_THRESHOLDS(L.limits(env, {"prediction": {"min": 0, "arg": "cos"} if what == "badarg" else {"min": [1]}}))
            r = R(L.cond(env, 0), L.act(env, [1, 1]))
            r._prediction = env.real("p")
            env.require(env.raises((ValueError, TypeError), r.check_thresholds), "invalid threshold accepted")
            return
        n = env.choice("n", [4, 2, 3]) if "coverage" in attrs else 2
        bits = env.bits("a", n)
        cov = env.div(env.sum(bits), n)
        val = {}
        for a in ATTRS[:4]: val[a] = env.nan if a in attrs and env.choice("nan_" + a, [False, True]) and arg != "int" else env.real("v_" + a, -3 if arg == "int" else None, 3 if arg == "int" else None) if a in attrs and arg not in ("exp", "log") else env.choice("v_" + a, [1.0, 0.5, 2.0, 7.25]) if a in attrs else 1.0
        if what == "missing": val["prediction"] = None
        val["coverage"] = cov
        if arg in ("sqrt",):
            for a in attrs:
                if not bool(env.isnan(val[a])): env.assume(val[a] >= 0)
        if arg in ("log", "exp", "sqrt") and attrs == ("coverage",):
            bits = [env.choice("ac%d" % i, [1, 0]) for i in range(n)]
            if not any(bits): return
            val["coverage"] = cov = sum(bits) / n
        lim = {}
        if what == "ref":
            lim[attrs[0]] = {"min": attrs[1]}
            lim["coverage"] = dict(lim.get("coverage", {}), min=0)
        elif what in ("missing", "single"): lim = {"prediction": {"min": 1}, "coverage": {"min": 0}}
        else:
            for a, kd in zip(attrs, kinds):
                lim[a] = {k: env.real("l_%s_%s" % (a, k)) for k in kd}
                if arg: lim[a]["arg"] = arg
            if env.choice("nocov", [True, False]): lim.setdefault("coverage", {}).setdefault("min", 0)
        # the file holds stand-ins for the limits, which are then replaced by free ones
        path = L.limits(env, {a: {k: (v if isinstance(v, str) else 0) for k, v in d.items()} for a, d in lim.items()})
        other = L.limits(env, {"coverage": {"min": 2}}, "other.json")
        if own:
            Rule.SET_THRESHOLDS(other)
        else: Rule.SET_THRESHOLDS(path)
        r = R(L.cond(env, 0))
        if own: r.set_thresholds(path)
        t = r.thresholds if own else Rule.THRESHOLDS
        full = {a: dict(d) for a, d in lim.items()}
        full.setdefault("coverage", {}).setdefault("min", 0.05)
        env.require_eq(sorted(t.limits), sorted(full), "limited attributes")
        env.require_eq(t.limits["coverage"]["min"] if "coverage" not in lim or "min" not in lim["coverage"] else 0, full["coverage"]["min"] if "coverage" not in lim or "min" not in lim["coverage"] else 0, "default limit on the coverage")
        t.limits = {a: dict(d) for a, d in full.items()}
        r._activation = L.act(env, bits)
        r._prediction, r._std, r._zscore, r._criterion = val["prediction"], val["std"], val["zscore"], val["criterion"]
        broken = {}
        for a, d in full.items():
            d = {k: (val[v] if isinstance(v, str) and k != "arg" else v) for k, v in d.items()}
            v = val[a]
            tr = d.pop("arg", None)
            if v is not None and tr and not bool(env.isnan(v)):
                if tr == "abs": v = env.abs(v)
                elif tr == "int": v = trunc(env, v)
                elif tr == "sqrt": v = env.sqrt(v)
                elif tr in ("exp", "log"): v = getattr(math, tr)(float(v))
            if tr == "int" and env.isnan(v): return
            broken[a] = breaks(env, v, d)
        if what == "single":
            r.check_thresholds("coverage")
            env.require(r.good, "bad because of another attribute than the one checked")
        r.check_thresholds()
        bad = bool(env.or_(*broken.values(), False))
        env.require_eq(r.good, not bad, "rule flagged")
        if bad:
            env.require(r.bad_because in broken, "reason for a bad rule")
            if r.bad_because in broken: env.require(broken[r.bad_because], "the reason given is not a broken limit")
        else: env.require(r.bad_because is None, "a reason for a good rule")
        env.require_eq([r.prediction, r.std, r.criterion], [val["prediction"], val["std"], val["criterion"]], "attributes changed by checking")
    finally:
        Rule.THRESHOLDS = None


def run_set(env, what, lim, kind, k, n, sfit):
    np = env.np
    Rule, RuleSet = env.rule.Rule, env.ruleset.RuleSet
    R = env.rule.RegressionRule if kind == "reg" else env.rule.ClassificationRule
    acts = L.choices(env, "a", k, n)
    op = "eval" if lim in ("crit", "rate") or what in ("evalnew", "evalkeep") else "fit"
    y = env.reals("y", n) if kind == "reg" else [env.choice("y%d" % i, [0, 1]) for i in range(n)]
    d = {a: dict(x) for a, x in SETLIM[lim].items()}
    full = {a: dict(x) for a, x in d.items()}
    full.setdefault("coverage", {}).setdefault("min", 0.05)
    preds = None
    try:
        RuleSet.STACKED_FIT = sfit
        rules = [R(L.cond(env, j)) for j in range(k)]
        rs = RuleSet(list(rules), stack_activation=what == "stackkeep")
        rs.rule_type = R
        if op == "eval":
            preds = env.reals("p", k) if kind == "reg" else [env.choice("p%d" % j, [0, 1]) for j in range(k)]
            for j, r in enumerate(rules):
                r._activation = L.act(env, acts[j] if what not in ("evalnew", "evalkeep") else [1] * n if what == "evalnew" else [1, 0, 1][:n])
                r._prediction, r._fitted = preds[j], True
            if not any(any(a) for a in acts): return   # nothing to evaluate: may be refused
        if what == "ownset": rules[0].set_thresholds(L.limits(env, {"coverage": {"min": 1}}, "own.json"))
        Rule.SET_THRESHOLDS(L.limits(env, d))
        kw = dict(criterion_method="mse") if kind == "reg" and op == "eval" else {}
        if op == "fit": dropped = rs.fit(np.array(list(y)), L.data(env, acts))
        else:
            bad0 = None
            xx = L.data(env, acts) if what in ("evalnew", "evalkeep") else None
            if what == "evalkeep": kw["keep_new_activations"] = True
            try: dropped = rs.eval(np.array(list(y)), xx, **kw)
            except ValueError:
                # the set may be left with rules which are activated nowhere
                left = [rules.index(r) for r in rs]
                if any(any(acts[j]) for j in left): raise
                return
        bad = []
        for j in range(k):
            on = [i for i in range(n) if acts[j][i]]
            v = {"coverage": len(on) / n if what != "evalnew" else 1.0, "train_set_size": n, "nones": len(on) if what != "evalnew" else n}
            if kind == "reg":
                yy = [y[i] for i in on]
                m = env.div(env.sum(yy), len(yy)) if yy else env.nan
                if op == "eval": m = preds[j]
                v["prediction"] = m
                if "std" in str(full): v["std"] = env.nan if not yy else 0 if len(yy) == 1 else env.sqrt(env.div(env.sum([(x - m) * (x - m) for x in yy]), len(yy) - 1))
                if "zscore" in full:
                    if not yy: v["zscore"] = env.nan
                    else:
                        my = env.div(env.sum(y), n)
                        s = env.sqrt(env.div(env.sum([(x - my) * (x - my) for x in y]), n))
                        env.exclude(s == 0)
                        v["zscore"] = env.div(env.abs(m - my), env.sqrt(1 / len(yy)) * s)
                v["criterion"] = None if op == "fit" else env.nan if not yy else env.div(env.sum([(x - m) * (x - m) for x in yy]), len(yy))
                if sfit and "std" in str(full) and len(yy) == 1: env.exclude(True)  # C13: alike with at least two activated targets
            else:
                cs = [y[i] for i in on]
                p = env.nan if not cs else 1 if sum(cs) * 2 > len(cs) else 0
                if op == "eval": p = preds[j]
                v["prediction"] = p
                v["criterion"] = None if op == "fit" else env.nan if not cs else sum(1 for c in cs if c == p) / len(cs)
            lims = full if what != "ownset" or j else {"coverage": {"min": 1}}
            broken = {}
            for a, x in lims.items():
                val = v.get(a)
                x = dict(x)
                if x.pop("arg", None) == "abs" and not bool(env.isnan(val)): val = env.abs(val)
                x = {q: v[l] if isinstance(l, str) else l for q, l in x.items()}
                if any(bool(env.isnan(l)) for l in x.values()): x = {}
                broken[a] = bool(breaks(env, val, x))
            b = any(broken.values())
            bad.append(b)
            env.require_eq(rules[j].good, not b, "rule %s flagged" % op)
            if b: env.require(rules[j].bad_because in broken and broken[rules[j].bad_because], "the reason given is not a broken limit")
        env.require_eq([rules.index(r) for r in rs], [j for j in range(k) if not bad[j]], "rules kept")
        env.require_eq([rules.index(r) for r in dropped], [j for j in range(k) if bad[j]], "rules returned as dropped")
        env.require_eq([any(r is q for q in rules) for r in list(rs) + list(dropped)], [True] * k, "rules replaced by others")
        if what == "stackkeep" and len(rs): env.require_eq(len(rs.stacked_activations.columns), len(rs), "stacked activations")
    finally:
        RuleSet.STACKED_FIT = False
        Rule.THRESHOLDS = None
