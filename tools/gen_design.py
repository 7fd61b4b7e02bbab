"""Writes /verif/DESIGN.md from tools/design_head.md, the properties, the harnesses' bounds, /repo's fixes and tools/seed_results.json."""
import importlib, json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
HOW = {
 "C01": ("`Activation.__init__` and every init/convert/compress/decompress method is executed on vectors of symbolic bits, for every input form, every setting of the class and both values of `optimize`; the sizes the system reports (`sys.getsizeof`, file sizes), which choose the storage format, are unconstrained, so all format decisions are explored.", "oracle: the list of bits itself; exports are decoded by an independent decoder in the harness (`props/actlib.py`)."),
 "C02": ("As C01, then the statistics are asked in every order of the first questions, so that every caching path of `_nones`, `_entropy`, `_coverage` is taken.", "oracle: counts over the bits."),
 "C03": ("Both operands symbolic, in every pair of stored formats; `multi_logical_*` with free memory a symbolic value, so the low-memory and chunked branches are explored.", "oracle: the Boolean operation per position; operands are re-read afterwards."),
 "C04": ("`__contains__` and `get_correlation` of vectors in every pair of formats and of rules with any non-zero real predictions.", "oracle: implication per position; the number of equal positions over the length."),
 "C05": ("Every statistic, export, size and timing is asked first and then all the others, with forced profiling on and off; histories of operations on file vectors where the random file names may collide (symbolic).", "oracle: contents, statistics and class settings before = after; a copy equals the original and survives its deletion."),
 "C06": ("`HyperrectangleCondition.evaluate` on matrices of symbolic extended reals (NaN, infinities) with symbolic bounds.", "oracle: finite and within both bounds for every feature."),
 "C07": ("`__and__` of two or three conditions, then `evaluate` of the result and of the operands on symbolic observations; `Rule.__and__` with activations.", "oracle: conjunction of the two closed boxes; operands' attributes compared before and after."),
 "C08": ("Creation in every listing order, both sortings, sorting again, item access, replacing bounds; equality and hash of two conditions with symbolic bounds.", "oracle: dictionary feature -> (index, lower, upper)."),
 "C09": ("`RegressionRule.fit` on symbolic targets (NaN flags symbolic) and any activation.", "oracle: mean, unbiased deviation, sign and z-score written out over the activated targets (non-linear real arithmetic)."),
 "C10": ("`ClassificationRule.fit` / `eval` on symbolic integer or real classes, or texts chosen symbolically.", "oracle: counting; first class in class order among the most frequent."),
 "C11": ("`Rule.predict` on symbolic data or stored activations.", "oracle: prediction where inside the box, NaN elsewhere, index of the data; state of the rule and data compared before and after."),
 "C12": ("`calc_regression_criterion` and the functions below it, for one vector and for several, and through `Rule.eval` and `RuleSet.calc_criterion`.", "oracle: the defining formulas (denominators checked non-zero), the median by symbolic sorting."),
 "C13": ("The same symbolic data is fitted and evaluated by both methods in one path and the results compared (relational).", "oracle: the other method; the individual method is tied to definitions by C09, C10 and C12."),
 "C14": ("`RuleSet.predict`, both methods, on symbolic predictions and weights.", "oracle: weighted mean over the activated rules with usable weight."),
 "C15": ("`RuleSet.predict` of classification rules, both methods, classes chosen symbolically, weights symbolic.", "oracle: vote counting over the activated rules; ties abstain."),
 "C16": ("Histories of operations chosen symbolically on a rule set whose rules have symbolic activation bits; data for fitting and evaluating is symbolic as well.", "oracle: a ghost map from rule to its current bits; union, coverage and columns recomputed after each operation."),
 "C17": ("`Thresholds.__call__`, `check_thresholds`, and `fit` / `eval` of rule sets with symbolic limits and measures; limits files are written to and read from the modelled file system.", "oracle: the list of violated limits."),
 "C18": ("`save` then `load` through the modelled CSV writer and reader, numbers being symbolic inside the text.", "oracle: attribute-wise equality, prediction on a symbolic observation by both sets."),
 "C19": ("`extract_rules_from_tree` on tree arrays of every shape in the bounds with symbolic thresholds, ranges and values.", "oracle: a direct traversal of the arrays by the symbolic observation."),
 "C20": ("`sort`, `==`, `in`, `check_duplicated_rules` on rules with symbolic bounds and predictions; sorting a symbolic list forks on comparisons.", "oracle: order relation between neighbours + permutation; equality as mutual inclusion."),
 "C21": ("Training state is recorded, then symbolic evaluations and predictions on new data are run and the state compared.", "oracle: state before = after; criterion from the fitted predictions on the new activations."),
 "C22": ("Histories as in C16 (what is dropped is decided by symbolic activation bits); the table of feature numbers is a symbolic permutation.", "oracle: union and counts over the features of the rules the set then holds."),
 "C23": ("Deletion and clearing of vectors, rules' and rule sets' activations with symbolic bits, any statistics asked before.", "oracle: statistics of the bits; availability flags; files present in the modelled file system."),
 "C24": ("Rules with symbolic bounds and bits; one or two assignments in every order, then evaluation on a symbolic point, so any gap between what the rule shows and what its condition does has a witness.", "oracle: the assigned bounds applied to the point, the statistics of the bits, the documented exceptions."),
 "C25": ("Lengths, repetitions, types and numbers of columns are symbolic choices, bounds symbolic reals; the constructors and guards are executed for all of them.", "oracle: well-formedness written out independently; exactly the ill-formed ones must raise."),
 "C26": ("Bounds, predictions and targets are symbolic reals (or short lists of numbers told apart by their last digits), features, orders, numbers of rules and of lines symbolic choices; a number put in a text becomes a token standing for it, so equal texts mean equal numbers; the texts are built by the real code.", "oracle: the text put together from the features, bounds and predictions by the harness."),
}
WHY = "Tests sample a handful of vectors and tables; here every value (and every branch it can take) within the bounds is covered."
out = [open(H + "/tools/design_head.md").read(), "\n## 2. Properties\n\nEvery property is decided this way; none is listed as not applicable. " + WHY + "\n"]
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)
    m = importlib.import_module("props." + p["id"].lower())
    how, oracle = HOW[p["id"]]
    out.append("### %s %s\n\n%s %s\n\n* Bounds, quick: %s.\n* Bounds, thorough: %s.\n* Assumptions: %s\n" % (p["id"], p["title"], how, oracle[0].upper() + oracle[1:], m.BOUNDS["quick"], m.BOUNDS["thorough"], getattr(m, "ASSUMES", "") or "none."))
    e = H + "/tools/costs.json"
    c = json.load(open(e)).get(p["id"]) if os.path.exists(e) else None
    if c: out.append("* Cost (8 cores): " + "; ".join("%s %s" % (t, c[t]) for t in ("quick", "thorough") if t in c) + ".\n")
log = [l for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines() if " fix:" in l]
out.append("\n## 3. Genuine defects found and repaired\n\nEach was shown by a counterexample replayed on the real code and repaired by a minimal commit (%d); all listed in known_findings.json as fixed. No finding is left open.\n" % len(log))
out += ["* " + l for l in log]
out.append(open(H + "/tools/design_tail.md").read())
r = json.load(open(H + "/tools/seed_results.json")) if os.path.exists(H + "/tools/seed_results.json") else {}
out.append("\n### Which checks catch which planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % i))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), r.get(i, "")))
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
