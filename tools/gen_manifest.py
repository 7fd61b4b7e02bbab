"""Writes /verif/MANIFEST.json from the properties and the harnesses present, and the 'fixed' list of known_findings.json from /repo's log."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % i, thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % i,
                           technique="symbolic execution of the current Python source, z3 deciding every assertion, counterexamples replayed on the real code",
                           level="model_checking",
                           level_note="All inputs within the bounds stated in the evidence file and DESIGN.md. Floats are exact extended reals; numpy, pandas and bitarray operations are modelled, the models being compared with the real libraries on a witness of the explored paths in every run.",
                           evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason="no harness built yet for this property"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py", checks=checks, not_applicable=na,
               notes="Shared engine in engine/, one harness per property in props/, driver check.py. See DESIGN.md."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
PID = {"replaces its rule type": "C22", "stacked activations are available": "C16", "multi_logical_xor": "C03", "text of a classification rule": "C26", "activation of a rule is None": "C23", "activation of a rule set is None": "C23", "forgets the features": "C22", "features indexes of its rules": "C22", "refusing a rule goes": "C22", "assigning bounds or features": "C24", "activated nowhere is NaN": "C21", "are no longer ignored": "C17", "success rate of a rule set": "C21", "refer to an attribute": "C17", "votes for a class": "C15", "mae_norm divides": "C12", "classes named 'zero'": "C10", "upper bound of the parent": "C19", "n_features_ of": "C19", "stacked vote": "C15", "stacked fit of a class": "C13", "sort a rule set": "C20",
       "stack the activations": "C16", "recompute the activation": "C16", "do not drop a good": "C17", "drop each bad": "C17", "infinite bounds or measures": "C18", "names of loaded": "C18",
       "loaded coverage": "C18", "whose class name": "C18", "test set size": "C18", "average of predictions in unstacked": "C14", "activated nowhere has": "C10", "thresholds set for one": "C17",
       "Rule.get_correlation": "C04", "one-row DataFrame": "C11", "truncate long class": "C11", "compare class prob": "C10", "decimals of bounds": "C08", "resets the impossible": "C08",
       "compare conditions by": "C08", "single point": "C01", "lasy activations a length": "C02", "int32 holds": "C01", "containment of": "C04", "does not overwrite": "C05",
       "draw another file": "C05", "binary text": "C01", "__add__ computes": "C03", "keep the length in": "C03"}
EXTRA = json.load(open(os.path.join(H, "tools", "fix_props.json"))) if os.path.exists(os.path.join(H, "tools", "fix_props.json")) else {}
PID.update(EXTRA)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    ps = [v for k, v in PID.items() if k in s]
    if not ps: print("no property for", s); continue
    fixed.append("fixed: property=%s %s %s" % (ps[0], h, s[5:]))
kf = os.path.join(H, "known_findings.json")
d = json.load(open(kf)) if os.path.exists(kf) else {"known": []}
if fixed: d["fixed"] = fixed
json.dump(d, open(kf, "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
