"""Runs the checks against the planted bugs: applies each to /repo, runs the check of its property, undoes it. Usage: runseeds.py [id ...]"""
import os, subprocess, sys, json, time, re
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
orig = subprocess.run("git -C %s log --format=%%H --reverse | head -1" % REPO, shell=True, capture_output=True, text=True).stdout.strip()
mine = {l.split()[0] for l in subprocess.run(["git", "-C", REPO, "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if l.split(None, 1)[1] .startswith("fix:")}
ids = sys.argv[1:] or sorted(os.listdir(H + "/seeded"))
res = {}
for i in ids:
    d = os.path.join(H, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    # lines removed by the patch must be the original repository's
    f, warn, ln = None, [], 0
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1)); continue
        elif l.startswith("-"):
            b = subprocess.run(["git", "-C", REPO, "blame", "-s", "-l", "-L", "%d,%d" % (ln, ln), f], capture_output=True, text=True).stdout
            warn.append(b.split()[0].lstrip("^")[:39] in {x[:39] for x in mine})
            ln += 1
        elif not l.startswith("+"): ln += 1
    if os.environ.get("DRY"): print(i, prop, "NOT-ORIGINAL" if any(warn) else ""); continue
    r = subprocess.run(["git", "-C", REPO, "apply", d + "/patch.diff"], capture_output=True, text=True)
    if r.returncode: print(i, "DOES NOT APPLY", r.stderr[:200]); continue
    t = time.time()
    try: r = subprocess.run(["/opt/venv/bin/python", "check.py", prop, "--tier", "quick"] + (["--jobs", os.environ["JOBS"]] if "JOBS" in os.environ else []), cwd=H, capture_output=True, text=True, timeout=900)
    finally: subprocess.run(["git", "-C", REPO, "checkout", "--", "."])
    out = r.stdout
    c = r.returncode == 1 and "VIOLATION property=%s" % prop in out
    res[i] = c
    print("%-18s %s %s %5.0fs %s" % (i, prop, "caught" if c else "MISSED rc=%d" % r.returncode, time.time() - t, [l for l in out.splitlines() if l.startswith("case")][:1] if c else out[-300:]), "NOT-ORIGINAL" if any(warn) else "", flush=True)
print(sum(res.values()), "of", len(res))
