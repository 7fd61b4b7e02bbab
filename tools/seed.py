"""Confirms planted bugs in a scratch copy and writes /verif/seeded/<id>/. Usage: seed.py FILE.py  (FILE defines BUGS: dicts id, property, edits [(file, old, new)], demo (python), needs, breaks)"""
import os, shutil, subprocess, sys, json, tempfile, importlib.util
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
DEMO = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
TMPDIR="$T" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$D/demo.py" "$T"
'''
HEAD = '''import sys, logging
import numpy as np, pandas as pd
from pathlib import Path
logging.disable(logging.CRITICAL)
import ruleskit
from ruleskit import Activation, HyperrectangleCondition, RegressionRule, ClassificationRule, RuleSet
Activation.DEFAULT_TEMPDIR = Path(sys.argv[1])
def C(j, lo, hi): return HyperrectangleCondition([j], bmins=[lo], bmaxs=[hi], features_names=["ABCDE"[j]])
def check(x, msg):
    if not x:
        print("WRONG:", msg)
        sys.exit(1)
def close(a, b): return abs(a - b) < 1e-9
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passing", [])) if False else None
only = sys.argv[2:]
for b in m.BUGS:
    if only and b["id"] not in only: continue
    work = tempfile.mkdtemp(prefix="seed")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), repo, symlinks=True)
        d = os.path.join(work, "seed"); os.mkdir(d)
        open(d + "/demo.sh", "w").write(DEMO); open(d + "/demo.py", "w").write(HEAD + b["demo"])
        r0 = run("bash %s/demo.sh" % d, repo)
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) != 1: bad = "edit matches %d times: %s" % (s.count(old), old); break
            open(p, "w").write(s.replace(old, new))
        if bad: print(b["id"], "BAD", bad); continue
        r1 = run("bash %s/demo.sh" % d, repo)
        t = run("mkdir -p {0}/tmp; TMPDIR={0}/tmp PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 0 tests 2>&1 | tail -4".format(work), repo)
        if "passed" not in t.stdout: t = run("mkdir -p {0}/tmp; TMPDIR={0}/tmp PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -4".format(work), repo)
        ok = r0.returncode == 0 and r1.returncode != 0 and "2 failed, 413 passed" in t.stdout  # the two fail without the bug as well
        print(b["id"], b["property"], "OK" if ok else "REJECTED", "demo", r0.returncode, r1.returncode, (r1.stdout.strip().splitlines() or r1.stderr.strip().splitlines() or [""])[-1][:100], "|", t.stdout.strip().splitlines()[-1][:80], "" if r0.returncode == 0 else r0.stdout[-300:] + r0.stderr[-500:])
        if ok:
            out = os.path.join(H, "seeded", b["id"])
            os.makedirs(out, exist_ok=True)
            diff = run("git diff -- ruleskit", repo).stdout
            open(out + "/patch.diff", "w").write(diff)
            shutil.copy(d + "/demo.sh", out); shutil.copy(d + "/demo.py", out)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
    finally: shutil.rmtree(work)
