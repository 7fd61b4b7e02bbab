#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--replay FILE] [--case SUBSTR] [--jobs N] [-v]"""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import argparse, collections, json, time, importlib, multiprocessing as mp, queue, traceback, logging
logging.disable(logging.CRITICAL)
from engine import core
import z3
from engine import harness
import pandas  # preload before forking

KNOWN = os.path.join(HERE, "known_findings.json")


def known_findings(pid):
    try: d = json.load(open(KNOWN))
    except FileNotFoundError: return []
    return [k for k in d.get("known", []) if k["property"] == pid]


def is_known(ks, v):
    for k in ks:
        if k["case"] in v["case"] and k["failure"] in (v["failure"] or ""): return k
    return None


def worker(modname, tier, inq, outq):
    try:
        mod = importlib.import_module("props." + modname)
        run = harness.Runner(mod, tier)
        import gc
        gc.collect(); gc.freeze(); gc.set_threshold(30000, 20, 20)
        while True:
            t = inq.get()
            if t is None: return
            idx, name, params, prefixes, budget, rep = t
            try:
                r = run.slice(name, params, prefixes, budget, rep)
            except BaseException as e:
                r = dict(crash=traceback.format_exc(), case=name)
                if isinstance(e, KeyboardInterrupt): raise
            r["idx"] = idx
            outq.put(r)
    except KeyboardInterrupt:
        pass


def explore(mod, tier, cases, jobs, deadline, verbose):
    ctx = mp.get_context("fork")
    inq, outq = ctx.Queue(), ctx.Queue()
    procs = [ctx.Process(target=worker, args=(mod.__name__.split(".")[-1], tier, inq, outq), daemon=True) for _ in range(jobs)]
    for p in procs: p.start()
    rep = getattr(mod, "REPLAY_EVERY", {"quick": 10, "thorough": 20})[tier]
    todo = [(i, n, p, [[]]) for i, (n, p) in enumerate(cases)]
    todo.reverse()
    todo = collections.deque(todo)     # every case gets a first slice before any gets a second one
    inflight = 0
    tot = dict(paths=0, decided=0, proved=0, partial=0, infeasible=0, candidates=0, validated=0, rejected=0)
    stats = {}
    funcs, notes, inc, mism, samples, crashes = set(), {}, [], [], [], []
    violations, percase = [], {}
    cap = getattr(mod, "MAX_PATHS", {"quick": 8000, "thorough": 60000})[tier]
    npaths = {}
    cut = {}
    ran = 0
    last = time.time()
    known = known_findings(mod.ID)
    while todo or inflight:
        while todo and inflight < jobs * 2:
            i, n, p, pre = todo.pop()
            if time.time() > deadline or npaths.get(i, 0) > cap:
                cut[n] = cut.get(n, 0) + len(pre)
                continue
            inq.put((i, n, p, pre, 1.5 if tier == "quick" else 4.0, rep))
            inflight += 1
        if not inflight: break
        try:
            r = outq.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in procs): crashes.append("all workers died"); break
            dead = [p for p in procs if not p.is_alive()]
            if dead and time.time() - last > 240:
                crashes.append("worker died"); break
            if time.time() > deadline + 180:
                crashes.append("overran"); break
            continue
        last = time.time()
        inflight -= 1
        i = r["idx"]
        if "crash" in r:
            crashes.append(r["crash"][-1500:])
            continue
        for k in tot: tot[k] += r[k]
        ran += r["ran"]
        for k, v in r["stats"].items(): stats[k] = stats.get(k, 0) + v
        funcs |= r["functions"]
        for k, v in r["notes"].items(): notes[k] = notes.get(k, 0) + v
        inc += [(r["case"], x) for x in r["inconclusive"]]
        mism += [(r["case"], x) for x in r["mismatches"]]
        samples += [dict(case=r["case"], inputs=s) for s in r["samples"]]
        npaths[i] = npaths.get(i, 0) + r["paths"]
        pc = percase.setdefault(r["case"], [0, 0, 0.0])
        pc[0] += r["paths"]; pc[1] += r["decided"]; pc[2] += r["wall"]
        if r["violation"]:
            v = r["violation"]
            v["idx"] = i
            k = is_known(known, v)
            violations.append((k, v))
            if k is None: break
        if r["rest"]:
            rest = r["rest"]
            # split for balance
            h = max(1, (len(rest) + 2) // 3)
            name, params = cases[i]
            for j in range(0, len(rest), h): todo.appendleft((i, name, params, rest[j:j + h]))
    for p in procs: p.kill()
    for p in procs: p.join(1)
    return dict(tot=tot, stats=stats, funcs=funcs, notes=notes, inc=inc, mism=mism, samples=samples, crashes=crashes, violations=violations,
                percase=percase, cut=cut, ran=ran)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--time", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    mod = importlib.import_module("props." + a.prop.lower())
    pid = mod.ID
    if a.replay:
        d = json.load(open(a.replay))
        r = harness.run_concrete(mod, dict(mod.cases(d.get("tier", "quick")))[d["case"]] if d.get("params") is None else d["params"], d["values"])
        print("inputs:", json.dumps(d["values"]))
        print("FAILED: %s" % (r.fail or r.exc) if harness.has_failed(r) else "not reproduced")
        if r.tb: print(r.tb)
        return 1 if harness.has_failed(r) else 0
    cases = mod.cases(tier)
    if a.case: cases = [c for c in cases if a.case in c[0]]
    budget = a.time or getattr(mod, "BUDGET", {"quick": 300, "thorough": 780})[tier]
    res = explore(mod, tier, cases, a.jobs, t0 + budget, a.v)
    tot, st = res["tot"], res["stats"]
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level="model_checking",
        coverage=dict(states=tot["paths"], transitions=int(st.get("forks", 0)), traces_validated_against_impl=tot["validated"],
                      samples=res["samples"][:12] or ["none"]),
        wall_s=round(time.time() - t0, 2))
    cov = ev["coverage"]
    cov["technique"] = "symbolic execution of /repo/ruleskit (current source) with SMT discharge (z3 %s)" % z3.get_version_string()
    cov["functions_encoded"] = sorted(res["funcs"])
    cov["bounds"] = mod.BOUNDS[tier]
    cov["paths"] = tot
    cov["queries"] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in st.items()}
    cov["cases"] = len(cases)
    cov["cases_cut_short"] = {k: v for k, v in list(res["cut"].items())[:40]}
    cov["inconclusive"] = len(res["inc"])
    cov["runs_of_the_real_code"] = res["ran"]
    inc = {}
    for c, x in res["inc"]: inc.setdefault(x[:160], []).append(c)
    cov["inconclusive_reasons"] = {k: len(v) for k, v in list(inc.items())[:20]}
    cov["notes"] = res["notes"]
    cov["encoding_mismatches"] = res["mism"][:5]
    ev["assumptions"] = [x for x in [getattr(mod, "ASSUMES", "")] if x] + ["Floats are exact extended reals; numpy, pandas, bitarray and file operations are modelled (engine/), models validated by replaying path witnesses on the real libraries."]
    ev["violations"] = len([1 for k, v in res["violations"] if k is None])
    rc = 0
    unknown = [v for k, v in res["violations"] if k is None]
    for k, v in res["violations"]:
        if k is not None: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if unknown:
        v = unknown[0]
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s.json" % pid)
        name, params = cases[v["idx"]]
        try: json.dumps(params); jp = params
        except TypeError: jp = None
        json.dump(dict(property=pid, tier=tier, case=name, params=jp, values=v["values"], failure=v["failure"], traceback=v["traceback"],
                       how="cd /verif && /opt/venv/bin/python check.py %s --replay %s" % (pid, rp)), open(rp, "w"), indent=1)
        print("case %s: %s" % (name, v["failure"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    elif tot["decided"] == 0:
        cov["nothing_decided"] = "no path could be encoded to its end; the harness was only run on the real code for models of path prefixes"
        print("nothing decided")
        rc = 0 if res["ran"] else 2
    cov["violations"] = [dict(case=v["case"], failure=v["failure"], known=bool(k)) for k, v in res["violations"]][:10]
    if res["crashes"]: cov["crashes"] = res["crashes"][:3]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", "%s.json" % pid), "w"), indent=1, default=str)
    print("%s %s: cases=%d paths=%d decided=%d complete=%d validated=%d rejected=%d inconclusive=%d mismatches=%d cut=%d queries=%d solver=%.1fs wall=%.1fs" % (
        pid, tier, len(cases), tot["paths"], tot["decided"], tot["proved"], tot["validated"], tot["rejected"], len(res["inc"]), len(res["mism"]),
        sum(res["cut"].values()), st.get("queries", 0), st.get("solver_s", 0), time.time() - t0))
    if a.v:
        for k, v in sorted(res["percase"].items(), key=lambda x: -x[1][2])[:15]: print("   case", k, v)
        for k, v in list(inc.items())[:12]: print("   INC", len(v), v[0], k if not a.v else [x for c, x in res["inc"] if x[:160] == k][0])
        for m in res["mism"][:5]: print("   MISM", m)
        print("   notes", res["notes"])
        for c in res["crashes"][:2]: print("   CRASH", c)
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
