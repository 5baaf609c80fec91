#!/usr/bin/env python3
"""check.py PROP: decides one property on /repo's current tree.

The deciding step: every obligation generated from the real source of the functions in
the property's cone is discharged by the provers. Beside it a bounded concrete search runs
on the real code: it supplies the failing input for a refuted obligation, and stands in
(labelled bounded, never counted as proved) for functions the verifier cannot translate.
Exit 0: held on everything explored; 1: VIOLATION line."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
ORACLE = os.path.join(HERE, "replay", "oracle.py")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))

TRUSTED = [
    "pyvc (the symbolic executor in /verif/pyvc): its reading of Python and of the built-in list, tuple, dict, set and SortedDict operations",
    "the SMT solvers z3 and cvc5",
    "networkx Graph/MultiGraph/DiGraph methods as specified in pyvc (not verified)",
    "numbers are mathematical reals (rounding is not modelled); times are finite and begin <= end for every edge",
    "node labels are hashable non-container values or strings, with == an equivalence that agrees with hash",
]


# functions a property is about that no contract reaches: covered by the bounded search alone
BOUNDED_ONLY = {}


class Search:
    """the concrete search, in the background"""
    def __init__(self, prop, seed, seconds, n):
        self.ps = []
        env = dict(os.environ, PYTHONHASHSEED="0", VERIF_REPO=REPO)
        for i in range(n):
            cmd = ["bash", "-c", "ulimit -v 6000000; exec \"$@\"", "x", PY, ORACLE, "search", prop, "%s.%d" % (seed, i), str(seconds)]
            self.ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd="/tmp"))
        self.end = time.time() + seconds + 60

    def found(self):
        """has one of the searches ended with a case?"""
        return any(p.poll() == 1 for p in self.ps)

    def results(self, wait=True):
        out, errs = [], []
        for p in self.ps:
            try:
                o, e = p.communicate(timeout=max(1, self.end - time.time()) if wait else 1)
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
            try:
                out.append(json.loads(o))
            except ValueError:
                errs.append((e or "no output")[-1500:])
        return out, errs

    def stop(self):
        for p in self.ps:
            if p.poll() is None:
                p.kill()
        for p in self.ps:
            p.wait()


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 700 if tier == "quick" else 3000
    quick_s = 25 if tier == "quick" else 300
    searches, errs = [], []
    s1 = Search(prop, seed, quick_s, 1 if tier == "quick" else 3)

    status, results, note = "ok", [], None
    tasks, err = [], None
    try:
        from pyvc.load import load, digest
        from pyvc import specs_all
        from pyvc.verify import run_task, Result
        from pyvc.runner import run_all
        loaded = load()
        tasks = specs_all.cone(prop)
    except Exception as x:                       # unreadable source: nothing can be proved
        err = "%s: %s" % (type(x).__name__, x)

    state = {"fail_at": None, "s2": None}

    class Enough(Exception):
        pass

    def on_result(i, r):
        results.append(r)
        if r.status == "failed" and state["fail_at"] is None:
            state["fail_at"] = time.time()
            state["s2"] = Search(prop, "x%d" % seed, 90 if tier == "quick" else 300, 2)

    def dead(i, why):
        r = Result(tasks[i].id)
        r.status, r.reason = "undecided", why
        return r

    def stop_early():
        if state["fail_at"] is None:
            return s1.found() and time.time() - t0 > 60
        if (state["s2"].found() or s1.found()) and time.time() - state["fail_at"] > 5:
            return True
        return time.time() - state["fail_at"] > 100

    if tasks:
        run_all(lambda: (tasks, lambda t: run_task(t, loaded)), range(len(tasks)),
                procs=int(os.environ.get("VERIF_PROCS", "8")), task_timeout=300 if tier == "quick" else 900,
                deadline=t0 + limit, on_result=on_result, dead=dead, stop=stop_early)
    failed = [r for r in results if r.status == "failed"]
    undecided = [r for r in results if r.status not in ("ok", "failed")]
    ok = [r for r in results if r.status == "ok"]
    if (undecided or err or not ok) and not failed and not s1.found():
        # bounded stand-in for what could not be translated or decided
        budget = max(20, min(120, limit - (time.time() - t0)))
        state["s2"] = Search(prop, "y%d" % seed, budget if not s1.found() else 5, 7)
    case, evals, distinct, samples = None, 0, 0, []
    for s in (s1, state["s2"]):
        if s is None:
            continue
        if case is not None:
            s.stop()
            continue
        out, e = s.results()
        errs += e
        for o in out:
            evals += o["evaluations"]
            distinct += o["distinct"]
            if o.get("sample"):
                samples.append(o["sample"])
            if o["case"] is not None and case is None:
                case = o
    obligations = sum(len(r.obligations) for r in results) + len(undecided)
    discharged = sum(1 for r in results for o in r.obligations if o[1] == "unsat")
    by = {}
    for r in results:
        for k, v in r.by.items():
            by[k] = by.get(k, 0) + v
    coverage = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "cd /verif && python3-vt check.py %s" % prop,
        "trusted_base": TRUSTED,
        "contracts_checked": len(results), "contracts_proved": len(ok),
        "functions_under_contract": sorted({f for t in tasks for f in getattr(t, "functions", [t.cls + "." + t.method])}),
        "bounded_only": BOUNDED_ONLY.get(prop, []),
        "functions_inlined_into_them": sorted({f for r in results for f in r.inlined}),
        "contracts_assumed_at_call_sites": sorted({f for r in results for f in r.used}),
        "undecided": [{"task": r.id, "why": r.reason} for r in undecided][:60],
        "failed": [{"task": r.id, "obligation": r.reason} for r in failed][:60],
        "paths": sum(r.paths for r in results), "paths_reachable": sum(r.covered for r in results),
        "queries": sum(r.queries for r in results), "solver_seconds": round(sum(r.solver_s for r in results), 1),
        "discharged_by_full_query": by,
        "slowest_task_seconds": max([round(r.seconds, 1) for r in results] or [0]),
        "bounded_search": {"evaluations": evals, "distinct_nontrivial": distinct, "seconds": quick_s,
                           "rule": "random histories of at most 12 updates over at most 6 node labels and small times on the real code, "
                                   "each compared with an executable reference model; non-trivial: the written-out case is longer than 150 characters",
                           "samples": samples[:2], "errors": errs[:3],
                           "note": "bounded, not counted as proved"},
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": "see bounded_search", "samples": samples[:2],
    }
    if err:
        coverage["error"] = err
    violation = case is not None or bool(failed)
    level = "proof" if ok and not undecided and not err else "exploration"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": TRUSTED + ["contracts_assumed_at_call_sites are discharged by the tasks of those methods, in the check of the property they belong to"],
          "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    os.makedirs(EVID, exist_ok=True)
    rc = 0
    if violation:
        rp = os.path.join(EVID, "replay_%s.json" % prop)
        rec = {"property": prop, "case": case["case"] if case else None,
               "disagreements": case["failures"] if case else [],
               "failed_obligations": [dict(r.failure or {}, task=r.id) for r in failed],
               "obligations_not_discharged": [{"task": r.id, "why": r.reason} for r in undecided][:40],
               "how_to_replay": "PYTHONHASHSEED=0 %s %s replay %s" % (PY, ORACLE, rp)}
        with open(rp, "w") as f:
            json.dump(rec, f, indent=1)
        for r in failed[:5]:
            print("failed obligation: %s | %s" % (r.id, r.reason))
        for r in undecided[:5]:
            print("obligation not discharged: %s | %s" % (r.id, r.reason))
        if case:
            print("failing input:", json.dumps(case["case"])[:2000])
            for b in case["failures"][:3]:
                print("  disagrees:", str(b)[:500])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if case else " no-failing-input-found"))
        rc = 1
    else:
        for k in known(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d contracts, %d proved, %d undecided, %d failed; %d/%d obligations; %d concrete cases; %.0f s"
          % (prop, len(results), len(ok), len(undecided), len(failed), discharged, obligations, evals, time.time() - t0))
    for r in undecided[:5]:
        print("undecided (bounded search stands in): %s | %s" % (r.id, r.reason))
    sys.exit(rc)


def known(prop):
    try:
        lines = open(os.path.join(HERE, "known_findings.txt")).read().splitlines()
    except OSError:
        return []
    return [l.split(" ", 2)[2] for l in lines if l.startswith("known: property=%s " % prop)]


if __name__ == "__main__":
    main()
