"""Runs verification tasks and collects obligations."""
import time, traceback, sys
from .load import load, digest
from .core import *
from .logic import *
from .graph_engine import GEngine, Picks


class Result:
    def __init__(self, id):
        self.id, self.obligations, self.status, self.reason, self.paths, self.covered = id, [], "ok", None, 0, 0
        self.inlined, self.used, self.seconds = [], [], 0.0
        self.failure, self.queries, self.solver_s, self.by = None, 0, 0.0, {}

    def as_dict(self):
        return dict(self.__dict__)


def run_task(task, loaded=None, max_fail=1):
    Solver.cache.clear()
    Solver.keep.clear()
    Picks.clear()
    mods, classes = loaded or load()
    eng = getattr(task, "engine", GEngine)(mods, classes)
    res = Result(task.id)
    t0 = time.time()
    q0, s0 = Solver.queries, Solver.seconds
    Solver.by = {}

    class Stop(Exception):
        pass

    def on_obligation(name, ctx, f):
        if f is None:
            res.obligations.append((name, "unsat", "trivial"))
            return
        st, who = Solver.check(ctx + [Not(f)])
        res.obligations.append((name, st, who))
        if st != "unsat":
            try:
                goal = str(Not(f))[:6000]
            except Exception:
                goal = "?"
            res.failure = {"obligation": name, "answer": st, "solver_output": str(who)[:8000], "negated_goal": goal, "hypotheses": len(ctx)}
            raise Stop()
    eng.on_obligation = on_obligation

    def path_end():
        res.paths += 1
        if not Solver.quick_unsat(eng.ctx(), 400000):
            res.covered += 1
        else:
            raise Infeasible()
    eng.path_end = path_end
    try:
        task.run(eng)
        if not res.covered:
            res.status, res.reason = "vacuous", "no path of the method is reachable under the precondition"
        elif not res.obligations:
            res.status, res.reason = "vacuous", "no obligation was generated"
    except Stop:
        res.status = "failed"
        res.reason = res.obligations[-1][0]
    except Unsupported as e:
        res.status, res.reason = "unsupported", str(e)
        if __import__("os").environ.get("PYVC_TRACE"):
            traceback.print_exc()
    except (RecursionError, z3.Z3Exception, AttributeError, AssertionError, TypeError, KeyError, ValueError, IndexError) as e:
        res.status, res.reason = "unsupported", "%s: %s" % (type(e).__name__, e)
        if __import__("os").environ.get("PYVC_TRACE"):
            traceback.print_exc()
    res.inlined = sorted(eng.inlined)
    res.used = sorted(eng.used_contracts)
    res.seconds = time.time() - t0
    res.queries, res.solver_s, res.by = Solver.queries - q0, Solver.seconds - s0, dict(Solver.by)
    return res
