"""Runs verification tasks in worker processes: a worker that dies or overruns is replaced
and its task retried once, so that a solver crash is never taken for an answer."""
import multiprocessing as mp
from multiprocessing.connection import wait
import os, time


def worker(conn, make):
    tasks, run = make()
    while True:
        try:
            i = conn.recv()
        except EOFError:
            return
        if i is None:
            return
        try:
            r = run(tasks[i])
        except MemoryError:
            os._exit(3)
        conn.send(r)


def run_all(make, ids, procs=None, task_timeout=300, deadline=None, on_result=None, dead=None, stop=None):
    """make() -> (tasks, run); ids: indices to run. Yields nothing; calls on_result(i, result).
    dead(i, why) -> result recorded for a task that could not be run."""
    procs = procs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    todo = list(ids)[::-1]
    tries = {}
    live = {}                      # conn -> [process, task, start]
    out = {}

    def finish(i, r):
        out[i] = r
        if on_result:
            on_result(i, r)

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, make), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, 0, 0]
        return a

    def give(a):
        if todo:
            i = todo.pop()
            live[a][1:3] = [i, time.time()]
            a.send(i)
            return True
        try:
            a.send(None)
        except OSError:
            pass
        p = live.pop(a)[0]
        p.join(5)
        a.close()
        return False

    def lose(a, why):
        p, i = live.pop(a)[:2]
        p.kill()
        p.join()
        a.close()
        if i is not None:
            tries[i] = tries.get(i, 0) + 1
            if tries[i] < 2 and why == "died":
                todo.append(i)
            else:
                finish(i, dead(i, why) if dead else None)

    for _ in range(min(procs, len(todo))):
        give(start())
    while live:
        for a in wait(list(live), timeout=1):
            try:
                r = a.recv()
            except (EOFError, OSError):
                lose(a, "died")
                if todo and len(live) < procs:
                    give(start())
                continue
            finish(live[a][1], r)
            live[a][1] = None
            live[a][3] += 1
            if live[a][3] >= 40 and todo:      # a fresh process keeps memory low
                p = live.pop(a)[0]
                a.send(None)
                p.join(5)
                a.close()
                give(start())
            else:
                give(a)
        now = time.time()
        for a in [a for a, v in live.items() if v[1] is not None and now - v[2] > task_timeout]:
            lose(a, "overran %d s" % task_timeout)
            if todo and len(live) < procs:
                give(start())
        if stop and stop():
            for a in list(live):
                p = live.pop(a)[0]
                p.kill()
                p.join()
            return out
        if deadline and now > deadline:
            for a in list(live):
                lose(a, "the time for the check ran out")
            for i in todo:
                finish(i, dead(i, "the time for the check ran out") if dead else None)
            todo = []
    return out
