"""A pool of worker processes which survives the loss of a worker and gives up on a case that runs away.

A rewritten program may be correct and yet take forever to compile at one size, or exhaust the memory: such a case is given up (and
reported as not explored) instead of leaving the whole check without an answer."""
import multiprocessing as mp
import time
from multiprocessing import connection

from . import core


def _work(here, conn):
    core.worker_init(here)
    conn.send(("ready", None))
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        conn.send(("done", core.run_case(*job)))


class Worker:
    def __init__(self, ctx, here):
        self.conn, child = ctx.Pipe()
        self.proc = ctx.Process(target=_work, args=(here, child), daemon=False)
        self.proc.start()
        child.close()
        self.idx = None
        self.since = time.time()

    def give(self, prop, idx, case):
        self.idx, self.since = idx, time.time()
        self.conn.send((prop, case))

    def stop(self):
        try:
            self.proc.kill()
        except Exception:
            pass
        self.conn.close()


def run(here, prop, cases, order, jobs, deadline, limit, on_result):
    """calls on_result(index, result) until it returns True or everything is finished; -> dict(status, slow, died)"""
    ctx = mp.get_context("spawn")
    todo, again, slow, died = list(order), [], [], []
    todo.reverse()
    workers = [Worker(ctx, here) for _ in range(min(jobs, max(1, len(todo))))]
    idle, status, starts = [], "done", 0
    try:
        while True:
            if not todo and again and not any(w.idx is not None for w in workers):
                todo, again = again, []  # cases whose worker died, once more, on half of the workers
                for w in workers[max(1, jobs // 2):]:
                    w.stop()
                workers = workers[:max(1, jobs // 2)]
                idle = [w for w in idle if w in workers]
            while idle and todo:
                w = idle.pop()
                i = todo.pop()
                w.give(prop, i, cases[i])
            if not todo and not again and not any(w.idx is not None for w in workers):
                break
            now = time.time()
            if now > deadline:
                status = "timeout"
                break
            ready = connection.wait([w.conn for w in workers], timeout=2.0)
            for w in [w for w in workers if w.conn in ready]:
                try:
                    kind, val = w.conn.recv()
                except (EOFError, OSError):
                    workers.remove(w)
                    w.stop()
                    if w.idx is None:
                        starts += 1
                        if starts > 20:
                            return dict(status="broken", slow=slow, died=died)
                    elif w.idx in died:
                        pass
                    else:
                        (died if cases[w.idx].get("_died") else again).append(w.idx)
                        cases[w.idx]["_died"] = True
                    workers.append(Worker(ctx, here))
                    continue
                if kind == "done":
                    i, w.idx = w.idx, None
                    if on_result(i, val):
                        return dict(status="violated", slow=slow, died=died)
                idle.append(w)
            now = time.time()
            for w in list(workers):
                if w.idx is not None and now - w.since > cases[w.idx].get("limit", limit):
                    slow.append(w.idx)
                    workers.remove(w)
                    w.stop()
                    workers.append(Worker(ctx, here))
        return dict(status=status, slow=slow, died=died)
    finally:
        for w in workers:
            w.stop()
