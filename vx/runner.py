"""Runs the tasks of one property in parallel processes, and reports."""
import gc
import json
import os
import pickle
import resource
import signal
import sys
import time
import traceback
from .load import Imprecise
from .task import Result, MissingAnchor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VX_PROCS", "8"))
MEM = 6 << 30


class Task:
    def __init__(self, name, fn, args=(), kw=None, deadline=420, weight=1):
        self.name, self.fn, self.args, self.kw = name, fn, args, kw or {}
        self.deadline, self.weight = deadline, weight


def child(task, w):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    sys.setrecursionlimit(20000)
    gc.disable()
    res = Result(task.name)
    try:
        task.fn(res, *task.args, **task.kw)
    except MissingAnchor as e:
        res.violation(task.name, "public operation %s is gone" % e, str(e))
    except Imprecise as e:
        res.undecided(task.name, "imprecise: %s at %s" % (str(e)[:300], "; ".join(str(x) for x in (e.where or [])[:3])[:400]))
    except (RecursionError, MemoryError) as e:
        res.undecided(task.name, "resources: %r" % (e,))
    except Exception:
        res.undecided(task.name, "analysis stopped: " + traceback.format_exc()[-800:])
    d = res.data()
    try:
        b = pickle.dumps(d)
    except Exception as e:
        b = pickle.dumps({"name": task.name, "obl": [(task.name, "undecided", "result: %r" % (e,))], "viol": [], "stats": {}})
    with os.fdopen(w, "wb") as f:
        f.write(b)


def run(tasks, total=600, stop_on_violation=True):
    """-> list of result dicts"""
    t0 = time.time()
    todo = sorted(tasks, key=lambda t: -t.weight)
    live = {}
    out = []
    import select
    fail = False
    while todo or live:
        while todo and len(live) < NPROC and not (fail and stop_on_violation):
            t = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    import ctypes
                    ctypes.CDLL(None).prctl(1, signal.SIGKILL)     # die with the parent
                except Exception:
                    pass
                code = 0
                try:
                    child(t, w)
                except BaseException:
                    code = 3
                os._exit(code)
            os.close(w)
            live[r] = [t, pid, time.time(), b""]
        if fail and stop_on_violation:
            for t in todo:
                out.append({"name": t.name, "obl": [(t.name, "undecided", "not started: a violation was already found")], "viol": [], "stats": {}})
            todo = []
        if not live:
            break
        rd, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for r in rd:
            b = os.read(r, 1 << 20)
            if b:
                live[r][3] += b
                continue
            t, pid, ts, buf = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                d = pickle.loads(buf)
            except Exception:
                d = {"name": t.name, "obl": [(t.name, "undecided", "the analysis process ended without an answer")], "viol": [], "stats": {}}
            d["wall"] = round(now - ts, 1)
            out.append(d)
            if d["viol"]:
                fail = True
        for r in list(live):
            t, pid, ts, buf = live[r]
            if now - ts > t.deadline or now - t0 > total or (fail and stop_on_violation):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                why = "stopped: a violation was already found" if fail else "time limit of %d s" % t.deadline
                out.append({"name": t.name, "obl": [(t.name, "undecided", why)], "viol": [], "stats": {}, "wall": round(now - ts, 1)})
        if now - t0 > total:
            for t in todo:
                out.append({"name": t.name, "obl": [(t.name, "undecided", "time limit of the check")], "viol": [], "stats": {}})
            todo = []
    return out
