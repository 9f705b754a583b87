"""Runs many simulations, finds the first violation, minimises it, replays it.

One run is a pure function of (scenario, options, decisions).  The decisions come
from a seed, or from a replay file.  Runs are spread over worker processes; which
process executes a run has no influence on it (each is executed in a fork of a process that has executed none), and the violation that is reported
is the one with the lowest index, so the number of processes has none either.
"""
import gc
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import resource
import signal
import sys
import time

from . import forks, scenarios, taps
from .chooser import Chooser

CPU_LIMIT = 60.0  # seconds of processor time for one run; an ordinary one takes 0.1
MEMORY_LIMIT = 6 << 30


class Hang(BaseException):
    """The code under test does not come back."""


def _on_alarm(signum, frame):
    raise Hang()


def execute(job, cfg=None, ev=None):
    """One run.  job: scenario, options, force, seed, props."""
    ch = Chooser(job["seed"], cfg=cfg, ev=ev, force=job.get("force"))
    out = None
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        out = getattr(scenarios, job["scenario"])(ch, frozenset(job["props"]), **job["options"])
    except Hang:
        out = scenarios.Outcome()
        out.died = {"type": "Hang", "where": "?", "kind": "code", "traceback": "",
                    "message": "no progress within %g s of processor time" % CPU_LIMIT}
    except MemoryError:
        out = scenarios.Outcome()
        out.died = {"type": "MemoryError", "where": "?", "kind": "code", "traceback": "", "message": "out of memory"}
    except Exception as e:
        out = scenarios.Outcome()
        d = scenarios.describe(e)
        out.harness = d["type"] + ": " + d["message"] + "\n" + d["traceback"]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        taps.set_current(None)
    out.decisions = ch.decisions()
    return out


ALL = frozenset("C%02d" % i for i in range(1, 27))


def verdict(job, out):
    """What a run says about the property: None, or a dict with code and message."""
    prop = job["property"]
    if out.viol is not None and out.viol["property"] == prop:
        return {"class": "violation", "code": out.viol["code"], "message": out.viol["message"]}
    if out.died is not None:
        code = "died:%s@%s" % (out.died["type"], out.died["where"])
        own = prop == "C02" or (prop == "C12" and out.died.get("after_resume"))
        return {"class": "violation" if own else "run-died", "code": code,
                "message": "the run died with %s: %s (in %s)" % (out.died["type"], out.died["message"],
                                                                  out.died["where"])}
    if out.harness is not None:
        return {"class": "harness", "code": "harness", "message": out.harness}
    return None


def judged(job, cfg=None, ev=None):
    """Execute and judge.  A harness error in a run that breaks some property is a consequence of that."""
    out = execute(job, cfg, ev)
    v = verdict(job, out)
    if v is not None and v["class"] == "harness":
        d = out.decisions
        other = execute(dict(job, props=ALL), d["cfg"], d["ev"])
        if other.viol is not None or other.died is not None:
            what = "%s/%s: %s" % (other.viol["property"], other.viol["code"], other.viol["message"]) if other.viol \
                else other.died["message"]
            v = {"class": "run-died", "code": "derailed:" + (other.viol["code"] if other.viol else "died"),
                 "message": "the run could not be followed to its end; it breaks %s" % what}
    return out, v


# -- many runs ------------------------------------------------------------------------------------

def _quiet_unraisable(*a):
    pass


def _worker(conn, jobs):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    sys.unraisablehook = _quiet_unraisable
    gc.freeze()
    while True:
        idx = conn.recv()
        if idx is None:
            break
        try:
            conn.send((idx, forks.apart(_report, jobs[idx])))
        except forks.Died:
            break
    os._exit(0)


def _report(job):
    out, v = judged(job)
    return {"verdict": v, "stats": out.stats, "saw": sorted(out.saw), "simtime": out.simtime, "nevals": out.nevals,
            "steps": out.steps, "trace": out.trace, "digest": out.digest, "skipped": out.skipped,
            "decisions": out.decisions if v else None}


def _attempt(job, cfg, ev):
    out, v = judged(job, cfg, ev)
    return out.decisions, v


def sweep(jobs, procs, deadline=None, stop=True):
    """Execute jobs; returns {index: result}. Stops early at the first violation."""
    ctx = mp.get_context("fork")
    results, todo, limit = {}, 0, len(jobs)
    busy, conns = {}, {}
    late = False

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, jobs), daemon=True)
        sys.stdout.flush()
        sys.stderr.flush()
        p.start()
        b.close()
        conns[a] = p
        return a

    def feed(c):
        nonlocal todo, late
        if deadline is not None and time.monotonic() > deadline:
            late = True
        if todo < limit and not late:
            c.send(todo)
            busy[c] = todo
            todo += 1
            return True
        try:
            c.send(None)
        except OSError:
            pass
        conns.pop(c).join(5)
        return False

    for _ in range(max(1, min(procs, len(jobs)))):
        feed(spawn())
    while busy:
        for c in mpc.wait(list(busy), timeout=5):
            idx = busy.pop(c)
            try:
                i, res = c.recv()
            except (EOFError, OSError):
                conns.pop(c).join(5)
                results[idx] = {"verdict": {"class": "harness", "code": "worker-died",
                                            "message": "the process executing the run died"}, "stats": {}, "saw": [],
                                "simtime": 0, "nevals": 0, "steps": 0, "trace": "", "digest": "", "skipped": None,
                                "decisions": None}
                if todo < limit:
                    feed(spawn())
                continue
            results[i] = res
            if stop and res["verdict"] and res["verdict"]["class"] == "violation":
                limit = min(limit, i)
            feed(c)
    return results, late


def in_child(fn, timeout):
    """fn() in a forked process; None if it does not answer."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)

    def main():
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
        sys.unraisablehook = _quiet_unraisable
        b.send(fn())
        os._exit(0)

    p = ctx.Process(target=main, daemon=True)
    sys.stdout.flush()
    p.start()
    b.close()
    res = None
    try:
        if a.poll(timeout):
            res = a.recv()
    except (EOFError, OSError):
        pass
    if p.is_alive():
        p.kill()
    p.join(10)
    return res


# -- minimisation ------------------------------------------------------------------------------

def minimise(job, decisions, want, max_runs=400, seconds=60.0):
    """Smaller decisions with the same verdict."""
    end = time.monotonic() + seconds
    state = {"runs": 0, "best": {"cfg": dict(decisions["cfg"]), "ev": list(decisions["ev"])}}

    def attempt(cfg, ev):
        if state["runs"] >= max_runs or time.monotonic() > end:
            return False
        best = state["best"]
        if cfg == best["cfg"] and ev == best["ev"]:
            return False
        state["runs"] += 1
        try:
            d, v = forks.apart(_attempt, job, cfg, ev)
        except forks.Died:
            return False
        if v is None or (v["class"], v["code"]) != want:
            return False
        d["cfg"] = {k: x for k, x in d["cfg"].items() if x}
        state["best"] = d
        return True

    def shrink_list(get, build, drop):
        """Make parts of a list disappear, in chunks of decreasing size."""
        n = len(get())
        size = max(n // 2, 1)
        while size >= 1:
            i = 0
            while i < len(get()):
                cur = get()
                new = drop(cur, i, i + size)
                if new == cur or not attempt(*build(new)):
                    i += size
                elif len(get()) >= len(cur):
                    i += size
            size //= 2
            if state["runs"] >= max_runs or time.monotonic() > end:
                return

    best = lambda: state["best"]
    attempt({}, best()["ev"])
    for _ in range(2):
        before = repr(best())
        # configuration: the plainest option
        shrink_list(lambda: sorted(best()["cfg"]),
                    lambda keys: ({k: best()["cfg"][k] for k in keys}, best()["ev"]),
                    lambda c, i, j: c[:i] + c[j:])
        # events: stop early, leave out, make benign
        ev = best()["ev"]
        k = len(ev) // 2
        while k < len(best()["ev"]):
            if attempt(best()["cfg"], best()["ev"][:k]):
                k = len(best()["ev"]) // 2
            else:
                k += max(1, (len(best()["ev"]) - k) // 2 + 1)
        for drop in (lambda c, i, j: c[:i] + [0] * (min(j, len(c)) - i) + c[j:], lambda c, i, j: c[:i] + c[j:]):
            shrink_list(lambda: best()["ev"], lambda new: (best()["cfg"], new), drop)
        # large numbers
        for key in sorted(best()["cfg"]):
            while best()["cfg"].get(key, 0) > 1:
                if not attempt(dict(best()["cfg"], **{key: best()["cfg"][key] // 2}), best()["ev"]):
                    break
        if repr(best()) == before:
            break
    return best(), state["runs"]
