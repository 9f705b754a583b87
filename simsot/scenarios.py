"""Scenarios: what one simulated run of a property consists of."""
import copy
import hashlib
import io
import json
import logging
import os
import pickle
import random
import subprocess
import sys
import traceback
import warnings

import dill
import numpy as np
import scipy.linalg

import pySOT
import pySOT.utils
from poap.controller import Controller
from pySOT.controller import CheckpointController
from pySOT.strategy import (
    DYCORSStrategy, EIStrategy, LCBStrategy, RandomStrategy, SOPStrategy, SRBFStrategy)
from pySOT.surrogate import median_capping

from . import forks, specs, taps
from .chooser import Chooser
from .oracle import Oracle, compare_strategies, diff_multiset, digest, load_snapshot, rows, same_point, short
from .simfs import InjectedOSError, SimCrash, SimFS
from .world import (
    ChaosController, EvalFailed, NoProgress, SimInterrupt, StopRun, Stuck, World, make_controller)

REPO = os.path.dirname(os.path.dirname(os.path.abspath(pySOT.__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
np.seterr(all="ignore")


def _cap_genetic_algorithm():
    """A tuning knob of the simulation: small populations, or every EI/LCB proposal takes 0.3 s."""
    ga = pySOT.utils.GeneticAlgorithm
    init = ga.__init__

    def __init__(self, *a, **k):
        if "pop_size" in k:
            dim = k["dim"] if "dim" in k else a[1]
            k["pop_size"] = min(k["pop_size"], max(20, 3 * dim))  # the first population is a symmetric design
        if "num_gen" in k:
            k["num_gen"] = min(k["num_gen"], 5)
        init(self, *a, **k)

    ga.__init__ = __init__


_cap_genetic_algorithm()


class Died(Exception):
    pass


class Outcome(object):
    """What came out of one simulated run."""

    def __init__(self):
        self.viol = None  # dict
        self.died = None  # dict: the code under test raised
        self.skipped = None  # str: outside the documented preconditions
        self.harness = None  # str: the harness raised
        self.stats = {}
        self.saw = set()
        self.simtime = 0.0
        self.nevals = 0
        self.steps = 0
        self.trace = ""  # digest of the interleaving
        self.digest = ""  # digest of everything observable
        self.log = []  # the schedule and the faults
        self.decisions = None

    def merge_world(self, w):
        for k, v in w.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.simtime += w.now
        self.nevals += w.nevals
        self.steps += w.ticks


def blame(exc):
    """(where, kind): kind is 'code', 'harness' or 'injected'."""
    seen, e = set(), exc
    frames = []
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, (InjectedOSError,)):
            return "injected", "injected"
        frames = traceback.extract_tb(e.__traceback__) + frames
        e = e.__cause__ or e.__context__
    # the innermost frame of the first exception that belongs to somebody
    tb = exc
    seen = set()
    while (tb.__cause__ or tb.__context__) is not None and id(tb) not in seen:
        seen.add(id(tb))
        tb = tb.__cause__ or tb.__context__
    for f in reversed(traceback.extract_tb(tb.__traceback__)):
        name = os.path.abspath(f.filename)
        if name.startswith(HERE + os.sep):
            return "%s:%s" % (os.path.basename(name), f.name), "harness"
        if name.startswith(REPO + os.sep) or "/poap/" in name:
            return "%s:%s" % (os.path.basename(name), f.name), "code"
    return "?", "harness"


def describe(exc):
    root, seen = exc, set()
    while (root.__cause__ or root.__context__) is not None and id(root) not in seen:
        seen.add(id(root))
        root = root.__cause__ or root.__context__
    where, kind = blame(exc)
    return {"type": type(root).__name__, "where": where, "kind": kind, "message": str(root)[:300],
            "traceback": "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]}


def make_strategy(spec, tapped=True):
    prob = spec["prob"]
    kind = spec["strategy"]
    if kind == "random":
        return RandomStrategy(max_evals=spec["max_evals"], opt_prob=prob)
    transform = {None: None, "clip-median": median_clip, "in-place": clip_in_place}[spec["transform"]]
    shared = spec.get("shared") or {}
    sur = taps.make_surrogate(spec["surrogate"], prob, transform, tapped, parts=shared.get("parts"))
    key = (spec["design"], prob.dim, spec["num_pts"])
    des = shared.get(key) or taps.make_design(*key)
    if shared:
        shared[key] = des
    des = taps.TapDesign(des)
    kw = dict(max_evals=spec["max_evals"], opt_prob=prob, exp_design=des, surrogate=sur, asynchronous=spec["async"],
              batch_size=spec["batch"], use_restarts=spec["restarts"], extra_points=spec["extra_args"][0],
              extra_vals=spec["extra_args"][1])
    if kind == "srbf":
        return SRBFStrategy(weights=spec["weights"], num_cand=spec["num_cand"], **kw)
    if kind == "dycors":
        return DYCORSStrategy(weights=spec["weights"], num_cand=spec["num_cand"], **kw)
    if kind == "sop":
        kw["batch_size"] = min(spec["batch"], spec["ncenters"])
        spec["batch"] = kw["batch_size"]
        return SOPStrategy(ncenters=spec["ncenters"], num_cand=spec["num_cand"], **kw)
    big = spec["tol"]
    if kind == "ei":
        return EIStrategy(ei_tol=big, dtol=spec["dtol"], **kw)
    if spec["kappa"] is not None:
        kw["kappa"] = spec["kappa"]
    return LCBStrategy(lcb_tol=big, dtol=spec["dtol"], **kw)


def median_clip(fX):
    """An output transformation as in the examples: values above the median are clipped."""
    fX = fX.copy()
    med = np.median(fX)
    fX[fX > med] = med
    return fX


def clip_in_place(fX):
    """The same, but works on the array it is given."""
    fX[fX > np.median(fX)] = np.median(fX)
    return fX


def tick_limit(spec):
    return 400 + 60 * (spec["max_evals"] + spec["faults"] + spec["rejects"])


def seed_numpy(spec):
    np.random.seed(spec["npseed"] % (2 ** 32))
    random.seed(spec["npseed"])


def best_of(oracle):
    return min((e.value for e in oracle.completed), default=None)


def check_result(o, result):
    """The record that run() returns."""
    props = ("C03", "C12") if o.incarnation else "C03"
    best = best_of(o)
    if best is None:
        if result is not None:
            o.fail(props, "best", "a best point is returned although no evaluation completed")
        return
    if result is None:
        o.fail(props, "best", "no best point is returned after %d completed evaluations" % len(o.completed))
        return
    if float(result.value) != best:
        o.fail(props, "best", "returned point has value %r, the best evaluation %r" % (float(result.value), best))
    if not any(e.value == best and same_point(e.x, result.params[0]) for e in o.completed):
        o.fail(props, "best", "returned point %s was never evaluated to its value" % short(result.params[0]))


def finish(out, oracle, world, exc=None):
    """Turn the end of a simulated process into an outcome."""
    out.merge_world(world)
    out.saw |= oracle.saw
    if oracle.sop is not None:
        out.saw |= oracle.sop.saw
        if oracle.sop.lost:
            out.saw.add("SOP model gave up: " + oracle.sop.lost)
    if oracle.shared["viol"] is not None:
        out.viol = oracle.shared["viol"]
    elif exc is not None:
        d = describe(exc)
        if isinstance(exc, (Stuck, NoProgress)) or d["type"] in ("Stuck", "NoProgress"):
            d["kind"] = "code"
        alone = oracle.spec["strategy"] == "sop" and len(set(tuple(e.x) for e in oracle.completed)) < 2
        if d["type"] == "LinAlgError" and oracle.degenerate() or d["type"] == "ValueError" and alone:
            out.skipped = "evaluated points do not determine the surrogate"
            out.stats["skipped_degenerate_design"] = 1
        elif d["kind"] == "code":
            out.died = d
        else:
            out.harness = d["type"] + ": " + d["message"] + "\n" + d["traceback"]


def seal(out, world):
    out.log = world.trace
    out.trace = hashlib.sha1(repr(world.trace).encode()).hexdigest()[:16]
    out.digest = hashlib.sha1(repr((world.trace, world.points, out.viol, out.died and out.died["type"])).encode()
                              ).hexdigest()[:16]
    return out


def general(ch, props, stop=False, when=None, **kw):
    """One optimization run on an unreliable set of workers."""
    spec = specs.build(ch, **kw)
    out = Outcome()
    world = World(ch, spec, spec["objective"])
    world.tick_limit = tick_limit(spec)
    oracle = Oracle(world, spec, props)
    if stop:
        oracle.stop_when = ch.pick("stop_when", when) if when else ch.pick(
            "stop_when", [None] + Oracle.SITUATIONS[:-1] + ["rejected"], [9] + 10 * [1])
        oracle.stop_at = ch.pick("stop_at", [0, 1, 2, 4] + list(range(6, 60))) if oracle.stop_when is None else \
            ch.pick("stop_after", [0, 1, 3])
    taps.set_current(oracle)
    seed_numpy(spec)
    exc = None
    try:
        strategy = make_strategy(spec)
        controller = make_controller(spec["controller"], world, spec["workers"])
        controller.strategy = strategy
        result = controller.run()
        oracle.check_finished()
        check_result(oracle, result)
    except StopRun:
        pass
    except Exception as e:
        exc = e
    finally:
        taps.set_current(None)
    finish(out, oracle, world, exc)
    return seal(out, world)


def stopping(ch, props, **kw):
    """The user asks for the end of the run at an arbitrary moment."""
    kw.setdefault("strategies", ["srbf", "dycors", "sop", "ei", "lcb", "srbf"])  # the random strategy has no such flag
    return general(ch, props, stop=True, **kw)


# -- checkpoints ----------------------------------------------------------------------

ENDS = ["event", "io", "interrupt", "iofail", "finish", "situation"]


def crashing(ch, props, ends=None, max_crashes=3, stopw=(6, 1), **kw):
    """A checkpointed run that dies several times and is resumed."""
    kw.setdefault("strategies", ["srbf", "dycors", "sop", "ei", "lcb", "srbf"])
    kw.setdefault("bweights", [3, 5, 1])
    spec = specs.build(ch, **kw)
    spec["reraise"] = spec["controller"] == "serial" and ch.pick("reraise", [False, True])
    kinds = ["chaos", "thread", "team", "serial"]
    if spec["controller"] == "serial":
        kinds = ["serial"]
    ncrash = 1 + ch.pick("crashes", range(max_crashes), [3, 3, 2][:max_crashes])
    out = Outcome()
    fs = SimFS(buffer_size=ch.pick("buffer", [8192, 1024, 65536]))
    name = ch.pick("name", ["run.pysot", "sub/run.chk", "with space.pysot"])
    os.makedirs(os.path.join(fs.root, os.path.dirname(name)), exist_ok=True)
    relative = ch.pick("relative", [False, True])
    fname = name if relative else os.path.join(fs.root, name)
    shared = {"rid": 0, "states": {}, "viol": None, "designs": []}
    traces, points = [], []
    cwd = os.getcwd()
    os.chdir(fs.root)
    fresh, over = True, False
    inc = 0
    world = None
    try:
        while True:
            last = inc >= ncrash
            end = "none" if last else ch.pick("end%d" % inc, ENDS, [4, 4, 2, 2, 1, 4])
            if ends is not None and not last:
                end = ends[ENDS.index(end) % len(ends)]
            spec["controller"] = ch.pick("controller%d" % inc, kinds)
            world = World(ch, spec, spec["objective"], fs)
            world.tick_limit = tick_limit(spec)
            oracle = Oracle(world, spec, props, shared)
            oracle.saver = (fs, name)
            if not last and ch.pick("stop%d" % inc, [False, True], stopw):  # the user stops the run, and resumes it later
                oracle.stop_at = ch.pick("stop_at%d" % inc, range(60))
            plan = {}
            for _ in range(ch.pick("shorts%d" % inc, [0, 2, 6])):
                plan[ch.ev_(120)] = ("short", ch.ev_(97))
            if end == "event":
                world.crash_at = 1 + ch.pick("at%d" % inc, range(90))
            elif end == "interrupt":
                world.interrupt_at = 1 + ch.pick("at%d" % inc, range(90))
            elif end == "io":
                plan[ch.pick("io%d" % inc, range(160))] = ("crash", ch.ev_(97))
            elif end == "situation":
                oracle.die_when = [ch.pick("situation%d" % inc, Oracle.SITUATIONS, [3, 3, 1, 2, 2, 1, 1, 1, 2, 0.5]),
                                    ch.pick("pass%d" % inc, [0, 1, 2, 5, 12], [6, 2, 1, 1, 1])]
            elif end == "iofail":
                first = ch.pick("io%d" % inc, range(120))
                for k in range(1 + ch.pick("iorun%d" % inc, [0, 1, 7])):
                    plan[first + k] = (ch.pick("ioerr%d" % inc, ["enospc", "eio"]), ch.ev_(97))
            fs.plan = plan
            taps.set_current(oracle)
            exc, result, died_at = None, None, None
            finished_before = over
            try:
                with fs:
                    seed_numpy(dict(spec, npseed=spec["npseed"] + 7919 * inc))
                    controller = make_controller(spec["controller"], world, spec["workers"])
                    ck = CheckpointController(controller, fname)
                    if fresh:
                        oracle.shared["states"] = {}
                        shared["last_saved"], shared["saves"] = None, 0
                        controller.strategy = make_strategy(spec)
                        oracle.remember()
                        result = ck.run()
                    else:
                        data = fs.read(name)
                        st = identify(oracle, data)
                        oracle.after_crash(st, inc, getattr(load_snapshot(data), "phase", 1) == 1)
                        oracle.remember()
                        result = ck.resume()
                    over = True
                oracle.saver = (fs, name)
                oracle.check_finished()
                if "C11" in props:
                    oracle.check_checkpoint("at the end of the run")
                check_result(oracle, result)
                shared["last_saved"] = oracle.key()
                if finished_before and world.nevals and not oracle.shared.get("short_run"):
                    oracle.fail("C12", "resumed-finished", "resuming a finished run evaluates %d more points"
                                % world.nevals)
                shared["short_run"] = len(oracle.completed) < spec["max_evals"]
            except StopRun:
                pass
            except SimCrash:
                died_at = "crash"
            except SimInterrupt:
                died_at = "interrupt"
            except Exception as e:
                if isinstance(e, EvalFailed) and spec["reraise"]:
                    died_at = "raise"
                    world.count("objective_exception_ends_run")
                elif describe(e)["kind"] == "injected":
                    died_at = "iofail"
                else:
                    exc = e
            finally:
                taps.set_current(None)
            traces.append(tuple(world.trace))
            points.append(tuple(world.points))
            if shared["viol"] is not None or exc is not None:
                if exc is not None and inc:
                    shared.setdefault("died_after_resume", True)
                finish(out, oracle, world, exc)
                break
            out.merge_world(world)
            out.saw |= oracle.saw
            if last:
                break
            # the machine comes back
            power = died_at == "crash" and ch.pick("power%d" % inc, [False, True], [2, 1])
            if died_at is not None:
                out.saw.add("died: " + died_at)
                over = False
            fs.reboot(power, ch.ev_)
            fresh = check_disk(oracle, fs, name, died_at, power)
            if shared["viol"] is not None:
                out.viol = shared["viol"]
                break
            inc += 1
        for k, v in fs.fired.items():
            out.stats[k] = out.stats.get(k, 0) + v
    finally:
        os.chdir(cwd)
        fs.destroy()
    if shared.get("died_after_resume") and out.died is not None:
        out.died["after_resume"] = True
    world.trace, world.points = traces, points
    return seal(out, world)


def identify(oracle, data):
    """The model state that a checkpoint is a snapshot of, or None."""
    snap = load_snapshot(data)
    nfail = sum(1 for r in snap.fevals if not r.is_completed)
    key = (snap.num_evals, nfail)
    for save in (oracle.shared.get("saved", {}).get(digest(data)), oracle.shared.get("unfinished save")):
        if save is not None and save[0] == key:
            return save[1]
    cands = oracle.shared["states"].get(key)
    if not cands:
        return None
    pend = [(r, 0.0) for r in rows(snap.Xpend)]
    have = list(zip(rows(snap.X), [float(v) for v in np.ravel(snap.fX)]))

    def quality(st):
        return (bool(diff_multiset(known_part(oracle.spec) + [(tuple(e.x), e.value) for e in st["completed"]], have)),
                bool(diff_multiset([(tuple(e.x), 0.0) for e in st["inflight"].values()], pend)))
    return min(reversed(cands), key=quality)


def known_part(spec):
    return [(tuple(np.ravel(x)), float(np.ravel(v)[0])) for x, v in spec["extra_known"]]


def check_disk(oracle, fs, name, died_at, power):
    """After a crash: the checkpoint is absent (never saved) or a complete snapshot.  True if absent."""
    shared = oracle.shared
    try:
        data = fs.read(name)
        saves = shared.get("saves", 0)
        if data is None:
            if saves > (1 if power else 0):
                oracle.fail("C10", "checkpoint-lost", "the checkpoint is gone after a crash (%d had been saved)" % saves)
            return True
        try:
            snap = load_snapshot(data)
            key = (snap.num_evals, sum(1 for r in snap.fevals if not r.is_completed))
        except Exception as e:
            oracle.fail(("C10", "C12"), "checkpoint-torn", "after a crash (%s%s) the checkpoint cannot be loaded: %s: %s"
                        % (died_at, ", power loss" if power else "", type(e).__name__, str(e)[:200]))
            return True
        st = identify(oracle, data)
        if st is None:
            oracle.fail(("C10", "C12"), "checkpoint-unknown", "after a crash the checkpoint holds %d completed and %d "
                        "failed evaluations, a state the run was never in" % key)
            return True
        last = shared.get("last_saved")
        if last is not None and not power and sum(key) < sum(last):
            oracle.fail(("C10", "C11"), "checkpoint-old", "after a crash the checkpoint holds %d finished evaluations, "
                        "%d had been saved" % (sum(key), sum(last)))
        want = known_part(oracle.spec) + [(tuple(e.x), e.value) for e in st["completed"]]
        d = diff_multiset(want, list(zip(rows(snap.X), [float(v) for v in np.ravel(snap.fX)])))
        if d:
            oracle.fail("C10", "checkpoint-content", "after a crash the checkpoint's history is wrong: %s" % d)
        shared["last_saved"] = key
        shared["saves"] = max(saves, 1)
    except StopRun:
        pass
    return False


# -- run() and resume() guard the checkpoint file ------------------------------------------

def guarded(ch, props):
    """run() with an existing file and resume() without one, at arbitrary points of a checkpoint's life."""
    spec = specs.build(ch, strategies=["srbf", "dycors", "sop", "srbf", "lcb", "srbf"], bweights=[3, 1, 0])
    out = Outcome()
    fs = SimFS()
    world = World(ch, spec, spec["objective"], fs)
    world.tick_limit = tick_limit(spec)
    shared = {"rid": 0, "states": {}, "viol": None, "designs": []}
    oracle = Oracle(world, spec, props, shared)
    name = ch.pick("name", ["run.pysot", "sub/run.chk", "checkpoint.pysot"])
    os.makedirs(os.path.join(fs.root, os.path.dirname(name)), exist_ok=True)
    relative = ch.pick("relative", [False, True])
    fname = name if relative else os.path.join(fs.root, name)
    what = ch.pick("what", ["run over a dead run", "run over a finished run", "run over foreign data",
                            "run over an empty file", "resume without a file", "resume with temporary file only"])
    cwd = os.getcwd()
    os.chdir(fs.root)
    exc = None

    def controller(strategy=True):
        c = make_controller(spec["controller"], world, spec["workers"])
        if strategy:
            c.strategy = make_strategy(spec)
        return c

    def snapshot():
        return {f: fs.read(f) for f in fs.listing()}

    try:
        with fs:
            taps.set_current(oracle)
            seed_numpy(spec)
            if what in ("run over a dead run", "run over a finished run"):
                if what == "run over a dead run":
                    world.interrupt_at = 1 + ch.pick("at", range(40))
                oracle.props = frozenset()
                try:
                    CheckpointController(controller(), fname).run()
                    if what == "run over a dead run":
                        what = "run over a finished run"
                except SimInterrupt:
                    pass
                world.interrupt_at = None
                oracle = Oracle(world, spec, props, shared)
                taps.set_current(oracle)
            elif what == "run over foreign data":
                with open(fname, "wb") as f:
                    f.write(b"precious user data" * (1 + ch.pick("size", range(4))))
            elif what == "run over an empty file":
                with open(fname, "wb") as f:
                    pass
            elif what == "resume with temporary file only":
                d, b = os.path.split(fname)
                with open(os.path.join(d, "temp_" + b), "wb") as f:
                    f.write(b"torn")
            out.saw.add(what)
            before, evals, rid = snapshot(), world.nevals, shared["rid"]
            repeat = 1 + ch.pick("repeat", [0, 1])
            for _ in range(repeat):
                err = None
                ck = CheckpointController(controller(), fname)
                try:
                    (ck.run if what.startswith("run") else ck.resume)()
                except OSError as e:
                    err = e
                if err is None:
                    oracle.fail("C13", "not-refused", "%s: no error is raised" % what)
                if world.nevals != evals or shared["rid"] != rid:
                    oracle.fail("C13", "evaluated", "%s: %d evaluations were started"
                                % (what, shared["rid"] - rid))
                if snapshot() != before:
                    oracle.fail("C13", "file-changed", "%s: files changed from %s to %s" % (
                        what, {k: len(v) for k, v in before.items()}, {k: len(v) for k, v in snapshot().items()}))
    except StopRun:
        pass
    except Exception as e:
        exc = e
    finally:
        taps.set_current(None)
        os.chdir(cwd)
        fs.destroy()
    world.log(what)
    finish(out, oracle, world, exc)
    return seal(out, world)


# -- reproducibility -------------------------------------------------------------------------

def one_run(ch, props, spec_kw, checkpoint=None):
    """A complete run; returns (outcome, oracle, world)."""
    spec = specs.build(ch, **spec_kw)
    out = Outcome()
    world = World(ch, spec, spec["objective"], checkpoint)
    world.tick_limit = tick_limit(spec)
    oracle = Oracle(world, spec, props)
    taps.set_current(oracle)
    exc = None
    try:
        seed_numpy(spec)
        strategy = make_strategy(spec)
        controller = make_controller(spec["controller"], world, spec["workers"])
        if checkpoint is not None:
            ck = CheckpointController(controller, os.path.join(checkpoint.root, "run.pysot"))
            with checkpoint:
                controller.strategy = strategy
                ck.run()
        else:
            controller.strategy = strategy
            controller.run()
    except StopRun:
        pass
    except Exception as e:
        exc = e
    finally:
        taps.set_current(None)
    finish(out, oracle, world, exc)
    return out, oracle, world


def reproducible(ch, props, processes=False, **kw):
    """The same seed and the same schedule give the same run, with or without checkpoints."""
    how = ch.pick("how", ["again", "checkpointed"])
    if processes:
        how = "in another process"
    kw.setdefault("bweights", [2, 5, 1])
    kw["strategies"] = ["srbf", "dycors", "sop", "ei", "lcb", "random"]
    if how == "checkpointed":
        kw["strategies"] = ["srbf", "dycors", "sop", "ei", "lcb", "srbf"]
    out, oracle, w1 = one_run(ch, (), kw)
    d = ch.decisions()
    if out.died or out.harness:
        return seal(out, w1)
    out.saw.add(how)
    if processes:
        return elsewhere(ch, kw, props, out, oracle, w1)
    random.seed()  # whatever is not covered by numpy's seed differs between the two runs
    np.random.seed()
    fs = SimFS() if how == "checkpointed" else None
    try:
        again = Chooser(cfg=d["cfg"], ev=ch.ev)
        out2, oracle2, w2 = one_run_unseeded(again, kw, fs)
    finally:
        if fs is not None:
            fs.destroy()
    out.steps += out2.steps
    out.simtime += out2.simtime
    if out2.died or out2.harness:
        out.died, out.harness = out2.died, out2.harness
        return seal(out, w1)
    a, b = list(zip(w1.trace)), list(zip(w2.trace))
    oracle.props = set(props)
    try:
        if w1.points != w2.points:
            k = next((i for i, (p, q) in enumerate(zip(w1.points, w2.points)) if p != q),
                     min(len(w1.points), len(w2.points)))
            oracle.fail("C14", how + "-differs", "two runs with the same numpy seed and the same schedule (%s) differ from "
                        "evaluation %d on" % (how, k + 1))
        elif a != b:
            oracle.fail("C14", how + "-differs", "two runs with the same numpy seed and the same schedule (%s) take "
                        "different actions" % how)
    except StopRun:
        out.viol = oracle.shared["viol"]
    return seal(out, w1)


CHILD = """
import json, sys
sys.path[:0] = %r
from simsot import scenarios
from simsot.chooser import Chooser
job = json.load(sys.stdin)
if job["before"]:
    scenarios.one_run(Chooser("before"), (), dict(job["kw"]))  # another optimization, earlier in the same process
out, oracle, world = scenarios.one_run(Chooser(cfg=job["cfg"], ev=job["ev"]), (), job["kw"])
print(json.dumps({"points": [repr(p) for p in world.points], "trace": repr(world.trace),
                  "died": out.died and out.died["type"], "harness": out.harness}))
"""


def elsewhere(ch, kw, props, out, oracle, world):
    """The same schedule in two other processes with different hash seeds (the order of sets of strings)."""
    res = []
    for hashseed, before in (("0", False), (str(1 + ch.pick("hashseed", range(9999))), ch.pick("before", [False, True]))):
        job = {"cfg": ch.cfg, "ev": ch.ev, "kw": kw, "before": before}
        env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD % [os.path.dirname(HERE), REPO]], env=env,
                           input=json.dumps(job).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        if p.returncode:
            out.harness = p.stderr.decode()[-1500:]
            return seal(out, world)
        res.append(json.loads(p.stdout.decode().splitlines()[-1]))
    a, b = res
    oracle.props = set(props)
    try:
        if a["points"] != b["points"] or a["trace"] != b["trace"] or a["died"] != b["died"]:
            k = next((i for i, (p, q) in enumerate(zip(a["points"], b["points"])) if p != q),
                     min(len(a["points"]), len(b["points"])))
            oracle.fail("C14", "process-differs", "two processes with the same numpy seed and the same schedule differ from "
                        "evaluation %d on" % (k + 1))
    except StopRun:
        out.viol = oracle.shared["viol"]
    world.points, world.trace = a["points"], [a["trace"]]
    return seal(out, world)


def one_run_unseeded(ch, kw, fs):
    """As one_run, but Python's own random state is left alone."""
    state = random.getstate()
    global seed_numpy
    keep = seed_numpy

    def only_numpy(spec):
        np.random.seed(spec["npseed"] % (2 ** 32))
        random.setstate(state)

    seed_numpy = only_numpy
    try:
        return one_run(ch, (), kw, fs)
    finally:
        seed_numpy = keep


# -- isolation ---------------------------------------------------------------------------------

class _Lane(object):
    """One of several runs that share a process."""

    def __init__(self, spec, seed, props, problem=None, design=None):
        self.spec = spec
        self.ch = Chooser(seed)
        self.world = World(self.ch, spec, spec["objective"])
        self.world.tick_limit = tick_limit(spec)
        self.oracle = Oracle(self.world, spec, props)
        self.controller = None
        self.done = False
        self.rng = None

    def start(self):
        seed_numpy(self.spec)
        self.rng = np.random.get_state(), random.getstate()
        with self:
            self.controller = ChaosController(self.world, self.spec["workers"])
            self.controller.strategy = make_strategy(self.spec)
            self.gen = self.controller.steps()

    def __enter__(self):
        np.random.set_state(self.rng[0])
        random.setstate(self.rng[1])
        taps.set_current(self.oracle)

    def __exit__(self, *exc):
        taps.set_current(None)
        self.rng = np.random.get_state(), random.getstate()
        return False

    def step(self):
        with self:
            try:
                next(self.gen)
            except StopIteration:
                self.done = True

    def finish_now(self):
        while not self.done:
            self.step()

    def log(self):
        return self.world.trace, self.world.points

    def life(self):
        """The whole run; None if it cannot be completed."""
        try:
            self.start()
            self.finish_now()
        except Exception:
            return None
        return self.log()


TWIN = ["strategy", "dim", "ints", "design", "design_extra", "async", "batch", "surrogate", "num_cand", "workers"]


def isolated(ch, props):
    """Several runs in one process, interleaved: each is the run it would have been alone."""
    n = 2 + ch.pick("lanes", [0, 1])
    strategies = ["srbf", "dycors", "sop", "ei", "lcb", "random"]
    out = Outcome()

    def lanes():
        made, objects = [], {"parts": {}}
        for i in range(n):
            c = Chooser(cfg=ch.cfg) if made_once else ch
            share = i and c.pick("r%d.share" % i, [True, False])
            twin = i and c.pick("r%d.twin" % i, [False, True])  # much alike, in another domain
            first = made[0].spec if share else None  # same problem, objective and supplied points, maybe design and kernels
            for k in TWIN if twin else ():
                k0, k1 = "r0." + k, "r%d.%s" % (i, k)
                if k0 in c.cfg and k1 not in c.cfg:
                    c.force[k1] = c.cfg[k0]
            spec = specs.build(c, strategies=strategies, controllers=["chaos"], tag="r%d." % i, bweights=[4, 3, 0], like=first)
            if share:
                for k in ("objective", "extra_args", "extra_known", "extra_unknown", "extra_arrays"):
                    spec[k] = first[k]
                if spec["strategy"] != "random":
                    spec["max_evals"] += len(spec["extra_unknown"])
                out.saw.add("shared problem")
                if not made_once:
                    spec["prob"] = copy.deepcopy(spec["prob"])
                elif "random" not in (spec["strategy"], first["strategy"]):
                    first["shared"] = spec["shared"] = objects
                    same = all(spec[k] == first[k] for k in ("design", "num_pts"))
                    out.saw.add("shared design" if same else "shared kernel and tail")
            made.append(_Lane(spec, c.pick("r%d.seed" % i, range(10 ** 6)), ()))
        return made

    made_once = False
    alone = lanes()
    made_once = True
    together = []
    exc, oracle = None, Oracle(alone[0].world, alone[0].spec, props)
    try:
        logs = []
        for l in alone:
            res = forks.apart(l.life)
            if res is None:  # it died: let it happen here
                l.start()
                l.finish_now()
            logs.append(res)
        together = lanes()
        for l in together:
            l.start()
        left = list(together)
        while left:
            i = ch.ev_(len(left), 0.5)
            left[i].step()
            if left[i].done:
                left.pop(i)
        for i, (a, b) in enumerate(zip(logs, together)):
            if a != b.log():
                k = next((j for j, (p, q) in enumerate(zip(a[1], b.world.points)) if p != q),
                         min(len(a[1]), len(b.world.points)))
                oracle.fail("C19", "interference", "run %d of %d (%s) differs from evaluation %d on when another run is "
                            "interleaved with it" % (i + 1, n, b.spec["strategy"], k + 1))
        for l in together:
            for x, y in l.spec["extra_arrays"]:
                if not np.array_equal(x, y, equal_nan=True):
                    oracle.fail("C19", "shared-input-changed", "the supplied points shared by the runs were modified")
        out.saw.add("interleaved")
    except StopRun:
        pass
    except Exception as e:
        exc = e
    finally:
        taps.set_current(None)
    for l in together:
        out.merge_world(l.world)
    w = alone[0].world
    finish(out, oracle, w, exc)
    w.trace, w.points = [l.world.trace for l in together] + list(ch.ev), [l.world.points for l in together]
    return seal(out, w)


# -- surrogates -----------------------------------------------------------------------------------

def surrogate_life(ch, props):
    """A surrogate through an arbitrary life of additions, predictions, restarts and failures.

    Compared with a fresh surrogate given the same data at once, and for the RBF
    with an independent solution of its linear system.
    """
    out = Outcome()
    prob = specs.domain(ch)
    kind = ch.pick("surrogate", specs.SURROGATES + ["gp-default"], [4, 3, 3, 3, 1, 1, 1, 1, 0.15])
    transform = {None: None, "clip": median_clip, "in place": clip_in_place, "pySOT": median_capping}[
        ch.pick("transform", [None, "clip", "in place", "pySOT"], [4, 1, 1, 1])]
    most = 12 if kind == "gp-default" else 45
    objective = specs.Objective(ch.pick("objective", ["quadratic", "multimodal", "large"]), "float", prob.lb, prob.ub,
                                ch.int("salt", 0, 999))
    r = np.random.RandomState(ch.pick("npseed", range(2 ** 31)))
    np.random.seed(1)
    eta = ch.pick("eta", [1e-6, 1e-9, 1e-3, 0.05], [4, 1, 2, 1])
    world = World(ch, {}, objective)
    oracle = Oracle(world, {"strategy": "-", "async": True, "dim": prob.dim, "batch": 1, "extra_known": [],
                            "extra_unknown": [], "extra_arrays": [], "prob": prob, "max_evals": 0}, props)
    sur = taps.make_surrogate(kind, prob, transform, tapped=False, eta=eta)
    data = []  # (x, f) since the last reset
    asked = {}
    need = {"rbf-linear-constant": 1, "gp": 2, "gp-default": 2}.get(kind, prob.dim + 1) + 2
    clash = min(0.04, 0.12 / prob.dim)
    real_cholesky = scipy.linalg.cholesky
    fail_next = [False]

    def cholesky(*a, **k):
        if fail_next[0]:
            fail_next[0] = False
            world.count("factorization_failure")
            raise np.linalg.LinAlgError("injected")
        return real_cholesky(*a, **k)

    def new_points(n):
        pts = []
        for _ in range(200):
            if len(pts) == n:
                break
            x = prob.lb + r.rand(prob.dim) * (prob.ub - prob.lb)
            u = (x - prob.lb) / (prob.ub - prob.lb)
            if all(np.linalg.norm(u - (np.array(p) - prob.lb) / (prob.ub - prob.lb)) > clash
                   for p in [d[0] for d in data] + pts):
                pts.append(x)
        return pts

    def spread():
        if len(data) < need:
            return False
        u = np.array([(x - prob.lb) / (prob.ub - prob.lb) for x, _ in data])
        s = np.linalg.svd(np.hstack((np.ones((len(u), 1)), u)), compute_uv=False)
        return len(s) == prob.dim + 1 and s[-1] > 0.1

    def compare():
        X = np.array([x for x, _ in data])
        fX = np.array([[f] for _, f in data])
        if not (np.array_equal(sur.X, X) and np.array_equal(sur.fX, fX) and sur.num_pts == len(data)):
            oracle.fail("C18", "data", "the surrogate reports %d points, %d were added since the last reset"
                        % (len(sur.X), len(data)))
        if "xx" not in asked or ch.ev_(2):
            asked["xx"] = np.vstack((prob.lb + r.rand(3, prob.dim) * (prob.ub - prob.lb), X[:2]))
        else:
            out.saw.add("the same points asked for again")
        xx = asked["xx"].copy()
        one = ch.ev_(2, 0.2)
        if kind.startswith("rbf") and ch.ev_(2):
            slopes(X, fX)
        np.random.seed(5)  # the optimizer of the hyperparameters starts at random points
        got = np.vstack([sur.predict(x) for x in xx]) if one else sur.predict(xx)
        world.count("prediction")
        if got.shape != (len(xx), 1):
            oracle.fail("C18", "shape", "prediction of %d points has shape %s" % (len(xx), got.shape))
        fresh = taps.make_surrogate(kind, prob, transform, tapped=False, eta=eta)
        fresh.add_points(X, fX)
        np.random.seed(5)
        want = fresh.predict(xx)
        scale = 1e-9 + float(np.max(np.abs(fX))) + float(np.max(np.abs(want)))
        tol = 2e-6 * scale
        if np.max(np.abs(got - want)) > tol:
            oracle.fail("C18", "history-dependent", "prediction differs by %.3g (values of size %.3g) from that of a "
                        "fresh surrogate with the same %d points" % (np.max(np.abs(got - want)), scale, len(data)))
        if kind.startswith("rbf"):
            ref = dense_rbf(eta, X, fX, xx, prob, transform, kind)
            if ref is not None and np.max(np.abs(got - ref)) > tol:
                oracle.fail("C18", "not-interpolant", "prediction differs by %.3g (values of size %.3g) from the solution "
                            "of the interpolation system with %d points"
                            % (np.max(np.abs(got - ref)), scale, len(data)))
        else:
            ref, std = dense_gp(X, fX, xx, prob, transform) if kind == "gp" else (
                dense_poly(int(kind[4:]), X, fX, xx, prob, transform), None) if kind.startswith("poly") else (None, None)
            if ref is not None and np.max(np.abs(got - ref)) > tol:
                oracle.fail("C18", "not-the-model", "prediction differs by %.3g (values of size %.3g) from that of the %s "
                            "computed from its definition" % (np.max(np.abs(got - ref)), scale, kind))
            if std is not None and np.max(np.abs(sur.predict_std(xx) - std)) > 1e-5 * scale:
                oracle.fail("C18", "std", "predicted standard deviation differs by %.3g (values of size %.3g) from that of the "
                            "process computed from its definition" % (np.max(np.abs(sur.predict_std(xx) - std)), scale))
        if not np.array_equal(sur.fX, fX):
            oracle.fail("C18", "data", "predicting has changed the values that were added")
        if not np.array_equal(xx, asked["xx"]):
            oracle.fail("C18", "data", "predicting has changed the points that were asked for")
        if kind.startswith("gp"):
            s1, s2 = sur.predict_std(xx), fresh.predict_std(xx)
            if s1.shape != (len(xx), 1) or np.max(np.abs(s1 - s2)) > 2e-6 * scale:
                oracle.fail("C18", "std", "predicted standard deviation depends on the history")
        world.points.append(tuple(np.round(got.ravel() / scale, 6)))

    def slopes(X, fX):
        """Derivatives, possibly asked for before any prediction."""
        w = prob.ub - prob.lb
        xx = prob.lb + (0.05 + 0.9 * r.rand(3, prob.dim)) * w
        far = np.array([np.min(np.linalg.norm((x - X) / w, axis=1)) for x in xx]) > 0.01
        xx = xx[far]
        if not len(xx):
            return
        got = np.vstack([sur.predict_deriv(x) for x in xx]) if ch.ev_(2) else sur.predict_deriv(xx)
        world.count("derivative")
        if got.shape != xx.shape:
            oracle.fail("C18", "shape", "derivative at %d points has shape %s" % (len(xx), got.shape))
        fresh = taps.make_surrogate(kind, prob, transform, tapped=False, eta=eta)
        fresh.add_points(X, fX)
        want = fresh.predict_deriv(xx)
        h = 1e-4
        scale = 1e-9 + float(np.max(np.abs(fX))) + float(np.max(np.abs(want * w)))
        if np.max(np.abs((got - want) * w)) > 1e-4 * scale:
            oracle.fail("C18", "history-dependent", "derivative differs by %.3g (values of size %.3g) from that of a fresh "
                        "surrogate with the same %d points" % (np.max(np.abs((got - want) * w)), scale, len(data)))
        for i in range(prob.dim):
            e = np.zeros(prob.dim)
            e[i] = h * w[i]
            quotient = (fresh.predict(xx + e) - fresh.predict(xx - e)).ravel() / (2 * h)
            d = np.max(np.abs(got[:, i] * w[i] - quotient))
            if d > 1e-2 * scale:
                oracle.fail("C18", "derivative", "derivative by variable %d differs by %.3g from the difference quotient "
                            "(values of size %.3g)" % (i, d, scale))

    ops = 4 + ch.pick("ops", range(22))
    exc = None
    scipy.linalg.cholesky = cholesky
    try:
        for _ in range(ops):
            world.tick()
            op = ch.ev_(8)
            if op in (0, 1, 2):
                n = 1 if op < 2 else 1 + ch.ev_(6)
                pts = new_points(n)
                if not pts or len(data) + len(pts) > most:
                    continue
                vals = [world.evaluate(p) for p in pts]
                if len(pts) == 1 and ch.ev_(2):
                    sur.add_points(pts[0], vals[0])  # one completed evaluation, as the strategies do it
                else:
                    X, fX = np.array(pts), np.array(vals).reshape((-1, 1) if ch.ev_(2) else -1)
                    sur.add_points(X, fX)
                    X[:], fX[:] = 0, 0  # the caller may reuse its arrays
                data += list(zip(pts, vals))
                world.log("add", len(pts))
            elif op in (3, 4):
                if spread():
                    world.log("predict")
                    compare()
            elif op == 5:
                fail_next[0] = kind.startswith("rbf")
                world.log("fail next")
                out.saw.add("armed factorization failure")
            elif op == 6:
                if ch.ev_(2):
                    sur = dill.loads(dill.dumps(sur))
                    world.log("restore")
                    world.count("crash_and_restore")
                else:
                    sur = copy.deepcopy(sur)
                    world.log("copy")
            elif op == 7 and ch.ev_(2):
                sur.reset()
                data = []
                world.log("reset")
                world.count("reset")
        if spread():
            compare()
            out.saw.add("compared")
    except StopRun:
        pass
    except Exception as e:
        exc = e
    finally:
        scipy.linalg.cholesky = real_cholesky
    finish(out, oracle, world, exc)
    return seal(out, world)


def dense_rbf(eta, X, fX, xx, prob, transform, kind):
    """The RBF interpolant from its definition: (Phi + eta I) l + P c = f, P' l = 0."""
    u, v = ((a - prob.lb) / (prob.ub - prob.lb) for a in (X, xx))
    linear_tail = not kind.endswith("constant")

    def phi(a, b):
        d = np.sqrt(((a[:, None, :] - b[None, :, :]) ** 2).sum(axis=2))
        if "cubic" in kind:
            return d ** 3
        if "tps" in kind:
            d = np.maximum(d, np.finfo(float).tiny)
            return d ** 2 * np.log(d)
        return d if PHI_LINEAR_SIGN > 0 else -d

    def tail(a):
        one = np.ones((len(a), 1))
        return np.hstack((one, a)) if linear_tail else one

    if kind.startswith("rbf-linear"):
        eta = min(eta, 1e-6)
    n, P = len(u), tail(u)
    f = transform(fX.copy()) if transform else fX
    k = P.shape[1]
    A = np.vstack((np.hstack((phi(u, u) + eta * np.eye(n), P)), np.hstack((P.T, np.zeros((k, k))))))
    c = np.linalg.solve(A, np.vstack((f, np.zeros((k, 1)))))
    return phi(v, u) @ c[:n] + tail(v) @ c[n:]


def dense_gp(X, fX, xx, prob, transform):
    """Mean and standard deviation of the Gaussian process with the covariance of taps.make_gp_model."""
    u, v = ((a - prob.lb) / (prob.ub - prob.lb) for a in (X, xx))
    f = transform(fX.copy()) if transform else fX
    mu, sigma = np.mean(f), max(np.std(f), 1e-6)

    def cov(a, b):
        return np.exp(-0.5 * ((a[:, None, :] - b[None, :, :]) ** 2).sum(axis=2) / 0.4 ** 2)

    K = cov(u, u) + (1e-4 + 1e-10) * np.eye(len(u))
    k = cov(v, u)
    mean = k @ np.linalg.solve(K, (f - mu) / sigma)
    var = 1.0 + 1e-4 - np.sum(k * np.linalg.solve(K, k.T).T, axis=1)
    return mu + sigma * mean, sigma * np.sqrt(np.maximum(var, 0))[:, None]


def dense_poly(degree, X, fX, xx, prob, transform):
    """Ridge regression (penalty 1 on all but the intercept) on the monomials up to the degree."""
    u, v = ((a - prob.lb) / (prob.ub - prob.lb) for a in (X, xx))
    f = transform(fX.copy()) if transform else fX

    def monomials(a):
        cols = [a[:, i] for i in range(a.shape[1])]
        if degree == 2:
            cols += [a[:, i] * a[:, j] for i in range(a.shape[1]) for j in range(i, a.shape[1])]
        return np.array(cols).T

    A, B = monomials(u), monomials(v)
    m = A.mean(axis=0)
    c = np.linalg.solve((A - m).T @ (A - m) + np.eye(A.shape[1]), (A - m).T @ (f - f.mean()))
    return f.mean() + (B - m) @ c


PHI_LINEAR_SIGN = 1
