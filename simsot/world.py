"""The simulated world: virtual time, workers, controllers, and their faults.

Everything runs in one thread.  The controllers are POAP's own classes
(ThreadController, SimTeamController, SerialController) with their blocking and
timing points redirected to the World, plus ChaosController, which takes every
decision POAP leaves to a controller (accept, reject, order of completions,
intermediate updates) from the Chooser.
"""
import collections
import heapq
import queue

from poap.controller import Controller, SerialController, SimTeamController, ThreadController
from poap.strategy import EvalRecord

from . import taps
from .simfs import SimCrash


class StopRun(BaseException):
    """The oracle found what it was looking for."""


class Stuck(Exception):
    """Nothing can ever happen any more although the run has not terminated."""


class NoProgress(Exception):
    """Faults have stopped, but the run did not end within the step bound."""


class SimInterrupt(BaseException):
    """The user interrupts the run (Ctrl-C): Python-level cleanup still happens."""


class EvalFailed(Exception):
    """The objective function raises."""


# -- picklable stand-ins --------------------------------------------------------

class _Inert(object):
    """What a part of the simulator becomes inside a checkpoint."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _noop

    def __call__(self, *a, **k):
        return None


def _noop(*a, **k):
    return None


def _inert():
    return _Inert()


class NotInCheckpoint(object):
    def __reduce_ex__(self, protocol):
        return (_inert, ())

    def __deepcopy__(self, memo):
        return self


def proposal_reply(proposal):
    """Callback that runs after the strategy's own ones."""
    if taps.CUR is not None:
        taps.CUR.on_reply(proposal)


class SimRecord(EvalRecord):
    def update(self, **kwargs):
        o = taps.CUR
        if o is not None:
            o.on_update_begin(self, kwargs)
        super().update(**kwargs)
        if o is not None:
            o.on_update_end(self)


class TapStrategy(NotInCheckpoint):
    """Stands in for the strategy at the controller; passes everything on."""

    def __init__(self, inner):
        object.__setattr__(self, "_inner", inner)

    def __getattr__(self, name):
        return getattr(object.__getattribute__(self, "_inner"), name)

    def __setattr__(self, name, value):
        setattr(object.__getattribute__(self, "_inner"), name, value)

    def propose_action(self):
        o = taps.CUR
        o.before_propose()
        p = object.__getattribute__(self, "_inner").propose_action()
        o.after_propose(p)
        if p is not None:
            p.add_callback(proposal_reply)
        return p

    def save(self, fname, *a, **k):
        inner = object.__getattribute__(self, "_inner")
        o = taps.CUR
        if o is None:
            return inner.save(fname, *a, **k)
        o.on_save_begin()
        out = inner.save(fname, *a, **k)
        o.on_save_end()
        return out


# -- world -----------------------------------------------------------------------

class World(NotInCheckpoint):
    """Time, faults and the trace of one simulated process."""

    def __init__(self, ch, spec, objective, fs=None):
        self.ch, self.spec, self.objective, self.fs = ch, spec, objective, fs
        self.now = 0.0
        self.heap = []
        self.seq = 0
        self.ticks = 0
        self.tick_limit = 10 ** 9
        self.crash_at = None
        self.interrupt_at = None
        self.nevals = 0
        self.faults_left = spec.get("faults", 0)
        self.rejects_left = spec.get("rejects", 0)
        self.stats = collections.Counter()
        self.trace = []
        self.points = []

    def log(self, *what):
        self.trace.append(what)

    def count(self, kind):
        self.stats[kind] += 1

    def tick(self):
        self.ticks += 1
        if self.ticks == self.crash_at:
            self.count("crash_at_event")
            self.log("CRASH")
            if self.fs is not None:
                self.fs.die()
            raise SimCrash()
        if self.ticks == self.interrupt_at:
            self.count("interrupt")
            self.log("INTERRUPT")
            raise SimInterrupt()
        if self.ticks > self.tick_limit:
            raise NoProgress("no end after %d steps" % self.ticks)

    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + delay, self.seq, fn))

    def step(self):
        """Run the next event."""
        if not self.heap:
            raise Stuck("every worker is idle, nothing is in flight, and the strategy proposes nothing")
        self.tick()
        t, _, fn = heapq.heappop(self.heap)
        self.now = max(self.now, t)
        fn()

    def delay(self):
        """Duration of an evaluation: mostly similar, sometimes a straggler."""
        style = self.spec.get("delays", "equal")
        if style == "equal":
            d = 10.0
        elif style == "varied":
            d = 1.0 + self.ch.ev_(40)
        else:
            d = 1.0 + self.ch.ev_(12)
            if self.faults_left > 0 and self.ch.ev_(2, 0.12):
                self.faults_left -= 1
                self.count("stalled_evaluation")
                d *= 60
        return d

    def outcome(self, kinds):
        """How an evaluation ends: 'ok' or one of kinds."""
        p = self.spec.get("p_fail", 0.0)
        if not kinds or p <= 0 or self.faults_left <= 0:
            return "ok"
        i = self.ch.ev_(1 + len(kinds), p)
        if i == 0:
            return "ok"
        self.faults_left -= 1
        return kinds[i - 1]

    def spurious_reject(self):
        if self.rejects_left <= 0:
            return False
        if self.ch.ev_(2, self.spec.get("p_reject", 0.0)):
            self.rejects_left -= 1
            self.count("rejected_proposal")
            return True
        return False

    def evaluate(self, x):
        self.nevals += 1
        value = self.objective(x, self.nevals)
        self.points.append((tuple(float(v) for v in x), float(value)))
        return value


# -- controllers --------------------------------------------------------------------

class _Hooked(NotInCheckpoint):
    """What the simulator adds to every controller."""
    _strategy = None

    @property
    def strategy(self):
        return self._strategy

    @strategy.setter
    def strategy(self, inner):
        if inner is None or isinstance(inner, TapStrategy):
            self._strategy = inner
            return
        self._strategy = TapStrategy(inner)
        if taps.CUR is not None:
            taps.CUR.attach(inner)

    def _mark(self, record):
        record.__class__ = SimRecord
        record.simid = taps.CUR.new_record_id()
        return record

    def new_feval(self, params, extra_args=None):
        n = len(self.fevals)
        hooks, self.feval_callbacks = self.feval_callbacks, [self._mark] + list(self.feval_callbacks)
        try:
            return super().new_feval(params, extra_args)
        finally:
            self.feval_callbacks = hooks
            assert len(self.fevals) == n + 1


class SimWorker(NotInCheckpoint):
    """A worker of the thread controller, without its thread."""

    def __init__(self, world, controller, wid):
        self.world, self.controller, self.wid = world, controller, wid

    def eval(self, record):
        w, msgs = self.world, self.controller.messages
        kinds = ["exception", "killed"]
        if self.controller.workers_at_start - self.controller.alive < w.spec.get("deaths", 0) \
                and self.controller.alive > 1:
            kinds.append("death")
        how = w.outcome(kinds)
        if how == "death":
            self.controller.alive -= 1
        d = w.delay()

        def started():
            w.log("running", record.simid)
            msgs.put(record.running)

        def progress():
            w.count("intermediate_update")
            msgs.put(lambda: record.update(progress=0.5))

        def again():
            w.count("duplicate_running")
            msgs.put(record.running)

        w.at(0.0 if w.ch.ev_(2, 0.2) else 0.5, started)
        if w.spec.get("noise") and w.ch.ev_(2, 0.15):
            w.at(0.5 + d / 2, progress)
        if w.spec.get("noise") and w.ch.ev_(2, 0.1):
            w.at(0.5 + d / 3, again)

        def finished():
            if how == "ok":
                value = w.evaluate(record.params[0])
                w.log("done", record.simid)
                msgs.put(lambda: record.complete(value))
            elif how == "exception":
                w.count("evaluation_exception")
                w.log("cancel", record.simid)
                msgs.put(record.cancel)
            else:
                w.count("evaluation_killed" if how == "killed" else "worker_death")
                w.log("kill", record.simid)
                msgs.put(record.kill)
            if how == "death":
                return
            # the worker queues up again right away, or a little later
            if w.ch.ev_(2, 0.2):
                w.at(0.7, lambda: self.controller.add_worker(self))
            else:
                self.controller.add_worker(self)

        w.at(1.0 + d, finished)

    def kill(self, record):
        pass

    def terminate(self):
        pass


class _Messages(NotInCheckpoint):
    """The thread controller's message queue: the point where it blocks."""

    def __init__(self, world, controller):
        self.world, self.controller, self.items = world, controller, collections.deque()

    def put(self, m):
        self.items.append(m)

    def empty(self):
        w = self.world
        if self.items:
            return False
        w.tick()
        if not w.heap:
            return True
        if self.controller.can_work():
            if w.ch.ev_(2, 0.15):  # a message arrives just before the strategy is consulted
                w.step()
        elif w.rejects_left > 0 and w.ch.ev_(2, w.spec.get("p_reject", 0.0)):
            w.rejects_left -= 1  # consult the strategy while no worker is free: it will be rejected
        else:
            w.step()
        return not self.items

    def get(self):
        while not self.items:
            self.world.step()
        return self.items.popleft()


class SimThreadController(_Hooked, ThreadController):
    def __init__(self, world, workers):
        ThreadController.__init__(self)
        self.world = world
        self.messages = _Messages(world, self)
        self.workers = queue.Queue()
        self.alive = self.workers_at_start = workers
        for i in range(workers):
            self.add_worker(SimWorker(world, self, i))

    def add_timer(self, timeout, callback):
        self.world.at(timeout, lambda: self.messages.put(callback))


class SimTeam(_Hooked, SimTeamController):
    def __init__(self, world, workers):
        self.world = world
        SimTeamController.__init__(self, self._objective, self._delay, workers)

    def _objective(self, x):
        w = self.world
        how = w.outcome(["exception"])
        if how != "ok":
            w.count("evaluation_exception")
            w.log("cancel")
            raise EvalFailed()
        v = w.evaluate(x)
        w.log("done")
        return v

    def _delay(self, record):
        w = self.world
        d = w.delay()
        if w.spec.get("kills") and w.faults_left > 0 and w.ch.ev_(2, w.spec.get("p_fail", 0.0)):
            w.faults_left -= 1

            def kill():
                if not record.is_done:
                    w.count("evaluation_killed")
                    w.log("kill", record.simid)
                    record.kill()
                    self.workers += 1

            self.add_timer(d * 0.6, kill)
        return d

    def advance_time(self):
        self.world.tick()
        if not self.time_events:
            raise Stuck("every worker is idle, nothing is in flight, and the strategy proposes nothing")
        super().advance_time()
        self.world.now = self.time


class SimSerial(_Hooked, SerialController):
    def __init__(self, world, reraise=False):
        self.world, self.reraise = world, reraise
        SerialController.__init__(self, self._objective)

    def _objective(self, x):
        w = self.world
        w.tick()
        w.now += w.delay()
        if w.outcome(["exception"]) != "ok":
            w.count("evaluation_exception")
            w.log("cancel")
            raise EvalFailed()
        v = w.evaluate(x)
        w.log("done")
        return v

    def run(self, merit=None, filter=None):
        return super().run(merit=merit, filter=filter, reraise=self.reraise)


class ChaosController(_Hooked, Controller):
    """A controller that does anything a POAP controller may do."""

    def __init__(self, world, workers):
        Controller.__init__(self)
        self.world, self.capacity = world, workers
        self.flying = []

    def can_work(self):
        return len(self.flying) < self.capacity

    def _deliver(self):
        w = self.world
        i = w.ch.ev_(len(self.flying), w.spec.get("p_reorder", 0.0))
        record = self.flying[i]
        if i:
            w.count("reordered_completion")
        if w.spec.get("noise") and w.ch.ev_(2, 0.15):
            w.count("intermediate_update")
            w.log("update", record.simid)
            if w.ch.ev_(2):
                record.update(progress=1)
            else:
                record.running()
            return
        how = w.outcome(["exception", "killed"])
        del self.flying[i]
        w.now += 1
        if how == "ok":
            v = w.evaluate(record.params[0])
            w.log("done", record.simid)
            record.complete(v)
        elif how == "exception":
            w.count("evaluation_exception")
            w.log("cancel", record.simid)
            record.cancel()
        else:
            w.count("evaluation_killed")
            w.log("kill", record.simid)
            record.kill()

    def steps(self):
        w = self.world
        deliver_next = False
        while True:
            w.tick()
            yield
            if self.flying and (deliver_next or w.ch.ev_(2, 0.3)):
                deliver_next = False
                self._deliver()
                continue
            p = self.strategy.propose_action()
            if p is None:
                if not self.flying:
                    raise Stuck("nothing is in flight, and the strategy proposes nothing")
                deliver_next = True
            elif p.action == "terminate":
                p.accept()
                return
            elif p.action == "eval" and self.can_work() and not w.spurious_reject():
                p.record = self.new_feval(p.args)
                w.log("start", p.record.simid)
                self.flying.append(p.record)
                p.accept()
            else:
                if not self.can_work():
                    deliver_next = True
                p.reject()

    def run(self, merit=None, filter=None):
        try:
            for _ in self.steps():
                pass
            return self.best_point(merit=merit, filter=filter)
        finally:
            self.call_term_callbacks()


def make_controller(kind, world, workers):
    if kind == "serial":
        return SimSerial(world, reraise=world.spec.get("reraise", False))
    if kind == "team":
        return SimTeam(world, workers)
    if kind == "thread":
        return SimThreadController(world, workers)
    return ChaosController(world, workers)
