"""Executable reference model of an optimization run, and the checks against it.

The model is driven only by what crosses the public interfaces: proposals and
the replies to them, updates of evaluation records, designs that were generated,
calls on the surrogate.  After every event it is compared with what the strategy
says about itself (X, fX, Xpend, num_evals, pending_evals, fevals) and with the
content of the surrogate.  An attribute that does not exist is not compared.
"""
import copy
import hashlib
import math

import dill
import numpy as np

from . import taps
from .simfs import SimCrash
from .sampling import CandidateTest, SopModel, improvement, not_uniform, perturb_probability
from .world import NotInCheckpoint, StopRun

ATOL = 1e-12


def same_point(a, b):
    a, b = np.ravel(a), np.ravel(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= ATOL * (1.0 + np.abs(b))))


def take(pool, x):
    """Remove and return the first entry of pool at x, or None."""
    for i, e in enumerate(pool):
        if same_point(e if not isinstance(e, Ent) else e.x, x):
            return pool.pop(i)
    return None


def rows(a):
    if a is None:
        return []
    a = np.asarray(a, dtype=float)
    return [] if a.size == 0 else [tuple(r) for r in np.atleast_2d(a)]


def short(x):
    return np.array2string(np.asarray(x, dtype=float), precision=6, separator=",", max_line_width=1000)


class Ent(object):
    """One accepted evaluation."""
    __slots__ = ("rid", "x", "kind", "epoch", "seq", "value", "status")

    def __init__(self, rid, x, kind, epoch, seq):
        self.rid, self.x, self.kind, self.epoch, self.seq = rid, x, kind, epoch, seq
        self.value, self.status = None, "flying"


class RadiusModel(object):
    """Reference model of SRBF's and DYCORS' step size rule."""

    def __init__(self, asynchronous, dim, batch):
        self.asynchronous = asynchronous
        if asynchronous:
            self.failtol = max(dim, 4)
        else:
            self.failtol = max(math.ceil(dim / batch), math.ceil(4.0 / batch))
        self.event = 0  # evaluations started up to here do not count
        self.restart(0)

    def restart(self, seq):
        self.event = seq
        self.radius, self.streak, self.failures = 0.2, 0, 0
        self.best, self.queue, self.converged = math.inf, [], False
        self.changes = 0

    def completed(self, seq, value, batch_over, now):
        if seq <= self.event:
            return
        self.queue.append(value)
        if self.asynchronous or batch_over:
            self.judge(now)

    def aborted(self, batch_over, now):
        if self.queue and batch_over and not self.asynchronous:
            self.judge(now)

    def judge(self, now):
        new = min(self.queue)
        self.queue = []
        if math.isinf(self.best) or new < self.best - 1e-3 * abs(self.best):
            self.best = new
            self.streak = max(self.streak, 0) + 1
            self.failures = 0
        else:
            self.streak = min(self.streak, 0) - 1
            self.failures += 1
        if self.streak <= -self.failtol:
            self.radius, self.streak, self.event = self.radius / 2, 0, now
            self.changes += 1
        elif self.streak >= 3:
            self.radius, self.streak, self.event = min(2 * self.radius, 0.2), 0, now
            self.changes += 1
        if self.failures >= 4 * self.failtol or self.radius <= 0.2 * 0.5 ** 6:
            self.converged = True


class Oracle(NotInCheckpoint):
    MODEL = ("epoch", "todo", "stale", "inflight", "completed", "failed", "acc_seq", "seq_restart", "batch_left",
             "committed", "radius", "weight_pos", "any_failure", "merit_batch", "requeued", "sop")

    def __init__(self, world, spec, props, shared=None):
        self.world, self.spec, self.props = world, spec, frozenset(props)
        self.shared = shared if shared is not None else {"rid": 0, "states": {}, "viol": None, "designs": []}
        self.inner = None
        self.quiet = 0
        self.incarnation = 0
        self.outstanding = None  # (x, kind, entry)
        self.expect_more = None
        self.predicts = []
        self.terminated = False
        self.saver = None  # (disk, name of the checkpoint) if there is a checkpoint
        self.die_when = None  # [situation, how often it is let pass]: kill the process right after a save
        self.last_save = None
        self.stop_at = None  # the user sets strategy.terminate at this step
        self.stop_when = None  # or in this situation, after it has been let pass stop_at times
        self.stopped = False
        self.draws, self.retry = [], []  # of random search: points of the sample, and those that wait for another attempt
        self.saw = set()  # notable situations, for the coverage report
        # model
        self.epoch = -1
        self.todo, self.stale = [], []
        self.inflight, self.completed, self.failed = {}, [], []
        self.acc_seq = 0
        self.seq_restart = 0
        self.batch_left = 0
        self.committed = False
        self.any_failure = False
        self.weight_pos = 0
        self.merit_batch = None
        self.requeued = []  # members of a synchronous batch whose proposal was rejected
        self.radius = None
        if spec["strategy"] in ("srbf", "dycors"):
            self.radius = RadiusModel(spec["async"], spec["dim"], spec["batch"])
        self.stds = []
        self.sampled = CandidateTest(spec["prob"], spec["strategy"] != "srbf")
        self.sop = None
        if spec["strategy"] == "sop" and self.on("C20", "C22", "C23"):
            self.sop = SopModel(spec["prob"], spec["ncenters"], spec["num_pts"], spec["max_evals"], spec["async"])

    # -- reporting ------------------------------------------------------------------
    def fail(self, props, code, msg):
        """Report a violation if the property is being checked."""
        if isinstance(props, str):
            props = (props,)
        if self.incarnation:  # a resumed run has all the guarantees of an uninterrupted one
            props = tuple(props) + ("C12",)
        if self.shared["viol"] is None and self.props.intersection(props):
            prop = sorted(self.props.intersection(props))[0]
            self.shared["viol"] = {"property": prop, "code": code, "message": msg,
                                   "step": self.world.ticks, "incarnation": self.incarnation}
            self.world.log("VIOLATION", code)
            raise StopRun()

    def on(self, *props):
        return bool(self.props.intersection(props)) or (
            "C12" in self.props and (self.incarnation > 0 or "C20" in props))

    # -- wiring -----------------------------------------------------------------------
    def attach(self, inner):
        self.inner = inner

    def new_record_id(self):
        self.shared["rid"] += 1
        return self.shared["rid"]

    def model_state(self):
        return {k: self.clone(getattr(self, k)) for k in self.MODEL}

    @staticmethod
    def clone(v):
        if isinstance(v, (list, dict)):
            return v.copy()
        if isinstance(v, RadiusModel):
            v = copy.copy(v)
            v.queue = list(v.queue)
        elif isinstance(v, SopModel):
            v = v.clone()
        return v

    def load_model_state(self, st):
        for k, v in st.items():
            setattr(self, k, self.clone(v))

    def key(self):
        return len(self.completed), len(self.failed)

    def remember(self):
        """Keep the model as it is now; a checkpoint may be a snapshot of this moment."""
        if self.saver is not None:
            self.shared["states"].setdefault(self.key(), []).append(self.model_state())

    def on_save_begin(self):
        """The strategy is about to be written to disk as it is now."""
        if self.saver is not None:
            self.saving = (self.key(), self.model_state())
            self.shared["unfinished save"] = self.saving

    def on_save_end(self):
        if self.saver is not None:
            fs, name = self.saver
            self.shared.setdefault("saved", {})[digest(fs.read(name))] = self.saving
            self.shared["unfinished save"] = None
            if self.die_when is not None and self.situation(self.die_when[0]):
                self.die_when[1] -= 1
                if self.die_when[1] < 0:
                    self.saw.add("died right after a save: " + self.die_when[0])
                    self.world.count("crash_in_chosen_situation")
                    raise SimCrash()
            self.last_save = (self.epoch, len(self.failed), len(self.completed))

    def stop_due(self):
        if self.stop_when is None:
            return self.world.ticks >= self.stop_at
        if not self.situation(self.stop_when):
            return False
        self.stop_at -= 1
        if self.stop_at < 0:
            self.saw.add("stop requested: " + self.stop_when)
        return self.stop_at < 0

    SITUATIONS = ["converged", "new run", "design in flight", "in a batch", "radius changed", "failures", "budget in flight",
                  "failed", "stale in flight", "first"]

    def situation(self, name):
        """Is this one of the moments at which it takes care to continue from a checkpoint?"""
        r, was = self.radius, self.last_save or (-1, 0, 0)
        if name == "converged":
            return r is not None and r.converged
        if name == "new run":
            return self.epoch > 0 and self.epoch != was[0]
        if name == "design in flight":
            return any(e.kind == "design" and e.epoch == self.epoch for e in self.inflight.values())
        if name == "in a batch":
            return bool(r.queue) if r is not None else not self.spec["async"] and self.batch_left > 0
        if name == "radius changed":
            return r is not None and r.changes > 0 and bool(self.inflight)
        if name == "failures":
            return r is not None and r.failures >= 2
        if name == "budget in flight":
            return bool(self.inflight) and len(self.completed) + len(self.inflight) >= self.spec["max_evals"]
        if name == "failed":
            return len(self.failed) > was[1]
        if name == "stale in flight":
            return any(e.epoch != self.epoch for e in self.inflight.values())
        if name == "rejected":
            return bool(self.requeued)
        return True

    def after_crash(self, st, incarnation, requeued):
        """Continue from the model state that a checkpoint captured: evaluations in flight were lost."""
        self.load_model_state(st)
        self.incarnation = incarnation
        for e in self.inflight.values():
            if e.kind == "design" and e.epoch == self.epoch:
                self.todo.append(e.x)
                self.saw.add("design point in flight lost in a crash")
            else:
                if requeued:  # in the initial phase everything in flight may be proposed again
                    self.stale.append(e.x)
                self.saw.add("adaptive point in flight lost in a crash")
            if self.sop is not None and e.kind == "adaptive":
                self.sop.dropped(e.x)
        if self.inflight and self.batch_left <= 0:  # the evaluations lost were the last of the batch
            if self.sop is not None:
                self.sop.dropped(None, True)
            if self.radius is not None:
                self.radius.aborted(True, self.acc_seq)
        self.inflight = {}
        self.committed = False
        self.any_failure = False

    # -- taps ----------------------------------------------------------------------------
    def on_design(self, pts, genuine=True, mapped=True):
        if self.epoch >= 0:
            self.check_gave_up()
        if not mapped:  # the strategy maps the unit box to the domain itself
            p = self.spec["prob"]
            pts = p.lb + pts * (p.ub - p.lb)
            if len(p.int_var):
                pts[:, p.int_var] = np.clip(np.round(pts[:, p.int_var]), p.lb[p.int_var], p.ub[p.int_var])
        if genuine:
            self.check_design(pts)
        self.predicts, self.stds = [], []  # of the run that has ended
        self.epoch += 1
        self.shared["designs"].append(pts)
        self.world.log("design", self.epoch)
        if self.epoch > 0:
            self.saw.add("restart")
            if self.inflight:
                self.saw.add("restart with evaluations in flight")
                if not self.spec["async"]:
                    self.fail("C08", "restart-before-batch-end",
                              "synchronous run restarted with %d evaluations in flight" % len(self.inflight))
            if self.radius is not None:
                if not self.radius.converged:
                    self.fail("C15", "restart-without-convergence",
                              "new run started although radius %g and %d failed steps are not convergence"
                              % (self.radius.radius, self.radius.failures))
        if self.todo:
            if not self.restart_due():
                self.fail(self.design_props(), "design-abandoned", "a new run was started before %d points of the initial design "
                          "were evaluated" % len(self.todo))
            self.stale += self.todo  # may be evaluated in the new run
        self.todo = [np.array(p, dtype=float) for p in pts]
        if self.epoch == 0:
            self.todo += [np.array(x, dtype=float) for x in self.spec["extra_unknown"]]
        self.seq_restart = self.acc_seq
        self.batch_left = 0
        self.merit_batch = None
        if self.radius is not None:
            self.radius.restart(self.acc_seq)

    def check_design(self, pts):
        """The design has the structure its name promises."""
        if not self.on("C25"):
            return
        spec, prob = self.spec, self.spec["prob"]
        n, d, kind = spec["num_pts"], prob.dim, spec["design"]
        if pts.shape != (n, d):
            self.fail("C25", "design-shape", "a design of %d points in %d variables has shape %s" % (n, d, pts.shape))
            return
        u = (pts - prob.lb) / (prob.ub - prob.lb)
        ints = set(int(i) for i in prob.int_var)
        self.saw.add("design judged: " + kind)
        for i in range(d):
            col = np.sort(u[:, i])
            half = 0.5 / (prob.ub[i] - prob.lb[i]) if i in ints else 0.0
            if kind == "two":
                lo, hi = np.repeat([0.0, 1.0], n // 2), np.repeat([0.0, 1.0], n // 2)
            elif kind == "lhd":
                lo, hi = np.arange(n) / float(n), (np.arange(n) + 1.0) / n
            else:
                lo = hi = np.arange(n) / (n - 1.0)
            if np.any(col < lo - half - 1e-9) or np.any(col > hi + half + 1e-9):
                self.fail("C25", "stratification", "variable %d takes the values %s (relative to its range), which is "
                          "not a %s design of %d points" % (i, short(col), kind, n))
        if kind == "two" and len(set(map(tuple, np.round(u, 6)))) != n:
            self.fail("C25", "corners", "the factorial design repeats a corner")
        if ints:
            return
        if kind == "slhd":
            a, b = u[np.lexsort(np.round(u, 9).T)], (1 - u)[np.lexsort(np.round(1 - u, 9).T)]
            if np.max(np.abs(a - b)) > 1e-8:
                self.fail("C25", "symmetry", "the symmetric design has a point without a mirror image")
        if np.linalg.matrix_rank(np.hstack((np.ones((n, 1)), u)), tol=1e-8) < d + 1:
            self.fail("C25", "hyperplane", "the design lies in a hyperplane and determines no linear model")
        if kind == "lhd" and any(p.shape == pts.shape and np.array_equal(p, pts) for p in self.shared["designs"]):
            self.fail("C25", "design-repeated", "a restart uses the design of an earlier run again")

    def design_props(self):
        """The properties at stake when a point of the initial design is left out."""
        props = ["C06"]
        if self.incarnation:
            props.append("C12")
        if any(same_point(x, u) for x in self.todo for u in self.spec["extra_unknown"]):
            props.append("C17")
        return props

    def restart_due(self):
        return self.radius is None or self.radius.converged

    def on_surrogate_reset(self, s):
        pass

    def on_surrogate_add(self, s, xx, fx):
        pass

    def on_surrogate_predict(self, s, xx, out):
        if self.on("C20", "C22", "C23", "C24"):
            self.predicts.append((np.array(np.atleast_2d(xx), dtype=float), np.array(out, dtype=float)))

    def on_surrogate_predict_std(self, s, xx, out):
        if self.on("C24"):
            self.stds.append((np.array(np.atleast_2d(xx), dtype=float), np.array(out, dtype=float)))

    # -- proposals ---------------------------------------------------------------------------
    def before_propose(self):
        if self.stop_at is not None and not self.stopped and self.stop_due():
            self.stopped = True
            self.saw.add("stop requested with evaluations in flight" if self.inflight else "stop requested")
            self.world.count("stop_request")
            self.world.log("STOP")
            self.inner.terminate = True
        self.predicts, self.stds = [], []
        self._was_converged = bool(self.radius is not None and self.radius.converged)
        self._epoch_before = self.epoch
        self._fly_before = len(self.inflight)

    def after_propose(self, p):
        spec = self.spec
        total = len(self.completed) + len(self.inflight)
        self.check_sampling()
        if p is None:
            self.world.log("none")
            self.check_none()
            self.check_content()
            return
        if p.action == "terminate":
            self.world.log("terminate")
            self.terminated = True
            if self.inflight:
                self.fail(("C02", "C21") if self.stopped else "C02", "terminate-in-flight",
                          "termination proposed with %d evaluations in flight" % len(self.inflight))
            self.check_end()
            self.check_content()
            if spec["strategy"] == "random" and self.on("C26"):
                self.check_sample()
            return
        if self.stopped:
            self.fail("C21", "evaluation-after-stop", "an evaluation is proposed although terminate has been set")
        x = p.args[0] if p.args else None
        self.check_point(x)
        x = np.array(x, dtype=float).ravel()
        if total >= spec["max_evals"]:
            self.saw.add("proposal beyond budget")
            self.fail("C01", "budget-exceeded", "evaluation proposed with %d completed and %d in flight, budget %d"
                      % (len(self.completed), len(self.inflight), spec["max_evals"]))
        # what kind of point is this?
        ent = take(self.todo, x)
        if ent is not None:
            kind = "design"
        else:
            ent = take(self.stale, x)
            kind = "stale" if ent is not None else "adaptive"
        if kind == "adaptive":
            if self.todo:
                self.fail(self.design_props(), "design-incomplete",
                          "point %s is not part of the initial design, of which %d points still wait"
                          % (short(x), len(self.todo)))
            if not spec["async"] and spec["strategy"] != "random":
                if self.batch_left <= 0 and self.inflight:
                    self.fail("C08", "batch-overlap",
                              "a new batch starts with %d evaluations of an earlier one in flight"
                              % len(self.inflight))
            if spec["strategy"] == "random" and self.on("C26"):
                if take(self.retry, x) is None:
                    self.draws.append(x)
                    if len(self.draws) > spec["max_evals"]:
                        self.fail("C26", "extra-point", "point %s is not one of the %d sample points and none of those that "
                                  "still wait" % (short(x), spec["max_evals"]))
            self.check_known(x)
            self.check_distance(x)
            self.check_merit(x)
            self.check_worth(x)
            if self.radius is not None and self._was_converged and spec["restarts"] \
                    and self.epoch == self._epoch_before and (spec["async"] or not self._fly_before):
                self.fail("C15", "no-restart", "the run has converged (radius %g, %d failed steps in a row) but goes "
                          "on with %s" % (self.radius.radius, self.radius.failures, short(x)))
        elif kind == "design":
            self.check_known(x)
        self.outstanding = (x, kind)
        self.world.log("propose", kind)

    def on_reply(self, p):
        if p.action != "eval" or self.outstanding is None:
            return
        (x, kind), self.outstanding = self.outstanding, None
        if p.accepted:
            self.acc_seq += 1
            e = Ent(p.record.simid, x, kind, self.epoch, self.acc_seq)
            self.inflight[e.rid] = e
            if kind == "adaptive" and not self.spec["async"]:
                if self.batch_left <= 0:
                    self.batch_left = self.spec["batch"]
                self.batch_left -= 1
            total = len(self.completed) + len(self.inflight)
            self.remember()
            if total >= self.spec["max_evals"]:
                self.committed = True
                if total > self.spec["max_evals"]:
                    self.fail("C01", "budget-exceeded", "%d completed and %d in flight exceed the budget of %d"
                              % (len(self.completed), len(self.inflight), self.spec["max_evals"]))
        else:
            self.world.log("reject", kind)
            if kind == "design":
                self.todo.append(x)
                self.saw.add("design point rejected")
            elif kind == "stale":
                self.stale.append(x)
            else:
                self.retry.append(x)
                self.saw.add("adaptive point rejected")
                if self.sop is not None and self.spec["async"]:
                    self.sop.dropped(x)
                if not self.spec["async"]:
                    if self.batch_left <= 0:
                        self.batch_left = self.spec["batch"]  # the batch exists, this member waits again
                    self.requeued.append(x)
        self.check_content()

    # -- evaluations ----------------------------------------------------------------------------
    def on_update_begin(self, record, kwargs):
        status = kwargs.get("_status")
        e = self.inflight.get(getattr(record, "simid", None))
        if status not in ("completed", "killed", "cancelled") or e is None:
            return
        del self.inflight[e.rid]
        e.status = status
        batch_over = self.batch_left <= 0 and not self.inflight
        if status == "completed":
            e.value = float(kwargs["value"])
            self.completed.append(e)
            if e.seq <= self.seq_restart:
                self.saw.add("completion from before a restart")
            if self.sop is not None:
                self.sop.completed(e.x, e.value, e.kind == "adaptive", batch_over)
            if self.radius is not None and e.kind == "adaptive":
                if e.seq <= self.radius.event and e.seq > self.seq_restart:
                    self.saw.add("completion from before a radius change")
                before = self.radius.changes
                self.radius.completed(e.seq, e.value, batch_over, self.acc_seq)
                if self.radius.changes != before:
                    self.saw.add("radius change")
                    if self.inflight:
                        self.saw.add("radius change with evaluations in flight")
        else:
            self.failed.append(e)
            self.any_failure = True
            self.retry.append(e.x)
            self.saw.add(e.kind + " evaluation failed")
            if e.kind == "design" and e.epoch == self.epoch:
                self.todo.append(e.x)
            elif e.kind in ("design", "stale"):
                self.stale.append(e.x)
            if self.sop is not None and e.kind == "adaptive":
                self.sop.dropped(e.x, batch_over)
            if self.radius is not None and e.kind == "adaptive":
                self.radius.aborted(batch_over, self.acc_seq)
        self.remember()

    def on_update_end(self, record):
        self.check_content()
        self.check_saved(record)

    # -- checks ------------------------------------------------------------------------------------
    def check_point(self, x):
        spec = self.spec
        if x is None:
            self.fail("C05", "no-point", "evaluation proposed without a point")
            return
        a = np.asarray(x)
        if a.ndim != 1 or a.shape[0] != spec["dim"]:
            self.fail("C05", "shape", "proposed point has shape %s for %d variables" % (a.shape, spec["dim"]))
            return
        a = a.astype(float)
        if not np.all(np.isfinite(a)):
            self.fail("C05", "not-finite", "proposed point %s" % short(a))
        lb, ub = spec["prob"].lb, spec["prob"].ub
        tol = 1e-9 * (ub - lb)
        if np.any(a < lb - tol) or np.any(a > ub + tol):
            self.fail("C05", "out-of-bounds", "proposed point %s outside [%s, %s]" % (short(a), short(lb), short(ub)))
        iv = spec["prob"].int_var
        if len(iv) and np.any(a[iv] != np.round(a[iv])):
            self.fail("C05", "not-integer", "variables %s are integers, proposed point %s" % (list(iv), short(a)))

    def check_sample(self):
        """Random search has evaluated the whole of a uniform sample."""
        spec, prob = self.spec, self.spec["prob"]
        if len(self.draws) != spec["max_evals"] or self.retry:
            self.fail("C26", "sample-incomplete", "the run ends after %d of %d sample points, %d of them wait to be repeated"
                      % (len(self.draws), spec["max_evals"], len(self.retry)))
        ints = set(int(i) for i in prob.int_var)
        cont = [i for i in range(prob.dim) if i not in ints]
        U = (np.array(self.draws) - prob.lb) / (prob.ub - prob.lb)
        n = len(U)
        if n < 60 or not cont:
            return
        self.saw.add("uniformity judged")
        for i in cont:
            why = not_uniform(U[:, i])
            if why:
                self.fail("C26", "not-uniform", "variable %d of %d sample points is not uniform: %s" % (i, n, why))
        why = not_uniform(U[:, cont].ravel())
        if why:
            self.fail("C26", "not-uniform", "%d sample points are not uniform: %s" % (n, why))
        for a in cont:
            for b in cont:
                r = np.corrcoef(U[:, a], U[:, b])[0, 1] if a < b else np.corrcoef(U[1:, a], U[:-1, b])[0, 1]
                if abs(np.arctanh(np.clip(r, -1 + 1e-12, 1 - 1e-12))) * math.sqrt(n - 4) > 8.5:
                    self.fail("C26", "dependent", "variables %d and %d of %s sample points are correlated (%.2f)"
                              % (a, b, "the" if a < b else "successive", r))

    def check_known(self, x):
        """Points whose value was supplied are not evaluated, the others only once."""
        if not self.on("C17") or len(self.spec["prob"].int_var):
            return
        for k, _ in self.spec["extra_known"]:
            if same_point(k, x):
                self.fail("C17", "known-point-evaluated", "an evaluation is proposed at %s, whose value was supplied"
                          % short(x))
        for e in self.completed:
            if any(same_point(e.x, u) for u in self.spec["extra_unknown"]) and same_point(e.x, x):
                self.fail("C17", "evaluated-twice", "the supplied point %s is evaluated again" % short(x))

    def check_none(self):
        """The strategy proposes nothing now."""
        spec = self.spec
        fly = len(self.inflight)
        if fly == 0:
            self.fail(("C02", "C21") if self.stopped else "C02", "nothing-proposed", "nothing is in flight and the strategy proposes nothing")
        if self.committed or getattr(self.inner, "terminate", False):
            return
        if len(self.completed) + fly >= spec["max_evals"]:
            return
        if getattr(self.inner, "converged", False) and not (spec["async"] and spec["restarts"]):
            return  # waits for the evaluations in flight, then restarts or ends
        if self.stale or spec["strategy"] == "random":
            return
        if self.todo:
            self.fail("C09", "design-point-waits", "%d points of the initial design wait although budget is left"
                      % len(self.todo))
        if spec["async"]:
            if spec["strategy"] == "sop":
                if sum(e.kind != "design" for e in self.inflight.values()) >= spec["ncenters"]:
                    self.saw.add("all SOP centers busy")
                    return
            self.fail("C09", "idle", "asynchronous strategy proposes nothing with %d completed, %d in flight and a "
                      "budget of %d" % (len(self.completed), fly, spec["max_evals"]))
        elif self.batch_left > 0 and self.incarnation == 0:
            self.fail(("C08", "C09"), "batch-stalls", "%d members of the batch were never proposed" % self.batch_left)

    def check_end(self):
        """The strategy proposes termination."""
        spec = self.spec
        n = len(self.completed)
        conv = getattr(self.inner, "converged", False) and not spec["restarts"]
        if self.stopped:
            return
        if n < spec["max_evals"] and not self.committed and not conv:
            self.fail(("C01", "C12") if self.incarnation else "C01", "budget-not-used",
                      "run ends after %d of %d evaluations" % (n, spec["max_evals"]))
        if n < spec["max_evals"] and not self.any_failure and not conv:
            self.fail(("C01", "C12") if self.incarnation else "C01", "budget-not-used",
                      "run without a failed evaluation ends after %d of %d evaluations" % (n, spec["max_evals"]))
        if self.todo and not self.committed and not conv and n < spec["max_evals"]:
            self.fail(self.design_props(), "design-incomplete", "run ends with %d points of the initial design never evaluated"
                      % len(self.todo))

    def degenerate(self):
        """All design points were started, but those that finished lie in a subspace: no surrogate exists."""
        if self.todo or self.spec["strategy"] == "random":
            return False
        fresh = self.fresh()
        pts = [e.x for e in fresh]
        if not len(self.spec["prob"].int_var) and self.spec["design"] != "two":
            if all(any(same_point(x, y) for y in pts) for x in self.shared["designs"][-1]):
                return False  # it was the design that failed
        if self.epoch == 0:
            pts += [np.ravel(x) for x, _ in self.spec["extra_known"]]
        if not pts:
            return True
        lb, ub = self.spec["prob"].lb, self.spec["prob"].ub
        u = (np.array(pts) - lb) / (ub - lb)
        return np.linalg.matrix_rank(np.hstack((np.ones((len(u), 1)), u)), tol=1e-8) < self.spec["dim"] + 1

    def check_finished(self):
        """run() has returned."""
        if not self.terminated:
            self.fail("C02", "no-termination", "the run ended without a termination proposal")
        if self.inflight:
            self.fail("C02", "terminate-in-flight", "the run ended with %d evaluations in flight" % len(self.inflight))

    def expected_history(self):
        known = [(tuple(np.ravel(x)), float(np.ravel(v)[0])) for x, v in self.spec["extra_known"]]
        return known + [(tuple(e.x), e.value) for e in self.completed]

    def check_content(self):
        s, spec = self.inner, self.spec
        if s is None or self.shared["viol"] is not None:
            return
        res = self.incarnation > 0
        if self.on("C03", "C12"):
            props = ("C03", "C12") if res else "C03"
            want = self.expected_history()
            X, fX = getattr(s, "X", None), getattr(s, "fX", None)
            if X is not None and fX is not None:
                have = list(zip(rows(X), [float(v) for v in np.ravel(fX)]))
                if len(rows(X)) != len(np.ravel(fX)):
                    self.fail(props, "history-shape", "X has %d rows, fX %d" % (len(rows(X)), len(np.ravel(fX))))
                d = diff_multiset(want, have)
                if d:
                    self.fail(props, "history", "evaluation history differs from what was evaluated: %s" % d)
            n = getattr(s, "num_evals", None)
            if n is not None and n != len(self.completed):
                self.fail(props, "num-evals", "num_evals is %d after %d completed evaluations"
                          % (n, len(self.completed)))
            fe = getattr(s, "fevals", None)
            if fe is not None:
                want_ids = sorted([e.rid for e in self.completed] + [e.rid for e in self.failed])
                have_ids = sorted(getattr(r, "simid", -1) for r in fe)
                if want_ids != have_ids:
                    self.fail(props, "fevals", "list of finished evaluations has records %s, expected %s"
                              % (sorted(set(have_ids) ^ set(want_ids)) or have_ids, "each finished one once"))
        if self.on("C04") and self.outstanding is None:
            want = [(tuple(e.x), 0.0) for e in self.inflight.values()]
            xp = getattr(s, "Xpend", None)
            if xp is not None:
                d = diff_multiset(want, [(r, 0.0) for r in rows(xp)])
                if d:
                    self.fail("C04", "pending-points", "points considered pending differ from those in flight: %s" % d)
            n = getattr(s, "pending_evals", None)
            if n is not None and n != len(self.inflight):
                self.fail("C04", "pending-count", "%d evaluations considered pending, %d in flight"
                          % (n, len(self.inflight)))
        if self.on("C07"):
            fresh = [(tuple(e.x), e.value) for e in self.completed if e.seq > self.seq_restart]
            known = self.expected_history()[: len(spec["extra_known"])] if self.epoch == 0 else []
            sur = getattr(s, "surrogate", None)
            if sur is not None and hasattr(sur, "X") and hasattr(sur, "fX"):
                d = diff_multiset(known + fresh, list(zip(rows(sur.X), [float(v) for v in np.ravel(sur.fX)])))
                if d:
                    self.fail("C07", "surrogate-content", "the surrogate's data differ from the evaluations of the "
                              "current run: %s" % d)
            X, fX = getattr(s, "_X", None), getattr(s, "_fX", None)
            if X is not None and fX is not None:
                have = list(zip(rows(X), [float(v) for v in np.ravel(fX)]))
                d = diff_multiset(fresh, have)
                if d and diff_multiset(known + fresh, have):
                    self.fail("C07", "run-content", "the data of the current run differ from its evaluations: %s" % d)
        if self.on("C15") and self.radius is not None:
            r = getattr(s, "sampling_radius", None)
            if r is not None and abs(r - self.radius.radius) > 1e-12:
                self.fail("C15", "radius", "sampling radius is %r, expected %r (streak %d, %d failed steps)"
                          % (float(r), self.radius.radius, self.radius.streak, self.radius.failures))
        if self.on("C17"):
            k = len(spec["extra_known"])
            have = list(zip(rows(getattr(s, "X", None)), [float(v) for v in np.ravel(getattr(s, "fX", []))]))
            if hasattr(s, "X") and k:
                want = self.expected_history()[:k]
                if diff_multiset([w for w in want if w not in have], []):
                    self.fail("C17", "known-point-lost", "a supplied point with a known value is missing from the "
                              "history")
                    return
            sur = getattr(s, "surrogate", None)
            if k and self.epoch == 0 and hasattr(sur, "X") and hasattr(sur, "fX"):
                have = list(zip(rows(sur.X), [float(v) for v in np.ravel(sur.fX)]))
                if any(not any(same_point(w[0], h[0]) and abs(w[1] - h[1]) <= 1e-9 * (1 + abs(w[1])) for h in have)
                       for w in self.expected_history()[:k]):
                    self.fail("C17", "known-point-unused", "a supplied point with a known value is missing from the "
                              "surrogate")
            for a, b in spec["extra_arrays"]:
                if not np.array_equal(a, b, equal_nan=True):
                    self.fail("C17", "input-changed", "the caller's extra points were modified")

    def check_saved(self, record):
        """A finished evaluation has been processed: the checkpoint contains it."""
        if self.saver is None or not record.is_done or self.shared["viol"] is not None:
            return
        self.shared["saves"] = self.shared.get("saves", 0) + 1
        self.shared["last_saved"] = self.key()
        if self.on("C11"):
            self.check_checkpoint("after an evaluation was %s" % record.status)

    def check_checkpoint(self, when):
        fs, name = self.saver
        data = fs.read(name)
        if data is None:
            self.fail("C11", "not-saved", "there is no checkpoint %s" % when)
        try:
            snap = load_snapshot(data)
        except Exception as e:
            self.fail("C11", "not-loadable", "checkpoint cannot be loaded %s: %s: %s" % (when, type(e).__name__, e))
            return
        d = compare_strategies(self.inner, snap)
        if d:
            self.fail("C11", "stale-checkpoint", "checkpoint %s differs from the strategy: %s" % (when, d))

    # -- distance and merit -----------------------------------------------------------------
    def check_distance(self, x):
        spec = self.spec
        if not self.on("C16") or spec["strategy"] not in ("ei", "lcb"):
            return
        dtol = self.min_distance()
        for e in list(self.inflight.values()) + [c for c in self.completed if c.seq > self.seq_restart]:
            d = float(np.linalg.norm(e.x - x))
            if d < dtol * (1 - 1e-9):
                self.fail("C16", "too-close", "proposed point %s is %g from %s evaluation %s, minimum %g"
                          % (short(x), d, "the pending" if e.status == "flying" else "the finished", short(e.x), dtol))

    def check_merit(self, x):
        spec = self.spec
        if not self.on("C20") or spec["strategy"] not in ("srbf", "dycors", "sop"):
            return
        if take(self.requeued, x) is not None:
            return
        if spec["strategy"] == "sop":
            if self.merit_batch and not self.sop.lost:
                self.check_member(x)
            return
        n = 1 if spec["async"] else spec["batch"]
        if self.merit_batch is None or not self.merit_batch:
            if len(self.predicts) != 1:
                self.merit_batch = None
                return
            cand, vals = self.predicts[0]
            w = spec["weights"] or [0.3, 0.5, 0.8, 0.95]
            ws = [w[(self.weight_pos + i) % len(w)] for i in range(n)]
            self.weight_pos += n
            fresh = [e.x for e in self.completed if e.seq > self.seq_restart]
            pend = [e.x for e in self.inflight.values()]
            self.merit_batch = reference_batch(cand, vals.ravel(), fresh + pend, ws)
        self.check_member(x)
        if spec["async"]:
            self.merit_batch = None

    def check_member(self, x):
        for i, b in enumerate(self.merit_batch):
            if b is None or any(same_point(x, y) for y in b):
                self.merit_batch.pop(i)
                break
        else:
            self.fail("C20", "not-best-candidate", "proposed point %s is not the candidate with the best weighted "
                      "merit (%s)" % (short(x), [short(b[0]) for b in self.merit_batch if b]))

    # -- where the candidates come from ------------------------------------------------------
    def fresh(self):
        return [e for e in self.completed if e.seq > self.seq_restart]

    def best_points(self):
        """The points around which SRBF and DYCORS may search: the best of the current run."""
        out = []
        known = [Ent(-1, np.ravel(x), "known", 0, 0) for x, v in self.spec["extra_known"]] if self.epoch == 0 else []
        for k, (x, v) in zip(known, self.spec["extra_known"]):
            k.value = float(np.ravel(v)[0])
        for pool in (self.fresh(), self.fresh() + known):
            low = min([e.value for e in pool], default=None)
            out += [e.x for e in pool if e.value == low]
        return out

    def check_sampling(self):
        """The candidates from which the strategy has chosen in this call."""
        spec = self.spec
        if not self.predicts or not self.on("C20", "C22", "C23"):
            return
        if spec["strategy"] in ("srbf", "dycors"):
            if len(self.predicts) == 1 and self.on("C22"):
                cand = self.predicts[0][0]
                if len(cand) >= 10:
                    self.check_candidates(cand, self.best_points(), self.radius.radius)
        elif self.sop is not None and not self.sop.lost:
            self.check_centres()

    def check_candidates(self, cand, centres, radius, prop="C22"):
        t = self.sampled
        self.saw.add("candidates judged")
        if self.on("C22") and not len(self.spec["prob"].int_var):
            want = self.spec["num_cand"] or 100 * self.spec["dim"]
            if len(cand) > want or len(cand) < 0.75 * want and radius >= 0.05:  # some may be too close to be considered
                self.fail("C22", "number", "%d candidates instead of %d" % (len(cand), want))
        others = [e.x for e in self.completed]
        why = t.centre(cand, centres, others, radius)
        if why:
            self.fail(prop, "centre", why)
        if len(set(tuple(c) for c in centres)) > 1:
            return
        why = t.spread(cand, centres[0], radius)
        if why:
            self.fail(prop, "radius", why)
        n = len(self.completed) + len(self.inflight) + len(self.spec["extra_known"]) - self.spec["num_pts"] + 1.0
        p = perturb_probability(self.spec["dim"], n, self.spec["max_evals"] - self.spec["num_pts"])
        if p is not None and self.on("C22"):
            why = t.fraction(cand, centres[0], p)
            if why:
                self.fail("C22", "perturbation", why)

    def check_centres(self):
        spec, sop = self.spec, self.sop
        n = 1 if spec["async"] else spec["batch"]
        sop.select()
        if len(self.predicts) != n:
            sop.lost = "unexpected number of predictions"
        taken = [e.x for e in self.fresh()] + [e.x for e in self.inflight.values()]
        for cand, vals in self.predicts:
            c = None if sop.lost else sop.next_free()
            if c is None:
                sop.lost = sop.lost or "no free centre"
                return
            p = sop.points[c["index"]]
            self.saw.add("SOP centre judged")
            if self.on("C22", "C23"):
                prop = "C23" if self.on("C23") else "C22"
                self.check_candidates(cand, [p["x"]], p["radius"], prop)
            got = reference_batch(cand, vals.ravel(), taken, [1.0])[0]
            if got is None:
                sop.lost = "no candidate keeps its distance"
                return
            c["options"] = got
        self.merit_batch = [c["options"] for c in sop.centres if c["options"] is not None and c["result"] is None]

    # -- EI and LCB ----------------------------------------------------------------------
    def merits(self):
        """(points, merit to be maximised, threshold) for each way to count known points."""
        spec = self.spec
        X = np.vstack([a for a, _ in self.stds])
        sd = np.concatenate([b.ravel() for _, b in self.stds])
        where = {}
        for a, b in self.predicts:
            for x, v in zip(a, b.ravel()):
                where[tuple(x)] = v
        if not all(tuple(x) in where for x in X):
            return
        mu = np.array([where[tuple(x)] for x in X])
        taken = [e.x for e in self.fresh()] + [e.x for e in self.inflight.values()]
        dtol = self.min_distance()
        dist = np.array([min(np.linalg.norm(x - t) for t in taken) for x in X])
        known = [float(np.ravel(v)[0]) for _, v in spec["extra_known"]]
        every = [e.value for e in self.completed] + known
        spread = 1e-6 * (max(every) - min(every))
        for best in {min(e.value for e in self.fresh()), min([e.value for e in self.fresh()] + known)}:
            if spec["strategy"] == "ei":
                m = improvement(mu, sd, best)
                m[dist < dtol] = 0.0
                t = spread if spec["tol"] is None else spec["tol"]
            else:
                m = -(mu - (2.0 if spec["kappa"] is None else spec["kappa"]) * sd)
                m[dist < dtol] = -np.inf
                t = -(min(every) - (spread if spec["tol"] is None else spec["tol"]))
            if np.any(np.isnan(m)):
                continue
            yield X, m, t, dist, dtol

    def min_distance(self):
        spec = self.spec
        if spec["dtol"] is not None:
            return spec["dtol"]
        return 1e-3 * np.linalg.norm(spec["prob"].ub - spec["prob"].lb)

    def check_worth(self, x):
        """The proposed point is the best that EI's or LCB's search has seen, and reaches the tolerance."""
        spec = self.spec
        if not self.on("C24") or spec["strategy"] not in ("ei", "lcb") or not self.stds \
                or not self.fresh():
            return
        if not spec["async"] and spec["batch"] > 1:
            return
        why = None
        for X, m, t, dist, dtol in self.merits():
            here = [i for i in range(len(X)) if same_point(X[i], x)]
            if not here:
                return
            near = np.abs(dist - dtol) < 1e-9 * (1 + dtol)
            eps = 1e-7 * (abs(t) + np.ptp(m[np.isfinite(m)]) if np.isfinite(m).any() else 0)
            best = m[~near].max() if (~near).any() else -np.inf
            self.saw.add("EI or LCB proposal judged")
            if m[here].max() < best - eps:
                why = "the search has seen merit %g, the proposed point %s has %g" % (best, short(x), m[here].max())
            elif m[here].max() < t - eps:
                why = "the proposed point %s has merit %g, the tolerance is %g" % (short(x), m[here].max(), t)
            else:
                return
        if why:
            self.fail("C24", "not-worth", why)

    def check_gave_up(self):
        """A new run starts: the search must not have seen a point that reaches the tolerance."""
        spec = self.spec
        if not self.on("C24") or spec["strategy"] not in ("ei", "lcb") or not self.stds \
                or not self.fresh():
            return
        if not spec["async"] and spec["batch"] > 1:
            return
        why = None
        for X, m, t, dist, dtol in self.merits():
            ok = np.abs(dist - dtol) >= 1e-9 * (1 + dtol)
            self.saw.add("EI or LCB convergence judged")
            i = int(np.argmax(np.where(ok, m, -np.inf)))
            eps = 1e-7 * (abs(t) + np.ptp(m[np.isfinite(m)]) if np.isfinite(m).any() else 0)
            if ok[i] and m[i] > t + eps:
                why = "the run is given up although the search has seen %s with merit %g, tolerance %g" % (
                    short(X[i]), m[i], t)
            else:
                return
        if why:
            self.fail("C24", "gave-up", why)


def digest(data):
    return hashlib.sha1(data or b"").hexdigest()


def load_snapshot(data):
    """The strategy in a checkpoint; nothing that happens to it is observed."""
    cur = taps.CUR
    taps.set_current(None)
    try:
        return dill.loads(data)
    finally:
        taps.set_current(cur)


def observable(s):
    """What a checkpoint must preserve of a strategy."""
    out = {}
    for k in ("X", "fX", "Xpend"):
        if hasattr(s, k):
            out[k] = rows(getattr(s, k)) if k != "fX" else [float(v) for v in np.ravel(s.fX)]
    for k in ("num_evals", "max_evals", "sampling_radius", "converged", "phase"):
        if hasattr(s, k):
            out[k] = getattr(s, k)
    if hasattr(s, "fevals"):
        out["fevals"] = [(getattr(r, "simid", None), r.status, None if r.value is None else float(r.value))
                         for r in s.fevals]
    sur = getattr(s, "surrogate", None)
    if sur is not None and hasattr(sur, "X"):
        out["surrogate points"] = rows(sur.X)
    return out


def compare_strategies(live, snap):
    a, b = observable(live), observable(snap)
    for k in a:
        if a[k] != b.get(k):
            if isinstance(a[k], list):
                return "%s has %d entries in the checkpoint, %d in the strategy" % (k, len(b.get(k) or []), len(a[k])) \
                    if len(b.get(k) or []) != len(a[k]) else "%s differs" % k
            return "%s is %r in the checkpoint, %r in the strategy" % (k, b.get(k), a[k])
    return None


def reference_batch(cand, vals, taken, weights, dtol=1e-3):
    """The candidates the weighted-distance merit selects, each with its ties; None where any would do."""
    def scale(v):
        lo, hi = v.min(), v.max()
        return np.ones_like(v) if hi == lo else (v - lo) / (hi - lo)
    dist = np.array([min(np.linalg.norm(c - t) for t in taken) for c in cand])
    f = scale(vals)
    out = []
    for w in weights:
        merit = w * f + (1 - w) * (1 - scale(dist))
        ok = dist >= dtol
        if not ok.any():
            out.append(None)
            continue
        best = merit[ok].min()
        near = np.where(ok & (merit <= best + 1e-9))[0]
        edge = np.where((np.abs(dist - dtol) < 1e-12) & (merit <= best + 1e-9))[0]
        out.append([cand[j] for j in near] + [cand[j] for j in edge])
        if len({tuple(cand[j]) for j in near}) > 1:  # a tie: the rest of the batch depends on it
            out.extend([None] * (len(weights) - len(out)))
            break
        j = near[0]
        dist = np.minimum(dist, np.linalg.norm(cand - cand[j], axis=1))
    return out


def diff_multiset(want, have):
    """None if equal, else a description. Items are (point, value)."""
    want, have = list(want), list(have)
    if want == have:
        return None
    missing = []
    left = list(have)
    index = {}
    for i, h in enumerate(left):
        index.setdefault(h, []).append(i)
    used = set()
    for w in want:
        ids = index.get(w)
        if ids:
            used.add(ids.pop())
        else:
            missing.append(w)
    extra = [h for i, h in enumerate(left) if i not in used]
    # allow for rounding in the last place
    for m in list(missing):
        for h in extra:
            if same_point(m[0], h[0]) and abs(m[1] - h[1]) <= 1e-12 * (1 + abs(h[1])):
                missing.remove(m)
                extra.remove(h)
                break
    if not missing and not extra:
        return None
    parts = []
    if missing:
        parts.append("missing %d, e.g. %s -> %r" % (len(missing), short(missing[0][0]), missing[0][1]))
    if extra:
        parts.append("unexpected %d, e.g. %s -> %r" % (len(extra), short(extra[0][0]), extra[0][1]))
    return "; ".join(parts)
