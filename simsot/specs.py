"""Random configurations of an optimization run.

Option 0 of every decision is the plainest one.  The option lists contain only
what the documentation of pySOT allows: enough design points to build the
surrogate while workers are busy, max_evals not below the design, integer
bounds for integer variables.
"""
import random

import numpy as np

from . import taps

STRATEGIES = ["srbf", "dycors", "sop", "ei", "lcb", "random"]

# number of evaluations after the initial design
BUDGETS = {
    "short": (1, 6),
    "medium": (6, 22),
    "long": (30, 75),
    "huge": (90, 150),
}

# name of the surrogate -> minimum number of points
SURROGATES = ["rbf-cubic-linear", "rbf-tps-linear", "rbf-linear-constant", "rbf-linear-linear", "poly1", "poly2",
              "gp", "rbf-default-cubic"]

OBJECTIVES = ["quadratic", "multimodal", "plateau", "rising", "falling", "large", "noisy", "constant"]
RETURNS = ["float", "np.float64", "int", "np.float32"]


class Objective(object):
    """A deterministic function of the point (and for some kinds of the number of evaluations so far)."""

    def __init__(self, kind, returns, lb, ub, salt):
        self.kind, self.returns, self.lb, self.ub, self.salt = kind, returns, lb, ub, salt
        self.center = lb + (ub - lb) * np.random.RandomState(salt).rand(len(lb))

    def raw(self, x, n):
        u = (np.asarray(x, dtype=float) - self.lb) / (self.ub - self.lb)
        c = (self.center - self.lb) / (self.ub - self.lb)
        q = float(np.sum((u - c) ** 2))
        k = self.kind
        if k == "quadratic":
            return 10 * q
        if k == "multimodal":
            return 10 * q + float(np.sum(1 - np.cos(9 * np.pi * (u - c))))
        if k == "plateau":
            return float(np.floor(6 * q))
        if k == "rising":  # nothing ever improves
            return 5.0 + n + q
        if k == "falling":  # every evaluation improves a lot
            return 1000.0 - 7.0 * n + q
        if k == "large":
            return 1e6 * (q - 0.3)
        if k == "noisy":
            return 10 * q + random.Random("%s/%s" % (self.salt, n)).random() * 4
        return 3.0

    def __call__(self, x, n):
        v = self.raw(x, n)
        if self.returns == "int":
            return int(round(v * 16))
        if self.returns == "np.float64":
            return np.float64(v)
        if self.returns == "np.float32":
            return np.float32(v)
        return float(v)


def domain(ch, tag="", min_dim=1, intsw=None, dims=None):
    if dims is None:
        dim = ch.pick(tag + "dim", [2, 1, 3, 4, 6, 9], [4, 2, 3, 2, 1, 0.4])
    else:
        dim = ch.pick(tag + "dim", dims)
    dim = max(dim, min_dim)
    kind = ch.pick(tag + "domain", ["cube", "unit", "asym", "shifted", "wide", "small-int", "tiny", "far", "uneven"],
                   [3, 3, 3, 3, 3, 3, 1, 1, 1])
    i = np.arange(dim, dtype=float)
    if kind == "cube":
        lb, ub = -5.0 * np.ones(dim), 5.0 * np.ones(dim)
    elif kind == "unit":
        lb, ub = np.zeros(dim), np.ones(dim)
    elif kind == "asym":
        lb, ub = -2.0 * (i + 1), i + 3.0
    elif kind == "shifted":
        lb, ub = 100.0 + 10 * i, 108.0 + 13 * i
    elif kind == "wide":
        lb, ub = -1000.0 * np.ones(dim), 2000.0 + i
    elif kind == "tiny":
        lb, ub = np.zeros(dim), 1e-4 * (i + 1)
    elif kind == "far":
        lb, ub = 1e6 + i, 1e6 + 2.0 + 2 * i
    elif kind == "uneven":
        lb, ub = -10.0 ** np.mod(2 * i - 1, 5), 10.0 ** np.mod(3 - i, 5)
    else:
        lb, ub = -1.0 * np.ones(dim), 3.0 + np.mod(i, 3)
    ints = ch.pick(tag + "ints", ["none", "first", "last", "all", "some"], intsw or [5, 1, 1, 1, 1])
    iv = {"none": [], "first": [0], "last": [dim - 1], "all": list(range(dim)), "some": list(range(0, dim, 2))}[ints]
    if kind in ("unit", "tiny"):
        for j in iv:
            ub[j] = 4.0
    prob = taps.SimProblem(dim, lb, ub, iv)
    return prob


def build(ch, strategies=None, sweights=None, asyncs=None, controllers=None, budget=None, bweights=None,
          faults=True, extras=True, restarts=None, intsw=None, extraw=None, faultw=None, ncand=None, distinct=False, dims=None,
          designw=None, like=None, sample=None, tag=""):
    """Decide about one configuration; returns a spec (a plain dict).

    like: another configuration, whose problem and, if possible, design are used.
    """
    t = tag
    strat = ch.pick(t + "strategy", STRATEGIES, sweights or [4, 4, 3, 1, 1, 1])
    if strategies is not None:
        strat = strategies[STRATEGIES.index(strat) % len(strategies)]
    spec = {"strategy": strat}
    prob = like["prob"] if like else domain(ch, t, intsw=intsw, dims=dims)
    dim = prob.dim
    spec["prob"], spec["dim"] = prob, dim
    a = ch.pick(t + "async", [True, False])
    if asyncs is not None:
        a = asyncs
    spec["async"] = a
    ctl = ch.pick(t + "controller", ["chaos", "thread", "team", "serial"], [5, 4, 2, 1])
    if controllers is not None and ctl not in controllers:
        ctl = controllers[0]
    spec["controller"] = ctl
    w = ch.pick(t + "workers", [1, 2, 3, 4, 6], [1, 2, 2, 2, 1])
    spec["workers"] = w = 1 if ctl == "serial" else w
    spec["batch"] = ch.pick(t + "batch", [1, 2, 3, 4, 5])
    if strat in ("ei", "lcb"):
        spec["batch"] = 1 + (spec["batch"] - 1) % 2
    spec["ncenters"] = max(4, ch.pick(t + "ncenters", [4, 5, 6, 8])) if strat == "sop" else 0
    spec["weights"] = ch.pick(t + "weights", [None, [0.5], [1.0, 0.0], [0.2, 0.9, 0.6]], [3, 1, 1, 1])
    spec["num_cand"] = ch.pick(t + "num_cand", ncand or [20, 35, 50, None], None if ncand else [5, 5, 5, 1])
    spec["npseed"] = ch.pick(t + "npseed", range(2 ** 31))
    # surrogate
    if strat in ("ei", "lcb"):
        spec["surrogate"] = "gp"
    else:
        spec["surrogate"] = ch.pick(t + "surrogate", SURROGATES, [6, 3, 3, 2, 1, 1, 0.5, 2])
    spec["transform"] = ch.pick(t + "transform", [None, "clip-median", "in-place"], [8, 1, 1])
    ntail = {"rbf-linear-constant": 1, "poly1": dim + 1, "poly2": dim + 1, "gp": 2}.get(spec["surrogate"], dim + 1)
    if strat == "sop":
        ntail = max(ntail, 2)  # it measures distances between evaluated points
    inflight = w if a else 1
    spec["design"] = ch.pick(t + "design", ["slhd", "lhd", "two"],
                             designw or ([1, 9, 0.5] if distinct else [3, 2, 1]))  # a lattice has ties of distances
    if spec["design"] == "slhd":
        ntail = max(ntail, 2 * dim)  # pairs of mirrored points span less
    need = ntail + inflight + (2 if len(prob.int_var) else 0)
    n = max(2 * dim, need, 3) + ch.pick(t + "design_extra", [0, 1, 2, 5], [1, 0, 0, 0] if designw else None)
    if spec["design"] == "two":
        if 2 ** dim >= need and 2 <= dim <= 6:
            n = 2 ** dim
        else:
            spec["design"] = "slhd"
    if like and like["strategy"] != "random" and like["num_pts"] >= n and "two" not in (spec["design"], like["design"]):
        spec["design"], n = like["design"], like["num_pts"]
    spec["num_pts"] = n
    # supplied points
    spec["extra_known"], spec["extra_unknown"], spec["extra_arrays"], spec["extra_args"] = [], [], [], (None, None)
    salt = ch.int(t + "objective_salt", 0, 999)
    spec["objective"] = Objective(ch.pick(t + "objective", OBJECTIVES, [3, 3, 2, 2, 2, 2, 2, 0.5]),
                                  ch.pick(t + "returns", RETURNS, [4, 2, 1, 1]), prob.lb, prob.ub, salt)
    if strat == "ei" and spec["objective"].kind in ("constant", "plateau"):
        spec["objective"].kind = "quadratic"  # the default ei_tol is 0 as long as all values are equal
    if distinct and (spec["objective"].kind in ("constant", "plateau") or spec["objective"].returns == "int"):
        spec["objective"].kind, spec["objective"].returns = "multimodal", "float"  # no two points of equal value
    if extras and strat != "random":
        k = ch.pick(t + "extra_known", [0, 1, 2, 3], extraw or [4, 1, 1, 1])
        u = ch.pick(t + "extra_unknown", [0, 1, 2, 3], extraw or [4, 1, 1, 1])
        if k + u:
            unknown = ch.pick(t + "unknown_as", ["nan", "inf", "-inf"])
            order = ch.pick(t + "extra_order", ["known first", "unknown first", "mixed"])
            r = np.random.RandomState(salt + 17)
            pts = prob.lb + r.rand(k + u, dim) * (prob.ub - prob.lb)
            if len(prob.int_var):
                pts[:, prob.int_var] = np.round(pts[:, prob.int_var])
            flags = [True] * k + [False] * u
            if order == "unknown first":
                flags.reverse()
            elif order == "mixed":
                random.Random(salt).shuffle(flags)
            vals = np.array([[float(spec["objective"].raw(p, 0))] if f else [float(unknown)]
                             for p, f in zip(pts, flags)])
            novals = k == 0 and ch.pick(t + "no_vals", [False, True])
            spec["extra_known"] = [(p.copy(), v.copy()) for p, v, f in zip(pts, vals, flags) if f]
            spec["extra_unknown"] = [p.copy() for p, f in zip(pts, flags) if not f]
            spec["extra_args"] = (pts, None if novals else vals)
            spec["extra_arrays"] = [(pts, pts.copy()), (vals, vals.copy())]
    # budget
    size = ch.pick(t + "budget", ["short", "medium", "long", "huge"], ((bweights or [2, 5, 2]) + [0])[:4])
    lo, hi = BUDGETS[size]
    if strat in ("ei", "lcb", "random"):
        lo, hi = {"short": (1, 4), "medium": (4, 10), "long": (8, 16), "huge": (8, 24)}[size]
    if strat == "sop":
        lo = max(lo, 2)
    more = ch.int(t + "adaptive_evals", lo, hi)
    spec["max_evals"] = n + len(spec["extra_unknown"]) + more
    if ch.pick(t + "tight_budget", [False, True], [12, 1]) and strat not in ("sop", "dycors"):
        spec["max_evals"] = n  # the design alone
    if strat == "random":
        spec["max_evals"] = more + 3
        if sample is not None:
            spec["max_evals"] = sample[0] + ch.int(t + "sample", 0, sample[1] - sample[0])
    r = ch.pick(t + "restarts", [True, False], [4, 1])
    spec["restarts"] = r if restarts is None else restarts
    spec["tol"] = ch.pick(t + "tol", [None, 0.5, 3.0, 0.02], [4, 1, 1, 1])
    spec["kappa"] = ch.pick(t + "kappa", [None, 0.3, 0.0, 5.0], [4, 1, 1, 1])
    spec["dtol"] = ch.pick(t + "dtol", [None, 0.02, 0.1])
    if spec["dtol"] is not None:
        spec["dtol"] = float(spec["dtol"] * np.linalg.norm(prob.ub - prob.lb))
        if len(prob.int_var):
            spec["dtol"] = None
    # faults
    spec["faults"] = spec["rejects"] = spec["deaths"] = 0
    spec["p_fail"] = spec["p_reject"] = 0.0
    spec["p_reorder"] = ch.pick(t + "p_reorder", [0.0, 0.3, 0.8])
    spec["delays"] = ch.pick(t + "delays", ["equal", "varied", "stall"])
    spec["noise"] = ch.pick(t + "noise", [False, True])
    spec["kills"] = ch.pick(t + "kills", [False, True])
    spec["reraise"] = False
    if faults:
        spec["faults"] = ch.pick(t + "faults", [0, 1, 3, 6, 12], faultw or [3, 2, 3, 2, 1])
        spec["p_fail"] = ch.pick(t + "p_fail", [0.08, 0.25, 0.5])
        spec["rejects"] = ch.pick(t + "rejects", [0, 1, 4, 12], [2, 1, 2, 2])
        spec["p_reject"] = ch.pick(t + "p_reject", [0.1, 0.3])
        spec["deaths"] = ch.pick(t + "deaths", [0, 1, 2]) if w > 1 else 0
    return spec
