"""Reference models of how adaptive points are found, judged by the candidates the surrogate is asked about.

All statistical tests are likelihood ratios: under the documented distribution the probability that one
exceeds exp(LIMIT) at any time of a run is at most exp(-LIMIT).
"""
import copy
import math

import numpy as np
import scipy.spatial as scp
from scipy.stats import norm

LIMIT = 45.0


def log_density(v, c, sigma, lo, hi):
    """Sum of log densities of a normal distribution around c truncated to [lo, hi]."""
    z = (v - c) / sigma
    mass = norm.cdf((hi - c) / sigma) - norm.cdf((lo - c) / sigma)
    return float(np.sum(-0.5 * z * z) - len(v) * np.log(sigma * mass))


def common_value(v):
    """The value that occurs most often in v and how often."""
    u, n = np.unique(v, return_counts=True)
    k = int(np.argmax(n))
    return float(u[k]), int(n[k])


class CandidateTest(object):
    """Candidates are normal perturbations of the centre, truncated to the box."""
    FACTORS = (0.25, 0.5, 2.0, 4.0)

    def __init__(self, prob, subset):
        self.prob = prob
        self.subset = subset  # only a random subset of the coordinates is perturbed (DYCORS)
        self.llr = {k: 0.0 for k in self.FACTORS}
        self.llr_int = {k: 0.0 for k in self.FACTORS}
        self.llr_prob = {}
        self.llr_coord = {}
        self.cont = [i for i in range(prob.dim) if i not in set(int(j) for j in prob.int_var)]

    def free(self, cand, c):
        """For each continuous coordinate the perturbed values."""
        for i in self.cont:
            v = cand[:, i]
            yield i, (v[v != c[i]] if self.subset else v)

    def likelihood(self, cand, c, radius):
        p, total = self.prob, 0.0
        for i, v in self.free(cand, c):
            if len(v):
                total += log_density(v, c[i], radius * (p.ub[i] - p.lb[i]), p.lb[i], p.ub[i])
        return total

    def centre(self, cand, centres, others, radius):
        """None, or why these candidates do not belong to any of the allowed centres."""
        why = None
        for c in centres:
            why = self._centre(cand, c, others, radius)
            if why is None:
                return None
        return why

    def _centre(self, cand, c, others, radius):
        if self.subset and self.prob.dim > 1:
            for i in self.cont:
                v, n = common_value(cand[:, i])
                if n >= 4 and v != c[i]:
                    return "variable %d keeps the value %g in %d of %d candidates, the centre has %g" % (
                        i, v, n, len(cand), c[i])
            return None
        here = self.likelihood(cand, c, radius)
        for o in others:
            if self.likelihood(cand, o, radius) - here > LIMIT + np.log(1 + len(others)):
                return "the candidates are spread around %s rather than %s" % (np.round(o, 4), np.round(c, 4))
        return None

    def spread(self, cand, c, radius):
        here = self.likelihood(cand, c, radius)
        for k in self.FACTORS:
            self.llr[k] += self.likelihood(cand, c, k * radius) - here
            if self.llr[k] > LIMIT:
                return "the candidates are spread with about %g times the radius %g" % (k, radius)
        here = self.likelihood_int(cand, c, radius, 1.0)
        for k in self.FACTORS:
            self.llr_int[k] += self.likelihood_int(cand, c, radius, k) - here
            if self.llr_int[k] > LIMIT:
                return "the integer variables of the candidates are spread with about %g times the expected deviation" % k
        return None

    def likelihood_int(self, cand, c, radius, factor):
        """Integer variables are rounded; their standard deviation is at least 1."""
        p, total = self.prob, 0.0
        for i in (int(j) for j in p.int_var):
            v = cand[:, i]
            sigma = factor * max(radius * (p.ub[i] - p.lb[i]), 1.0)

            def mass(k):
                a = np.maximum(k - 0.5, p.lb[i])
                b = np.minimum(k + 0.5, p.ub[i])
                sgn = np.where(a + b > 2 * c[i], -1.0, 1.0)  # the tail that is computed accurately
                lo, hi = np.where(sgn > 0, a, 2 * c[i] - b), np.where(sgn > 0, b, 2 * c[i] - a)
                return norm.cdf((hi - c[i]) / sigma) - norm.cdf((lo - c[i]) / sigma)
            every = norm.cdf((p.ub[i] - c[i]) / sigma) - norm.cdf((p.lb[i] - c[i]) / sigma)
            if self.subset:  # whether an unchanged value was perturbed cannot be seen
                v = v[v != c[i]]
                every -= mass(np.array([c[i]]))[0]
            if len(v) and every > 1e-12:
                total += float(np.sum(np.log(np.maximum(mass(v), 1e-300)))) - len(v) * np.log(every)
        return total

    def fraction(self, cand, c, p):
        """Fraction of perturbed coordinates; a candidate always has at least one."""
        if not self.subset or self.prob.dim < 2 or len(self.cont) < self.prob.dim:
            return None
        d = self.prob.dim
        k = np.maximum(np.sum(cand != c, axis=1), 1)

        def like(q):
            q = min(max(q, 1e-12), 1 - 1e-12)
            one = d * q * (1 - q) ** (d - 1) + (1 - q) ** d
            return float(np.sum(np.where(k == 1, np.log(one), k * np.log(q) + (d - k) * np.log(1 - q))))
        here = like(p)
        for f in (-0.6, -0.4, -0.2, -0.1, 0.1, 0.2, 0.4, 0.6):
            q = p + f
            if 0 < q <= 1:
                self.llr_prob[f] = self.llr_prob.get(f, 0.0) + like(q) - here
                if self.llr_prob[f] > LIMIT:
                    return "coordinates are perturbed with probability about %.2f, expected %.3f" % (q, p)
        alone = np.sum((cand != c)[k == 1], axis=0)  # how often each coordinate is the only one perturbed
        n = alone.sum()
        for i in range(d):
            for f in (0.25, 0.5, 0.75, 1.25, 1.5):
                q = min(f / d, 0.95)
                t = self.llr_coord.get((i, f), 0.0) + float(
                    alone[i] * np.log(q * d) + (n - alone[i]) * np.log((1 - q) * d / (d - 1.0)))
                self.llr_coord[(i, f)] = t
                if t > LIMIT:
                    return "variable %d is perturbed %.2g times as often as the others" % (i, f)
        return None


def perturb_probability(dim, done, budget):
    """Of DYCORS: from 20/d (at most 1) down to 1/d, by the logarithm of the adaptive evaluations."""
    if budget <= 1:
        return None
    p = min(20.0 / dim, 1.0) * (1.0 - np.log(done) / np.log(budget))
    return max(p, min(1.0, 1.0 / dim))


class SopModel(object):
    """SOP's archive: radius, failures and tabu status of every point, and the choice of centres."""
    RADIUS, MAX_FAILURES, TENURE = 0.2, 3, 5

    def __init__(self, prob, ncenters, num_exp, max_evals, asynchronous):
        self.prob, self.ncenters, self.num_exp, self.max_evals = prob, ncenters, num_exp, max_evals
        self.asynchronous = asynchronous
        self.points = []  # dicts: x, u, f, failures, tabu, radius
        self.centres = []  # dicts: index, options (points it may have proposed), result
        self.lost = None  # why the model cannot follow any longer
        self.saw = set()

    def clone(self):
        new = copy.copy(self)
        new.points = [dict(p) for p in self.points]
        new.centres = [dict(c) for c in self.centres]
        return new

    # -- the archive --------------------------------------------------------------
    def add(self, x, f):
        u = (x - self.prob.lb) / (self.prob.ub - self.prob.lb)
        self.points.append({"x": x, "u": u, "f": f, "failures": 0, "tabu": 0, "radius": self.RADIUS})

    def owner(self, x):
        own = [c for c in self.centres if c["options"] is not None and c["result"] is None
               and any(np.array_equal(x, o) for o in c["options"])]
        if len(own) > 1:  # equal points proposed for two centres
            self.lost = "two centres share a point"
        return own[0] if own else None

    def completed(self, x, f, adaptive, batch_over):
        self.add(x, f)
        if not adaptive or self.lost:
            return
        c = self.owner(x)
        if c is not None:
            c["result"] = len(self.points) - 1
        if self.asynchronous:
            if c is None:
                self.lost = "a result without a centre"
            else:
                self.adjust([c])
        elif batch_over:
            self.adjust([c for c in self.centres if c["result"] is not None])

    def dropped(self, x, batch_over=False):
        """The evaluation failed, or the proposal was rejected and dropped."""
        if self.lost:
            return
        c = self.owner(x) if x is not None else None
        if c is not None:
            c["options"] = None
        if batch_over and not self.asynchronous:
            done = [c for c in self.centres if c["result"] is not None]
            if done:
                self.saw.add("SOP batch ended with a failure")
                self.adjust(done)

    def all_ranks(self):
        """The ranks for some of the ways in which the distances can be rounded."""
        out = [self.ranks()]
        if not self.lost:
            o = np.argsort(self.near)
            for i, j in zip(o, o[1:]):
                if self.near[j] - self.near[i] < 1e-10 and not (self.nearest[i] == j and self.nearest[j] == i):
                    self.saw.add("SOP distances tie")
                    return out + [self.ranks(k) for k in range(1, 5)]
        return out

    def ranks(self, k=0):
        u = np.array([p["u"] for p in self.points])
        f = np.array([p["f"] for p in self.points])
        d = scp.distance.cdist(u, u)
        if k:
            noise = 1e-12 * np.random.RandomState(k).randn(*d.shape)
            d = d * (1 + (noise + noise.T))
        if np.any(np.sum(d > 0, axis=1) == 0):
            self.lost = "all points are equal"
            return np.ones(len(f))
        d = np.where(d > 0, d, np.inf)
        near = d.min(axis=1)
        if not k:
            self.near, self.nearest = near, d.argmin(axis=1)
        rank = np.full(len(f), np.inf)
        left = np.arange(len(f))
        r, count = 1, 0
        while len(left) and count < 100:
            # a point is dominated by one with a lower value and a larger distance
            dom = (f[left][None, :] < f[left][:, None]) & (near[left][None, :] > near[left][:, None])
            front = ~dom.any(axis=1)
            rank[left[front]] = r
            count += int(front.sum())
            left = left[~front]
            r += 1
        return rank

    def adjust(self, done):
        rank, *others = self.all_ranks()
        if any((r[c["result"]] == 1) != (rank[c["result"]] == 1) for r in others for c in done):
            self.lost = "rank of a result depends on rounding"
        for c in done:
            if rank[c["result"]] != 1:
                p = self.points[c["index"]]
                p["failures"] += 1
                p["radius"] /= 2
                self.saw.add("SOP centre failed")
        for p in self.points:
            if p["tabu"] > 0:
                if p["tabu"] < self.TENURE:
                    p["tabu"] += 1
                else:
                    p.update(tabu=0, failures=0, radius=self.RADIUS)
                    self.saw.add("SOP point no longer tabu")
        for c in done:
            p = self.points[c["index"]]
            if p["failures"] > self.MAX_FAILURES:
                p.update(tabu=1, failures=0, radius=self.RADIUS)
                self.saw.add("SOP point tabu")

    # -- the centres -----------------------------------------------------------------
    def select(self):
        """Bring the list of centres up to date before points are generated."""
        n = len(self.points)
        if len(set(p["f"] for p in self.points)) < n:
            self.lost = "points with equal values"  # their order is not specified
            return
        self.centres = [c for c in self.centres if c["result"] is None]
        count = self.ncenters - len(self.centres)
        if count <= 0:
            return
        some = {tuple(self.choose(rank, count)) for rank in self.all_ranks()}
        if self.lost:
            return
        if len(some) > 1:
            self.lost = "choice of centres depends on rounding"
            return
        self.centres += [{"index": i, "options": None, "result": None} for i in some.pop()]

    def choose(self, rank, count):
        n = len(self.points)
        thresh = 1.0 - float(n - self.num_exp) / float(self.max_evals - self.num_exp)
        busy = {c["index"] for c in self.centres}
        order = sorted(range(n), key=lambda i: (i in busy, self.points[i]["tabu"], rank[i], self.points[i]["f"]))
        best = min(range(n), key=lambda i: self.points[i]["f"])
        if best not in busy:
            order.remove(best)
            order.insert(0, best)
        chosen = [order[0]]
        for i in order[1:]:
            if len(chosen) == count:
                break
            p = self.points[i]
            ok = True
            for j in chosen:
                q = self.points[j]
                limit = 0.5 ** q["failures"] * self.RADIUS * thresh / np.sqrt(self.prob.dim)
                d = np.linalg.norm(p["u"] - q["u"])
                if abs(d - limit) < 1e-12:
                    self.lost = "a point on the rim of the radius rule"
                if d < limit:
                    ok = False
                    break
            if ok:
                chosen.append(i)
            else:
                self.saw.add("SOP radius rule")
        k = len(chosen)
        while len(chosen) < count:
            chosen.append(chosen[len(chosen) % k])
        return chosen

    def next_free(self):
        for c in self.centres:
            if c["options"] is None and c["result"] is None:
                return c
        return None


def not_uniform(u):
    """None, or why these numbers are not uniform in [0, 1] (a sound sample fails with probability 1e-15)."""
    u = np.sort(u)
    n = len(u)
    k = np.arange(n)
    d = max(np.max(u - k / float(n)), np.max((k + 1.0) / n - u))
    limit = math.sqrt(math.log(2e15) / (2 * n))
    if d > limit:
        return "its distribution function differs by %.3f, limit %.3f" % (d, limit)
    if n >= 400 and (u[0] > 40.0 / n or 1 - u[-1] > 40.0 / n):
        return "values range from %.4f to %.4f" % (u[0], u[-1])
    return None


def improvement(mu, sd, best):
    """Expected improvement over best."""
    g = (best - mu) / sd
    return sd * (g * norm.cdf(g) + norm.pdf(g))
