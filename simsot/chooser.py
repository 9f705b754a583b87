"""One seed decides everything.

A Chooser hands out every decision of one simulated run.  Configuration
decisions have a name (so that adding one does not disturb the others); event
decisions form a list, in the order in which the simulation asks for them.
Option 0 is always the benign one, so a replay file can leave decisions out:
a missing decision is 0.
"""
import random


class Chooser(object):
    def __init__(self, seed=None, cfg=None, ev=None, force=None):
        self.seed = seed
        self.replay = cfg is not None or ev is not None
        self._cfg_in = dict(cfg or {})
        self._ev_in = list(ev or [])
        self.force = dict(force or {})  # name -> option index, set by a scenario (part of the run's definition)
        self.cfg = {}
        self.ev = []
        self._rng = None if self.replay else random.Random("ev/%s" % seed)

    # -- configuration -------------------------------------------------------
    def pick(self, name, options, weights=None):
        """A named configuration decision: one of options."""
        n = len(options)
        if name in self.cfg:
            return options[self.cfg[name] % n]
        if self.replay:
            i = int(self._cfg_in.get(name, 0)) % n
        elif name in self.force:
            i = self.force[name] % n
        else:
            rng = random.Random("cfg/%s/%s" % (self.seed, name))
            i = rng.choices(range(n), weights=weights)[0] if weights else rng.randrange(n)
        self.cfg[name] = i
        return options[i]

    def int(self, name, lo, hi):
        """A named integer in [lo, hi]; lo is the benign value."""
        return self.pick(name, range(lo, hi + 1))

    # -- events --------------------------------------------------------------
    def ev_(self, n, p=None):
        """An event decision in range(n): 0 with probability 1 - p (uniform if p is None)."""
        if n <= 1:
            return 0
        if self.replay:
            k = len(self.ev)
            i = int(self._ev_in[k]) % n if k < len(self._ev_in) else 0
        elif p is None:
            i = self._rng.randrange(n)
        elif self._rng.random() < p:
            i = 1 + self._rng.randrange(n - 1)
        else:
            i = 0
        self.ev.append(i)
        return i

    def decisions(self):
        ev = list(self.ev)
        while ev and ev[-1] == 0:
            ev.pop()
        return {"cfg": dict(self.cfg), "ev": ev}
