"""Core of the simulator: the recorded choice stream, violations, trace and coverage.

Every nondeterministic decision of a run (generated input, thread schedule, packet
fate, fault instant) is one draw from a Choices object.  A run is a pure function of
the list of drawn values and the code, so the list is the replay file, and shrinking
the list shrinks workload, schedule and faults together.  Value 0 is always the
simplest / most benign choice.
"""
import hashlib
import random


class Violation(Exception):
    """The property is broken.  `kind` names the violated clause (used while shrinking)."""

    def __init__(self, kind, detail, key=None):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail
        self.key = key or kind  # identifies a known finding


class HarnessError(Exception):
    """The simulator itself is at fault; never reported as a violation."""


class Choices:
    MAX = 400000

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.log = []      # drawn values
        self.labels = []   # (label, n)

    def draw(self, n, label=""):
        """An integer in [0, n)."""
        n = int(n)
        if n <= 1:
            return 0
        i = len(self.log)
        if i >= self.MAX:
            v = 0
        elif self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        self.labels.append((label, n))
        return v

    def chance(self, num, den, label=""):
        """True with probability num/den; 0 (the simplest draw) is False."""
        if num <= 0:
            return False
        return self.draw(den, label) >= den - num

    def range(self, lo, hi, label=""):
        return lo + self.draw(hi - lo + 1, label)

    def pick(self, seq, label=""):
        return seq[self.draw(len(seq), label)]

    def weighted(self, pairs, label=""):
        """pairs: [(value, weight)]; the first one is the simplest."""
        tot = sum(w for _, w in pairs)
        x = self.draw(tot, label)
        for v, w in pairs:
            if x < w:
                return v
            x -= w
        raise AssertionError

    def bulk(self, label=""):
        """A private generator for bulk content (one draw, so that traces stay short)."""
        return random.Random(self.draw(1 << 20, label + ":bulk"))


class Run:
    """Book-keeping of one simulated execution."""

    def __init__(self, ch, tier="quick"):
        self.ch = ch
        self.tier = tier
        self.h = hashlib.sha1()
        self.trace = []          # human-readable, bounded
        self.stats = {}          # summed over runs
        self.states = set()      # hashed abstract states / interleavings, merged over runs
        self.nontrivial = False
        self.sample = None
        self.sim_ns = 0          # simulated time covered
        self.soft = []           # violations matching known findings (key, detail)

    def note(self, *a):
        s = " ".join(str(x) for x in a)
        self.h.update(s.encode() + b"\n")
        if len(self.trace) < 4000:
            self.trace.append(s)

    def digest(self, b):
        self.h.update(b if isinstance(b, (bytes, bytearray)) else repr(b).encode())

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def state(self, *a):
        self.states.add(hashlib.sha1(repr(a).encode()).hexdigest()[:12])
