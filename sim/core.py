"""What a check's scenario execution sees."""
import random
from collections import Counter

MASK = (1 << 64) - 1


class Violation(Exception):
    def __init__(self, kind, msg=""):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind, self.msg = kind, str(msg)[:2000]


class Ctx:
    """One execution: every decision of the simulator comes from choose() (or, below it, from the simulated OpenMP
    runtime); all of them are recorded and can be replayed."""

    def __init__(self, seed, omp=None, decisions=None, native=None):
        self.rng = random.Random("ctx:%s" % seed)
        self.omp = omp
        self.replay = decisions
        self.native_replay = native
        self.decisions = []
        self.native = []
        self.stats = Counter()
        self.hashes = []
        self.h = 1469598103934665603
        self.nontrivial = False
        self.log = []

    def choose(self, n, p0=None):
        """An integer below n; 0 is the undisturbed choice (taken with probability p0 when given)."""
        if n <= 1:
            return 0
        if self.replay is not None:
            i = len(self.decisions)
            v = self.replay[i] if i < len(self.replay) else 0
            v = v if v < n else 0
        elif p0 is not None:
            v = 0 if self.rng.random() < p0 else self.rng.randrange(1, n)
        else:
            v = self.rng.randrange(n)
        self.decisions.append(v)
        self.mix(v + 1)
        return v

    def mix(self, v):
        self.h = ((self.h ^ (v & MASK)) * 1099511628211) & MASK

    def state(self, h, nontrivial=True):
        """Note one explored interleaving / state."""
        self.hashes.append(hash_int(h))
        if nontrivial:
            self.nontrivial = True

    def count(self, name, n=1):
        self.stats[name] += n

    def schedule(self, s):
        return _Sched(self, s)


class _Sched:
    def __init__(self, ctx, s):
        self.ctx, self.s = ctx, s

    def __enter__(self):
        c = self.ctx
        r = None
        if c.native_replay is not None and len(c.native) < len(c.native_replay):
            r = c.native_replay[len(c.native)]
        self.before = c.omp.stats()
        c.omp.start(self.s, r)
        return self

    def __exit__(self, *a):
        c = self.ctx
        trace, h, steps = c.omp.stop()
        c.native.append(trace)
        c.mix(h)
        self.hash = h
        after = c.omp.stats()
        for k in after:
            if k != "hot_sites":
                c.stats["omp_" + k] += after[k] - self.before[k]
        self.multi = after["multi_thread_regions"] - self.before["multi_thread_regions"]
        self.switches = after["switches"] - self.before["switches"]
        return False


def hash_int(x):
    if isinstance(x, int):
        return x & MASK
    h = 1469598103934665603
    for b in str(x).encode():
        h = ((h ^ b) * 1099511628211) & MASK
    return h
