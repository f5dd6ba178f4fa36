"""Choice source, violations, run context.

One run is a pure function of (property, seed, index, code under test): every
decision - generated input, option, fault kind, fault position, who runs next -
is drawn from one Src.  A Src in generating mode records what it drew; a Src in
replay mode reads the recorded list back (an exhausted list yields 0, and 0 is
always the simplest alternative), which is what makes minimising possible.
"""
import hashlib
import random


class Violation(Exception):
    """The property does not hold.  cls is stable across minimisation."""

    def __init__(self, cls, msg):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The machinery itself is at fault; never reported as a violation."""


class Exhausted(Exception):
    """A run drew more choices than the cap (harness bound, not a violation)."""


class Src(object):
    CAP = 400000

    def __init__(self, key=None, replay=None):
        self.replay = replay
        self.rng = random.Random(key) if replay is None else None
        self.out = []
        self.pos = 0

    def draw(self, n):
        """An int in [0, n)."""
        if n <= 1:
            return 0
        if self.replay is None:
            v = self.rng.randrange(n)
        elif self.pos < len(self.replay):
            v = self.replay[self.pos] % n
        else:
            v = 0
        self.pos += 1
        if self.pos > self.CAP:
            raise Exhausted()
        self.out.append(v)
        return v

    def between(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def chance(self, num, den):
        """True with probability num/den; 0 means False."""
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: (item, weight); first item is the simplest."""
        total = sum(w for _, w in pairs)
        v = self.draw(total)
        for item, w in pairs:
            if v < w:
                return item
            v -= w
        raise HarnessError('weighted')

    def size(self, lo, hi):
        """An int in [lo, hi] biased towards small values."""
        if self.draw(3) < 2:
            return self.between(lo, min(hi, lo + max(1, (hi - lo) // 6)))
        return self.between(lo, hi)

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.chance(num, den)]


class Ctx(object):
    """Everything a scenario may touch besides the code under test."""

    def __init__(self, src, world, keep_log=False, params=None):
        self.src = src
        self.world = world
        self.params = params or {}
        self.keep_log = keep_log
        self.events = []
        self.nevents = 0
        self._h = hashlib.sha256()
        self._il = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.sample = {}
        self.steps = 0            # simulated steps: I/O calls, operations, preemption points
        self.nontrivial = False

    def log(self, *ev):
        s = ' '.join(str(e) for e in ev)
        self._h.update(s.encode('utf-8', 'backslashreplace') + b'\n')
        self.nevents += 1
        if self.keep_log and len(self.events) < 4000:
            self.events.append(s)

    def sched(self, *ev):
        """A scheduling or fault decision: feeds the distinct-interleavings measure."""
        self._il.update(repr(ev).encode('utf-8', 'backslashreplace'))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return self._h.hexdigest()[:16]

    def ildigest(self):
        return self._il.hexdigest()[:16]


def expect(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg() if callable(msg) else msg)
