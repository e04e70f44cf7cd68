"""Choice stream, violations, world state.

Every decision of a simulated run (schedule, delay, fault, input, answer) is one
integer taken from one `Choices` stream.  A run is therefore a pure function of
that stream: a seed generates it, a replay file records it, the shrinker edits it.
Value 0 is always the simplest option (no fault, first task, shortest input).
"""
import hashlib
import random


class Violation(Exception):
    """The property does not hold: `kind` identifies the violated clause."""

    def __init__(self, kind, message):
        super().__init__(f'{kind}: {message}')
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    """The machinery met something it cannot judge (never reported as a violation)."""


class SimKill(KeyboardInterrupt):
    """The simulated process is gone (kill -9, power loss).

    A KeyboardInterrupt subclass, so that asyncio lets it through; once raised
    nothing the unwinding code does has an effect any more."""


class SimDeadlock(BaseException):
    """All simulated activity is blocked and nothing is left that could wake it."""


class Choices:
    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.values = []
        self.labels = []

    def draw(self, n, label=''):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        i = len(self.values)
        if self.replay is None:
            value = self.rng.randrange(n)
        else:
            value = self.replay[i] if i < len(self.replay) else 0
            if not 0 <= value < n:
                value %= n
        self.values.append(value)
        self.labels.append(label)
        if len(self.values) > 2_000_000:
            raise HarnessError('choice stream too long')
        return value

    def chance(self, n, label=''):
        """True with probability 1/n, False on 0."""
        return self.draw(n, label) == n - 1 if n > 1 else True

    def flag(self, label=''):
        return self.draw(2, label) == 1

    def pick(self, items, label=''):
        return items[self.draw(len(items), label)]

    def between(self, low, high, label=''):
        """An integer in [low, high]."""
        return low + self.draw(high - low + 1, label)

    def shuffle(self, items, label=''):
        """A permutation; all-zero draws keep the order."""
        items = list(items)
        result = []
        while items:
            result.append(items.pop(self.draw(len(items), label)))
        return result

    def subrng(self, label=''):
        """A generator for bulk randomness that is not worth shrinking one by one."""
        return random.Random(self.draw(1 << 30, label))


class World:
    """One simulated run."""

    def __init__(self, choices, root):
        self.c = choices
        self.root = root
        self.now = 0.0              # simulated seconds
        self.trace = []             # human readable events
        self.faults = {}            # kind -> times fired
        self.ops = 0                # effect points passed
        self.stats = {}
        self.proc = None            # current Process (incarnation)
        self.pids = 0
        self.fs = None
        self.violations = []
        self.harness_errors = []
        self._hash = hashlib.sha256()

    def log(self, *parts):
        line = ' '.join(map(str, parts))
        self._hash.update(line.encode('utf-8', 'replace') + b'\n')
        if len(self.trace) < 4000:
            self.trace.append(f'[t={self.now:.3f}] {line}')

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log('FAULT', kind)

    def violate(self, kind, message):
        violation = Violation(kind, message)
        self.violations.append(violation)
        self.log('VIOLATION', kind, message)
        raise violation

    def check(self):
        """Code under test may have swallowed the exception."""
        if self.violations:
            raise self.violations[0]
        if self.harness_errors:
            raise self.harness_errors[0]

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def digest(self):
        return self._hash.hexdigest()[:16]


class Current:
    """The world the seams dispatch to; None outside simulated code."""
    world = None


def world():
    return Current.world
