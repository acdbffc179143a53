"""The process's random source, under the simulator's control."""
import os
import random

_inst = random._inst
_real = {name: getattr(_inst, name) for name in ("random", "getrandbits")}
TOP = 1.0 - 2.0**-53


def install():
    """Module functions look the source up on every draw (so early imports of them are caught too)."""

    def random_():
        return _inst.random()

    def getrandbits(k):
        return _inst.getrandbits(k)

    from . import clock, diceseam

    diceseam.install()
    random.random = random_
    random.getrandbits = getrandbits
    real_seed = random.seed

    def seed(a=None, version=2):
        real_seed(_entropy.getrandbits(256) if a is None else a, version)

    random.seed = seed
    clock.install()
    # the operating system's entropy: other generators the code may make are seeded from here
    random.Random = SimRandom
    random._urandom = os.urandom = _urandom


class SimRandom(random.Random):
    def __init__(self, x=None):
        self.seed(x)
        self.gauss_next = None

    def seed(self, a=None, version=2):
        random_class.seed(self, _entropy.getrandbits(256) if a is None else a, version)


random_class = SimRandom.__mro__[1]
_entropy = random_class()


def _urandom(size):
    return _entropy.getrandbits(8 * size).to_bytes(size, "little") if size else b""


def fresh_entropy():
    _entropy.seed("entropy:%s" % os.environ.get("PYTHONHASHSEED"))


def fair(seed):
    restore()
    random.seed("fair:%s" % seed)


def restore():
    """At the start of a run."""
    for name in ("random", "getrandbits"):
        _inst.__dict__.pop(name, None)


class Stream:
    """Legal but hostile randomness: stuck, extreme, alternating, on the edges between faces."""

    KINDS = ("zero", "top", "alternate", "edges", "stuck", "few", "fair", "ramp")

    def __init__(self, seed, fail_at=None, make_fault=None, kinds=None):
        self.rng = random.Random("stream:%s" % seed)
        self.kinds = kinds or self.KINDS
        self.left = 0
        self.kind = None
        self.draws = 0
        self.rejected = 0
        self.fail_at = fail_at
        self.make_fault = make_fault
        self.fired = False
        self.used = {}

    def _next_kind(self):
        self.kind = self.rng.choice(self.kinds)
        self.left = self.rng.choice([1, 2, 5, 20, 100])
        self.value = self.rng.random()
        self.pool = [self.rng.random() for _ in range(2)]
        self.used[self.kind] = self.used.get(self.kind, 0) + 1

    def _draw(self):
        self.draws += 1
        if self.fail_at is not None and self.draws >= self.fail_at and not self.fired:
            self.fired = True
            raise self.make_fault()
        if self.left <= 0:
            self._next_kind()
        self.left -= 1
        kind = self.kind
        if kind == "zero":
            return 0.0
        if kind == "top":
            return TOP
        if kind == "alternate":
            return TOP if self.draws % 2 else 0.0
        if kind == "edges":
            n = self.rng.choice([2, 3, 4, 5, 6, 8, 10, 12, 20, 100])
            value = self.rng.randrange(0, n + 1) / n + self.rng.choice([-(2.0**-53), 0.0, 2.0**-53])
            return min(TOP, max(0.0, value))
        if kind == "stuck":
            return self.value
        if kind == "few":
            return self.rng.choice(self.pool)
        if kind == "ramp":
            return (self.draws % 16) / 16.0
        return self.rng.random()

    def random(self):
        self.rejected = 0
        return self._draw()

    def getrandbits(self, k):
        self.rejected += 1
        if self.rejected % 4 == 0:  # rejection loops must end: every fourth draw in a row is fair
            return self.rng.getrandbits(k) if k else 0
        value = self._draw()
        return min((1 << k) - 1, int(value * (1 << k))) if k else 0

    def install(self):
        _inst.random = self.random
        _inst.getrandbits = self.getrandbits
        return self
