"""What one simulated run did (never influences it)."""
import hashlib
import json


def _plain(thing):
    if isinstance(thing, dict):
        return sorted([str(k), _plain(v)] for k, v in thing.items())
    if isinstance(thing, (list, tuple, set, frozenset)):
        items = [_plain(v) for v in thing]
        return sorted(items, key=repr) if isinstance(thing, (set, frozenset)) else items
    if isinstance(thing, float):
        return repr(thing)
    if thing is None or isinstance(thing, (int, str, bool)):
        return thing
    return repr(thing)


class Stats:
    def __init__(self):
        self.steps = 0
        self.calls = 0
        self.faults = {}
        self.counts = {}
        self.states = set()
        self.log = hashlib.sha256()
        self.explicit = None  # what to put into the scenario to make the schedule explicit
        self.interleaving = None

    def step(self, amount=1):
        self.steps += amount

    def fault(self, kind, amount=1):
        self.faults[kind] = self.faults.get(kind, 0) + amount

    def count(self, what, amount=1):
        if amount:
            self.counts[what] = self.counts.get(what, 0) + amount

    def event(self, *what):
        self.calls += 1
        self.log.update(json.dumps(_plain(what)).encode())

    def state(self, key):
        self.states.add(hashlib.sha256(repr(key).encode()).hexdigest()[:12])

    def export(self):
        return {
            "steps": self.steps, "calls": self.calls, "faults": self.faults, "counts": self.counts,
            "states": sorted(self.states), "digest": self.log.hexdigest(), "interleaving": self.interleaving,
        }
