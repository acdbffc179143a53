"""One thread runs at a time; who runs next is decided here, from a seed or from a recorded list.

A step is one traced event (line or return, opcodes too if asked) of the code under test.
"""
import random
import sys
import _thread

from . import locks


Deadlock = locks.Deadlock


class StepLimit(BaseException):
    """The run did more steps than any correct run could need."""


class Interrupted(BaseException):
    pass


def policy_from_seed(seed, threads):
    rng = random.Random("sched:%s" % seed)
    kind = rng.choice(["gap", "gap", "few", "site", "rare", "rare", "park", "park"])
    policy = {"kind": kind, "seed": seed, "opcodes": rng.random() < 0.25}
    if kind == "gap":
        policy["mean"] = rng.choice([1, 3, 10, 40, 200, 1000])
    elif kind == "few":
        policy["points"] = sorted(rng.randrange(1, rng.choice([300, 3000, 30000])) for _ in range(rng.randint(1, 4)))
    elif kind == "rare":
        policy["rate"] = rng.choice([0.2, 0.6, 2.0])
    else:
        policy["modulus"] = rng.choice([2, 5, 17, 40])
        policy["salt"] = rng.randrange(1 << 30)
        if kind == "park":
            policy["hold"] = rng.choice([50, 500, 3000, 20000])
    return policy


class Sim:
    def __init__(self, engine, policy, step_limit=30_000_000):
        self.roots = (engine.root,)
        self.strip = len(engine.root) + 1
        self.policy = policy
        self.rng = random.Random("steps:%s" % policy.get("seed"))
        self.steps = 0
        self.step_limit = step_limit
        self.threads = []
        self.index_of = {}
        self.current = None
        self.failure = None
        self.switches = []  # [step, to]
        self.events = []  # (step, thread, what) recorded by the harness
        self.sites = 0
        self.blocked = {}
        self.parked = {}  # thread -> step until which it is stalled
        self.visits = {}
        self.stalls = 0
        self.pairs = set()
        self._site_cache = {}
        kind = policy["kind"]
        self.explicit = None
        if kind == "list":
            self.explicit = dict((s, t) for s, t in policy["switches"])
        elif kind == "gap":
            self.next = self._gap()
        elif kind == "few":
            self.few = list(policy["points"])

    def _gap(self):
        return self.steps + 1 + int(self.rng.expovariate(1.0 / self.policy["mean"]))

    # ------------------------------------------------------------ running
    def run(self, bodies):
        """bodies: list of callables; each runs in its own thread; -> list of their exceptions (or None)."""
        self.errors = [None] * len(bodies)
        self.alive = [True] * len(bodies)
        self.batons = [locks.real_allocate() for _ in bodies]
        for baton in self.batons:
            baton.acquire()
        self.main = locks.real_allocate()
        self.main.acquire()
        locks.CURRENT = self
        self.monitored = bool(self.policy.get("opcodes") and hasattr(sys, "monitoring"))
        if self.monitored:
            self._monitor()
        try:
            for index, body in enumerate(bodies):
                _thread.start_new_thread(self._thread, (index, body))
            first = 0
            if self.explicit is not None:
                first = self.explicit.get(0, 0)
            elif len(bodies) > 1:
                first = self.rng.randrange(len(bodies))
            self.switches.append([0, first])
            self.current = first
            self.batons[first].release()
            self.main.acquire()
        finally:
            locks.CURRENT = None
            if self.monitored:
                sys.monitoring.free_tool_id(sys.monitoring.DEBUGGER_ID)
        return self.errors

    def _thread(self, index, body):
        self.batons[index].acquire()
        self.index_of[_thread.get_ident()] = index
        try:
            if self.failure is None:
                if not self.monitored:
                    sys.settrace(self.trace)
                try:
                    body()
                finally:
                    sys.settrace(None)
        except BaseException as error:  # noqa
            self.errors[index] = error
            if isinstance(error, (Deadlock, StepLimit)) and self.failure is None:
                self.failure = error
        self.alive[index] = False
        self.index_of.pop(_thread.get_ident(), None)
        if True in self.alive:
            self.steps += 1
            target = self._choose(index)
            self.current = target
            self.batons[target].release()
        else:
            self.main.release()

    def is_sim_thread(self):
        return _thread.get_ident() in self.index_of

    def now(self):
        return self.steps

    # ------------------------------------------------------------ choosing
    def _runnable(self, without=None):
        for i in [i for i, until in self.parked.items() if until <= self.steps]:
            del self.parked[i]
        return [i for i, alive in enumerate(self.alive) if alive and i != without and i not in self.blocked and i not in self.parked]

    def _choose(self, index):
        options = self._runnable(index)
        if not options and self.parked:
            self.parked.clear()
            options = self._runnable(index)
        if not options:
            options = [i for i, alive in enumerate(self.alive) if alive and i != index]
        if self.explicit is not None:
            target = self.explicit.get(self.steps)
            if target not in options:
                target = options[0]
        else:
            target = options[self.rng.randrange(len(options))]
        self.switches.append([self.steps, target])
        return target

    def _switch(self, index, target, code=None, place=None):
        if code is not None:
            self.pairs.add((self._site(code, place), target))
        self.current = target
        self.batons[target].release()
        self.batons[index].acquire()
        if self.failure is not None:
            raise self.failure

    def _site(self, code, place):
        key = (code, place)
        site = self._site_cache.get(key)
        if site is None:
            site = "%s:%s:%d" % (code.co_filename[self.strip:], code.co_name, place)
            self._site_cache[key] = site
        return site

    def wait_for_lock(self, lock):
        """Called by a simulated lock that is taken; -> False if nobody else can run."""
        index = self.index_of[_thread.get_ident()]
        self.blocked[index] = lock
        options = self._runnable(index)
        if not options and self.parked:
            self.parked.clear()
            options = self._runnable(index)
        if not options:
            del self.blocked[index]
            # others may be waiting for locks that are free by now
            options = [i for i, l in self.blocked.items() if self.alive[i] and not l.locked()]
            if not options:
                return False
            for i in options:
                del self.blocked[i]
            self.blocked[index] = lock
        self.steps += 1
        target = self._choose(index)
        self._switch(index, target)
        self.blocked.pop(index, None)
        return True

    def deadlock(self):
        self.failure = Deadlock("all threads wait for locks")
        raise self.failure

    # ------------------------------------------------------------ tracing
    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.roots):
            return None
        if self.policy.get("opcodes"):
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event != "exception":
            self.tick(frame.f_code, frame.f_lineno)
        return self.local

    def instruction(self, code, offset):
        if _thread.get_ident() in self.index_of:
            self.tick(code, offset)

    def _monitor(self):
        """Byte-code steps without sys.settrace (whose opcode mode crashes CPython 3.12 with threads)."""
        import gc
        import types

        monitoring = sys.monitoring
        tool = monitoring.DEBUGGER_ID
        monitoring.use_tool_id(tool, "sim")
        monitoring.register_callback(tool, monitoring.events.INSTRUCTION, self.instruction)
        todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
        seen = set()
        while todo:
            code = todo.pop()
            if code in seen or not code.co_filename.startswith(self.roots):
                continue
            seen.add(code)
            monitoring.set_local_events(tool, code, monitoring.events.INSTRUCTION)
            todo.extend(c for c in code.co_consts if isinstance(c, types.CodeType))

    def tick(self, code, place):
        self.steps += 1
        steps = self.steps
        if steps > self.step_limit:
            if self.failure is None:
                self.failure = StepLimit("more than %d steps" % self.step_limit)
            raise self.failure
        if self.blocked:
            for i in [i for i, l in self.blocked.items() if not l.locked()]:
                del self.blocked[i]
        if self.explicit is not None:
            target = self.explicit.get(steps)
            if target is not None:
                index = self.current
                if target != index and target < len(self.alive) and self.alive[target] and target not in self.blocked:
                    self.switches.append([steps, target])
                    self._switch(index, target, code, place)
            return
        kind = self.policy["kind"]
        if kind == "gap":
            if steps < self.next:
                return
            self.next = self._gap()
        elif kind == "few":
            if not self.few or steps < self.few[0]:
                return
            while self.few and self.few[0] <= steps:
                self.few.pop(0)
        elif kind == "rare":
            # the less often a place was passed, the likelier the switch there
            key = (code, place)
            visits = self.visits[key] = self.visits.get(key, 0) + 1
            if self.rng.random() * visits >= self.policy["rate"]:
                return
        else:
            import zlib

            site = self._site(code, place)
            if zlib.crc32(("%d:%s" % (self.policy["salt"], site)).encode()) % self.policy["modulus"]:
                return
            if self.rng.random() < 0.3:
                return
            if kind == "park":
                index = self.current
                if not self._runnable(index):
                    return
                self.parked[index] = steps + int(self.policy["hold"] * (0.5 + self.rng.random()))
                self.stalls += 1
        index = self.current
        if not self._runnable(index):
            return
        target = self._choose(index)
        self._switch(index, target, code, place)
        return


# ---------------------------------------------------------------- interruptions in one thread
class Injector:
    """Raises an exception at the n-th step of the code under test, or just counts the steps (limit: of one call)."""

    CURRENT = None

    def __init__(self, engine, at=None, make=None, limit=30_000_000, with_rply=True):
        self.roots = (engine.root, engine.rply_root) if with_rply else (engine.root,)
        self.base = engine.root
        self.at = at
        self.make = make
        self.steps = 0
        self.fired = None
        self.limit = limit
        self.last = 0

    def __enter__(self):
        Injector.CURRENT = self
        sys.settrace(self.trace)
        return self

    def __exit__(self, *exc):
        Injector.CURRENT = None
        sys.settrace(None)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.roots):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "exception":
            return self.local
        self.steps += 1
        if self.steps - self.last > self.limit:
            raise StepLimit("more than %d steps" % self.limit)
        if self.at is not None and self.steps >= self.at and self.fired is None:
            if event == "line" and _guarded_line(frame):
                return self.local
            code = frame.f_code
            self.fired = "%s:%s:%d:%s" % (
                code.co_filename.rsplit("/python_dice/", 1)[-1].rsplit("site-packages/", 1)[-1],
                code.co_name,
                frame.f_lineno,
                event,
            )
            raise self.make()
        return self.local


def new_call():
    if Injector.CURRENT is not None:
        Injector.CURRENT.last = Injector.CURRENT.steps


_lines = {}


def _guarded_line(frame):
    """with/try lines: an interruption between taking a lock and guarding it is the interpreter's business."""
    key = (frame.f_code.co_filename, frame.f_lineno)
    if key not in _lines:
        import linecache

        text = linecache.getline(*key).strip()
        _lines[key] = text.startswith(("with ", "try:", "finally:", "async with "))
    return _lines[key]
