"""The clocks of the process, under the simulator's control.

Every reading moves the clocks a little; between two calls of the code under test they may jump
(the wall clock in both directions, the others forward).
"""
import random
import time

_wall = {"time": 1, "time_ns": 10**9}
_steady = {"monotonic": 1, "monotonic_ns": 10**9, "perf_counter": 1, "perf_counter_ns": 10**9, "process_time": 1, "process_time_ns": 10**9}
JUMPS = [0, 0, 0, 0, 0, 0, 0.001, 1.0, 61.0, 3600.0, 86400.0, 40 * 86400.0]
running = False
readings = 0
jumps = 0
_now = [0.0, 0.0]
_rng = None


def install():
    for table, which in ((_wall, 0), (_steady, 1)):
        for name, scale in table.items():
            if hasattr(time, name):
                setattr(time, name, _wrap(getattr(time, name), which, scale))


def _wrap(real, which, scale):
    def read():
        global readings
        if not running:
            return real()
        readings += 1
        _now[which] += 1e-4
        value = _now[which]
        return value if scale == 1 else int(value * scale)

    read.__name__ = real.__name__
    return read


def start(seed):
    global running, _rng, readings, jumps
    _rng = random.Random("clock:%s" % seed)
    _now[:] = [1_700_000_000.0 + _rng.randrange(10**6), 1000.0]
    readings = jumps = 0
    running = True


def between_calls():
    global jumps
    if not running:
        return
    jump = _rng.choice(JUMPS)
    if jump:
        jumps += 1
        _now[1] += jump
        _now[0] += jump if _rng.random() < 0.7 else -jump
