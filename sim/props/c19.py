"""C19: long use makes an interpreter neither slower nor bigger."""
import gc
import random
import sys
import types
import weakref
import _thread

from .. import driver, gen, gensession, locks, model, rngseam, sched, session
from ..session import Violation

ID = "C19"
RUNS = {"quick": 1400, "thorough": 40000}
PYPY_SHARE = 0.03
DRAWING = False
OWN_TRACING = True
RULE = "Scenario: a block of 1 to 6 calls in all modes on a lasting interpreter, on interpreters made anew around the same parser, or in threads made anew, some of them failing, cut short by an exception at a seeded step (another one each time), or not readable at all, and lines read and kept for a moment; the block is repeated 60 times from the same random state; work (traced steps), memory (objects reachable from the library and in the process) and what is still alive of the dropped interpreters, expressions and answers must not grow with the number of repetitions, which is confirmed over some thousand repetitions before a verdict."
TIME = "traced steps (lines and returns of python_dice and rply code)"
STATES = "(kind of operation, mode, how it ended)"
REAL = ["interpreter", "parser", "lexer", "expressions", "distributions", "constraints", "variable state", "rply", "random module", "real threads, one at a time"]
STUB = ["delivery of interruptions", "matplotlib and PIL (a recording stand-in on CPython)"]
ASSUMES = [
    "growth of less than half an object per repetition, or that stops within some thousand repetitions (a bounded cache), is not counted",
    "blocks assign every variable they read within the block: the analysis of a variable defined by its own earlier value remembers that history by design",
    "memory is measured on the CPython runs only",
]

REPEATS = 60
SIZES = (15, 30, 60)
EARLY, LATE = (4, 5, 6, 7), (57, 58, 59, 60)
LONG = 4000  # repetitions that confirm a suspicion
MOST = 40_000_000  # steps they may take, or they are fewer
NOWHERE = "nowhere"
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "TimeoutError": TimeoutError}
CONSTS, VARS = {"roll", "cost"}, {"dist", "distdict", "avg", "hist", "hist_least", "hist_most"}


def generate(seed, tier, platform, drawing):
    rng = random.Random("C19:%s" % seed)
    profile = gen.Profile(rng, p_unknown=0.0, p_bad=0.0, p_zero_div=0.0)
    profile.names = profile.names[: rng.choice([1, 2, 3])]
    profile.max_sides, profile.max_count = min(profile.max_sides, 6), min(profile.max_count, 3)
    modes = gensession.MODES + (["hist", "hist_least", "hist_most"] if drawing == "fake" else [])
    fresh = {True: (set(), set()), False: (set(), set())}
    ops, seen = [], model.State()
    for _ in range(rng.randint(1, 6)):
        where = rng.choice(["main", "main", "main", "new", "thread"])
        mode = rng.choice(modes)
        op = {"op": "call", "where": where, "mode": mode}
        if rng.random() < 0.15:
            op = {"op": "parse", "where": "main", "mode": rng.choice(["roll", "max", "min", "dist", "cost"])}
        cut = rng.random() < 0.15 and where != "thread"
        consts, names = (set(), set()) if where == "new" else fresh[True]
        op["lines"] = lines(rng, profile, op["mode"], consts, names, 1 if op["op"] == "parse" else rng.choice([1, 1, 2, 3]), cut)
        if cut and op["op"] == "call":
            op["cut"] = round(rng.uniform(1.0, 3.3), 2)
            op["exc"] = rng.choice(sorted(EXC))
        if fits(op, seen):
            ops.append(op)
    return {"ops": ops or [{"op": "call", "where": "main", "mode": "roll", "lines": [["e", ["dice", "", "6", None], 0]]}], "rngseed": rng.randrange(1 << 30)}


def fits(op, state):
    """Whether the call is small enough to be repeated; state moves on."""
    try:
        mode = {"avg": "dist", "roll": "max"}.get(op["mode"], op["mode"])
        kind, want = model.run_op(model.State() if op["where"] == "new" else state, mode, op["lines"], model.Budget(1500))
    except model.TooBig:
        return False
    if kind == "ok" and op["mode"].startswith("hist") and session.wide(want["stdout"]):
        op["mode"] = "dist"
    return True


def lines(rng, profile, mode, consts, names, number, cut):
    """Lines that read only what the block has assigned before; consts and names move on."""
    out = []
    mine_consts, mine_names = set(consts), set(names)
    for _ in range(number):
        known = mine_consts if mode in CONSTS else mine_names if mode in VARS else mine_consts & mine_names
        roll = rng.random()
        if roll < 0.07:
            out.append(["bad", rng.choice(gen.BAD)])
            break
        if roll < 0.12:
            out.append([rng.choice(["=", "e"]), profile.names[0], ["bin", "+", ["dice", "", "2", None], ["var", NOWHERE]], 1])
        elif roll < 0.15:
            out.append([rng.choice(["=", "e"]), profile.names[0], ["bin", "//", ["dice", "", "2", None], ["int", 0]], 1])
        else:
            out.append(small(rng, profile, known))
        if out[-1][0] == "e" and len(out[-1]) == 4:
            out[-1] = ["e", out[-1][2], 1]
        expr = out[-1][2] if out[-1][0] == "=" else out[-1][1]
        if NOWHERE in model.names_in(expr) or roll < 0.15:
            break
        if out[-1][0] == "=":
            if mode not in VARS:
                mine_consts.add(out[-1][1])
            if mode not in CONSTS:
                mine_names.add(out[-1][1])
    if not cut:
        consts |= mine_consts
        names |= mine_names
    return out


def small(rng, profile, known):
    for _ in range(40):
        line = gen.line(rng, profile, known)
        trial = model.State()
        try:
            for name in profile.names:
                model.run_line(trial, "max", ["=", name, ["dice", "", "4", None], 0])
            model.run_line(trial, "dist", line, model.Budget(60))
        except (model.TooBig, model.LineError):
            continue
        return line
    return ["e", ["dice", "", "6", None], 0]


class Block:
    """The calls that are repeated."""

    def __init__(self, engine, scenario):
        self.engine = engine
        self.parser = engine.Parser()
        self.state = engine.StateFactory().create_new_empty_set()
        self.user = engine.Interpreter(parser=self.parser, starting_state=self.state)
        self.ops = [dict(op, program=driver.texts(op["lines"])) for op in scenario["ops"]]
        self.start = random.getstate()
        self.dropped = {"interpreter": [], "expression": [], "answer": []}
        self.seed = scenario["rngseed"]
        self.fired = [0] * len(self.ops)
        self.repetition = 0
        self.steps = 0

    def once(self, count=False):
        """-> canonical answers"""
        random.setstate(self.start)
        self.repetition += 1
        self.steps = 0
        return [self.one(number, op, count) for number, op in enumerate(self.ops)]

    def one(self, number, op, count):
        user = self.user
        if op["where"] == "new":
            user = self.engine.Interpreter(parser=self.parser)
            self.note("interpreter", user)
        injector = None
        if "cut" in op:
            # somewhere else each time: a call that is stopped at one and the same step over and over is no long use
            step = int(10 ** random.Random("%s:%s:%s" % (self.seed, number, self.repetition)).uniform(0.3, op["cut"]))
            injector = sched.Injector(self.engine, step, lambda: EXC[op["exc"]]("simulated"))
        elif count and op["where"] != "thread":
            injector = sched.Injector(self.engine, limit=20_000_000)
        if op["where"] == "thread":
            got = elsewhere(lambda: self.answer(op, user))
        elif injector is not None:
            with injector:
                got = self.answer(op, user)
            if "cut" in op:
                self.fired[number] += bool(injector.fired)
            else:
                self.steps += injector.steps
        else:
            got = self.answer(op, user)
        return got

    def answer(self, op, user):
        mode = op["mode"]
        try:
            if op["op"] == "parse":
                expression, _ = self.parser.parse(op["program"][0], state=self.state)
                self.note("expression", expression)
                raw = getattr(expression, {"roll": "roll", "max": "max", "min": "min", "dist": "get_probability_distribution", "cost": "estimated_cost"}[mode])()
                if mode == "dist":
                    raw = {"stdout": raw}
                    self.note("answer", raw["stdout"])
                else:
                    return ["ok", int(raw)]
            else:
                raw = driver.call(user, mode, op["program"])
                if mode == "dist" and "stdout" in raw:
                    self.note("answer", raw["stdout"])
            form = driver.content(mode, raw)
        except BaseException as error:  # noqa
            if isinstance(error, (sched.StepLimit, sched.Deadlock, session.Violation, driver.Malformed)):
                raise
            return ["err", type(error).__name__]
        return ["ok", rounded(form)]

    def note(self, kind, thing):
        if len(self.dropped[kind]) < 5000:
            try:
                self.dropped[kind].append(weakref.ref(thing))
            except TypeError:
                pass

    def alive(self):
        for _ in range(3):
            gc.collect()
        return {kind: sum(1 for ref in refs if ref() is not None) for kind, refs in self.dropped.items()}


def elsewhere(action):
    """In a thread made for it, while this one waits."""
    box, done = [], locks.real_allocate()

    def work():
        try:
            box.append((action(), None))
        except BaseException as error:  # noqa
            box.append((None, error))
        finally:
            done.release()

    done.acquire()
    _thread.start_new_thread(work, ())
    done.acquire()
    got, error = box.pop()
    if error is not None:
        raise error
    return got


def rounded(form):
    if isinstance(form, dict):
        return {key: rounded(value) for key, value in form.items()}
    return round(form, 9) if isinstance(form, float) else form


def size(block):
    """-> (objects and entries reachable from the library and the block's interpreter, container objects in the process)"""
    gc.collect()
    roots = [vars(m) for name, m in sorted(sys.modules.items()) if m is not None and name.split(".")[0] in ("python_dice", "rply")]
    todo = roots + [block.user, block.parser, block.state]
    seen = {id(thing) for thing in todo}
    total = 0
    while todo:
        thing = todo.pop()
        kind = type(thing)
        if kind in (int, float, bool, complex) or thing is None or isinstance(thing, (types.ModuleType, types.CodeType, types.FrameType)):
            continue
        total += 1
        if kind in (str, bytes, bytearray):
            if len(thing) > 500:
                total += len(thing)
            continue
        if isinstance(thing, type) and not str(getattr(thing, "__module__", "")).startswith(("python_dice", "rply")):
            continue
        if kind in (list, dict, set, tuple, frozenset):
            total += len(thing)
        for part in gc.get_referents(thing):
            if id(part) not in seen:
                seen.add(id(part))
                todo.append(part)
    del todo, seen, roots
    return total, len(gc.get_objects()) - sum(len(refs) for refs in block.dropped.values())


def run(engine, scenario, stats):
    rngseam.fair(scenario["rngseed"])
    block = Block(engine, scenario)
    measured = not hasattr(sys, "pypy_version_info")
    sizes, early, late = [], [], []
    usual = None
    text = driver.show([[op["mode"], op["program"]] for op in block.ops], 600)
    for repetition in range(1, REPEATS + 1):
        count = repetition in EARLY or repetition in LATE
        got = block.once(count)
        if count:
            (early if repetition in EARLY else late).append(block.steps)
            stats.step(block.steps)
        if repetition == 2:
            usual = got
            for op, answer in zip(block.ops, got):
                stats.event(op["op"], op["mode"], answer)
                stats.state((op["op"], op["where"], op["mode"], answer[0] if answer[0] == "ok" else answer[1]))
        elif repetition > 2 and not any("cut" in op for op in block.ops):
            same(block, usual, got, repetition)
        if measured and repetition in SIZES:
            sizes.append(size(block))
    for op, fired in zip(block.ops, block.fired):
        if "cut" in op:
            stats.fault(op["exc"], fired)
    stats.count("repetitions", REPEATS)
    alive = block.alive()
    suspects = []
    if min(late) > 1.15 * max(early) + 30:
        suspects.append("work")
    for index, name in ((0, "memory"), (1, "memory")):
        if sizes and sizes[2][index] - sizes[1][index] >= 15 and sizes[1][index] - sizes[0][index] >= 7 and name not in suspects:
            suspects.append(name)
    suspects += ["%ss" % kind for kind in sorted(alive) if alive[kind] > 5]
    if suspects:
        stats.count("suspicions followed up")
        confirm(block, suspects, early, late, measured, text)


def same(block, usual, got, repetition):
    for op, before, now in zip(block.ops, usual, got):
        if before != now:
            raise Violation("answer", "%s of %s answers %s the %s time from the same random state, %s before" % (
                op["mode"], driver.show(op["program"]), driver.show(now), repetition, driver.show(before)))


def confirm(block, suspects, early, late, measured, text):
    """A bounded cache or a resized table stops growing; a leak does not."""
    marks = []
    work = []
    last = max(1600, min(LONG, MOST // max(1, max(late))))
    for target in (last // 4, last // 2, last):
        while block.repetition < target - 2:
            block.once()
        steps = []
        while block.repetition < target:
            block.once(True)
            steps.append(block.steps)
        work.append(min(steps))
        marks.append(size(block) if measured else (0, 0))
    if "work" in suspects and work[2] > 1.4 * work[1] and work[1] > 1.4 * work[0] and work[0] > 1.5 * max(early):
        raise Violation("slower", "the work of a call grows with every repetition of %s" % text)
    for index in (0, 1):
        first, second = marks[1][index] - marks[0][index], marks[2][index] - marks[1][index]
        # the second stretch is twice as long as the first
        if "memory" in suspects and second >= last // 4 and first >= last // 8 and second >= 1.5 * first:
            raise Violation("bigger", "the memory held grows with every repetition of %s" % text)
    alive = block.alive()
    for kind in sorted(alive):
        if "%ss" % kind in suspects and alive[kind] >= last // 2:
            raise Violation("kept", "every %s made and dropped in %s stays alive" % (kind, text))
