"""C06: an interrupted call leaves every variable old or new and recovers."""
import random
import sys

from .. import driver, gen, gensession, model, rngseam, sched, session
from ..session import Violation

ID = "C06"
RUNS = {"quick": 1800, "thorough": 100000}
PYPY_SHARE = 0.05
OWN_TRACING = True
DRAWING = False
RULE = "Scenario: 2 to 10 calls on 1 to 3 interpreters (some around one parser); one to several calls, or the building of an interpreter, are interrupted by a seeded exception raised at a seeded step (any line or return of python_dice or rply code; uniform over steps, over code places, or near the end of the call); then all variables are read back through the public calls and the session goes on, with a step limit on every later call."
TIME = "traced steps (lines and returns of python_dice and rply code)"
STATES = "(place in the code, exception) of every interruption"
REAL = ["interpreter", "parser", "lexer", "expressions", "distributions", "constraints", "variable state", "rply", "random module"]
STUB = ["delivery of the asynchronous exception (raised by the simulator at the chosen step)", "matplotlib and PIL (never reached)"]
ASSUMES = ["the reference model in sim/model.py states the language correctly", "exceptions arrive between lines or at returns of python_dice and rply code, not inside C code", "a variable's value and its distribution may be old or new independently"]


class Cancelled(BaseException):
    pass


EXC = {
    "KeyboardInterrupt": lambda: KeyboardInterrupt("simulated"),
    "MemoryError": lambda: MemoryError("simulated"),
    "TimeoutError": lambda: TimeoutError("simulated"),
    "SystemExit": lambda: SystemExit("simulated"),
    "Cancelled": lambda: Cancelled("simulated"),
}


def generate(seed, tier, platform, drawing):
    rng = random.Random("C06:%s" % seed)
    profile = gen.Profile(rng, p_unknown=rng.choice([0.0, 0.02]), p_bad=rng.choice([0.0, 0.02]))
    profile.max_sides = min(profile.max_sides, 6)
    if rng.random() < 0.5:
        profile.p_assign = 0.85
    worlds = rng.choice([1, 1, 2, 3])
    gens = [gensession.SessionGen(rng, profile, dist_budget=700, worlds_budget=3000) for _ in range(worlds)]
    ops = []
    for _ in range(rng.randint(2, 10)):
        w = rng.randrange(worlds)
        if rng.random() < 0.05:
            ops.append({"op": "build", "w": w, "cut": cut(rng) if rng.random() < 0.7 else None})
            continue
        mode = rng.choice(["roll", "roll", "max", "min", "dist", "distdict", "avg", "cost"] + (["hist", "hist_least", "hist_most"] if drawing else []))
        op = {"op": "call", "w": w, "mode": mode, "lines": gens[w].call(mode, rng.choice([1, 1, 2, 3, 4]))}
        if rng.random() < 0.4:
            op["cut"] = cut(rng)
        ops.append(op)
    if not any(op.get("cut") for op in ops):
        ops[rng.randrange(len(ops))]["cut"] = cut(rng)
    return {"ops": ops, "worlds": worlds, "rngseed": rng.randrange(1 << 30), "shared_parser": rng.random() < 0.4}


def cut(rng):
    return {"how": rng.choice(["uniform", "site", "site", "end"]), "x": rng.random(), "y": rng.random(), "exc": rng.choice(sorted(EXC))}


LIMIT = 20_000_000  # the calls generated need less than a tenth of it


class Survey:
    """Counts the steps of a call, and where they are."""

    def __init__(self, engine):
        self.roots = (engine.root, engine.rply_root)
        self.places = []

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.roots):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event != "exception":
            self.places.append((frame.f_code.co_filename, frame.f_lineno))
            if len(self.places) > LIMIT:
                raise sched.StepLimit("more than %d steps" % LIMIT)
        return self.local


def choose(places, where):
    if not places:
        return 1
    if where["how"] == "uniform":
        return 1 + int(where["x"] * len(places))
    if where["how"] == "end":
        return max(1, len(places) - int(where["x"] * min(60, len(places))))
    sites = {}
    for index, place in enumerate(places):
        sites.setdefault(place, []).append(index)
    order = sorted(sites)
    chosen = sites[order[int(where["x"] * len(order))]]
    return 1 + chosen[int(where["y"] * len(chosen))]


def chained(error, wanted):
    seen = 0
    while error is not None and seen < 10:
        if error is wanted:
            return True
        error = error.__cause__ or error.__context__
        seen += 1
    return False


def run(engine, scenario, stats):
    rngseam.fair(scenario["rngseed"])
    shared = engine.Parser() if scenario["shared_parser"] else None

    def build():
        return engine.Interpreter(parser=shared)

    users = [build() for _ in range(scenario["worlds"])]
    # the twins see the same calls without interruptions and tell how long a call is
    twins = [engine.Interpreter() for _ in users]
    trackers = [session.Tracker(afford=5000) for _ in users]
    disturbed = False
    for op in scenario["ops"]:
        w = op["w"]
        where = op.get("cut")
        if op["op"] == "build":
            with Survey(engine) as survey:
                engine.Interpreter()
            stats.step(len(survey.places))
            if where:
                injector = sched.Injector(engine, choose(survey.places, where), EXC[where["exc"]])
                with injector:
                    try:
                        engine.Interpreter()
                    except BaseException:  # noqa
                        pass
                stats.fault("%s while building an interpreter" % where["exc"], bool(injector.fired))
            users[w], twins[w], trackers[w] = build(), engine.Interpreter(), session.Tracker(afford=5000)
            continue
        mode, lines = op["mode"], op["lines"]
        if not trackers[w].affordable(mode, lines):
            continue
        program = driver.texts(lines)
        names = sorted(set(trackers[w].names()) | set(model.assigned(lines)))
        with Survey(engine) as survey:
            driver.attempt(twins[w], mode, program)
        stats.step(len(survey.places))
        if not where:
            # its variables may hold more than its twin's (the interrupted assignment may have been left out), up to what `affordable` allows
            limit = 60 * len(survey.places) + LIMIT
            injector = sched.Injector(engine, limit=limit)
            with injector:
                outcome, got = session.step(trackers[w], users[w], mode, lines, kind="recovery" if disturbed else "answer")
            stats.step(injector.steps)
            stats.event(mode, outcome, got)
            continue
        made = []

        def make():
            made.append(EXC[where["exc"]]())
            return made[0]

        injector = sched.Injector(engine, choose(survey.places, where), make)
        raised = None
        raw = None
        with injector:
            try:
                raw = driver.call(users[w], mode, program)
            except BaseException as error:  # noqa
                raised = error
        stats.step(injector.steps)
        label = "%s of %s interrupted at %s" % (mode, driver.show(program), injector.fired)
        if not injector.fired:
            # the call was shorter than its twin's: an ordinary call
            if isinstance(raised, (sched.StepLimit, sched.Deadlock)):
                raise raised
            if raised is not None and mode == "roll":
                problem = trackers[w].roll_ended(lines, session.observe_consts(users[w], names), raised, True)
            else:
                problem = trackers[w].answer(mode, lines, "err" if raised is not None else "ok", raised if raised is not None else driver.content(mode, raw))
            if problem:
                raise Violation("recovery" if disturbed else "answer", "%s of %s: %s" % (mode, driver.show(program), problem))
            if raised is None:
                session.chart(trackers[w], mode, program, raw, "recovery" if disturbed else "answer")
            continue
        stats.fault(where["exc"])
        stats.state((injector.fired, where["exc"]))
        disturbed = True
        if raised is None:
            raise Violation("swallowed", "%s: the interruption was swallowed and the call answered %s" % (label, driver.show(raw)))
        if not chained(raised, made[0]) or isinstance(raised, Exception) and not isinstance(made[0], Exception):
            raise Violation("swallowed", "%s: the caller got %s instead" % (label, driver.show(raised)))
        del raised
        if mode == "roll":
            problem = trackers[w].roll_ended(lines, session.observe_consts(users[w], names), "the interruption", False)
        else:
            trackers[w].broken(mode, lines)
            problem = None
        if problem:
            raise Violation("torn", "%s: %s" % (label, problem))
        try:
            session.look(trackers[w], users[w], names, kind="torn")
        except Violation as violation:
            raise Violation("torn", "%s: %s" % (label, violation.text))
        stats.event(mode, "interrupted", injector.fired)
    for index, (user, tracker) in enumerate(zip(users, trackers)):
        try:
            session.look(tracker, user, kind="recovery")
        except Violation as violation:
            raise Violation("recovery", "at the end: %s" % violation.text)
    fresh = engine.Interpreter()
    got = driver.canonical("distdict", fresh.get_probability_distributions_dict(["VAR a = d4", "a + 1"]))
    if got != {"a": {1: 0.25, 2: 0.25, 3: 0.25, 4: 0.25}, "stdout": {2: 0.25, 3: 0.25, 4: 0.25, 5: 0.25}}:
        raise Violation("recovery", "a new interpreter answers %s" % driver.show(got))
