"""C05: a line that fails leaves no trace; the lines before it keep their effect."""
import random

from .. import driver, gen, gensession, model, rngseam, seams, session
from ..session import Violation

ID = "C05"
RUNS = {"quick": 7000, "thorough": 300000}
PYPY_SHARE = 0.04
DRAWING = False
RULE = "Scenario: 2 to 14 calls in all modes with failing lines (bad text, unknown variables, division by zero) at seeded places, and, in half of the runs, components handed in through the constructors (lexer, parser, distribution factory, constraint factory, variable state, random source) that fail at a seeded call, before or after doing their work; after every failure all variables are read back and the session goes on."
TIME = "operations (calls)"
STATES = "(mode, line of the failure, kind of the failure)"
REAL = ["interpreter", "parser", "lexer", "expressions", "distributions", "constraints", "variable state", "rply", "random module"]
STUB = ["thin wrappers around lexer, parser, factories and variable state that pass on or fail", "raw draws of the generator where it fails", "matplotlib and PIL (never reached)"]
ASSUMES = ["the reference model in sim/model.py states the language correctly", "after a component failure (not after a bad line) a variable's value and its distribution may be old or new independently"]


def generate(seed, tier, platform, drawing):
    rng = random.Random("C05:%s" % seed)
    injected = rng.random() < 0.5
    if injected:
        profile = gen.Profile(rng, p_unknown=0.02, p_bad=rng.choice([0.0, 0.03]))
    else:
        profile = gen.Profile(rng, p_unknown=rng.choice([0.0, 0.1, 0.25]), p_bad=rng.choice([0.0, 0.1, 0.25]), p_zero_div=rng.choice([0.1, 0.6]))
        if "//" not in profile.ops and rng.random() < 0.5:
            profile.ops = profile.ops + ["//", "//"]
    sg = gensession.SessionGen(rng, profile, worlds_budget=5000)
    ops = []
    for _ in range(rng.randint(2, 14)):
        mode = rng.choice(["roll", "roll", "max", "min", "max", "dist", "distdict", "avg", "cost"] + (["hist", "hist_least", "hist_most"] if drawing else []))
        ops.append({"mode": mode, "lines": sg.call(mode, rng.choice([1, 1, 2, 3, 4, 6]))})
    faults = []
    if injected:
        for _ in range(rng.choice([1, 1, 2, 4])):
            where = rng.choice(seams.WHERE)
            high = {"lexer.lex": 20, "parser.parse": 20, "factory.create": 60, "constraints.var_value_constraint": 60, "rng": 20}.get(where, 12)
            faults.append({"where": where, "call": rng.randint(1, high), "when": rng.choice(["before", "after"]), "exc": rng.choice(sorted(seams.EXCEPTIONS))})
    return {"ops": ops, "faults": faults, "rngseed": rng.randrange(1 << 30), "wrapped": injected or rng.random() < 0.1}


class FailingSource:
    def __init__(self, seed, faults):
        self.rng = random.Random("source:%s" % seed)
        self.faults = faults

    def install(self):
        rngseam._inst.random = lambda: self.faults.around("rng", self.rng.random)
        rngseam._inst.getrandbits = lambda k: self.faults.around("rng", self.rng.getrandbits, k)


def run(engine, scenario, stats):
    rngseam.fair(scenario["rngseed"])
    faults = seams.Faults([])
    if scenario["wrapped"]:
        interpreter, _state = seams.interpreter(engine, faults)
        FailingSource(scenario["rngseed"], faults).install()
    else:
        interpreter = engine.Interpreter()
    faults.todo = [dict(f) for f in scenario["faults"]]
    faults.calls.clear()
    tracker = session.Tracker()
    for op in scenario["ops"]:
        mode, lines = op["mode"], op["lines"]
        if not tracker.affordable(mode, lines):
            continue
        program = driver.texts(lines)
        stats.step()
        names = sorted(set(tracker.names()) | set(model.assigned(lines)))
        outcome, raw = driver.attempt(interpreter, mode, program)
        fired = faults.take()
        # reading back must not be disturbed
        parked, faults.todo = faults.todo, []
        marks = dict(faults.calls)
        for hit, _ in fired:
            stats.fault("%s fails %s its work" % (hit["where"], hit["when"]))
        if outcome == "ok":
            problem = tracker.answer(mode, lines, "ok", driver.content(mode, raw))
        elif fired:
            if mode == "roll":
                problem = tracker.roll_ended(lines, session.observe_consts(interpreter, names), raw, False)
            else:
                tracker.broken(mode, lines)
                problem = None
        elif mode == "roll":
            problem = tracker.roll_ended(lines, session.observe_consts(interpreter, names), raw, True)
        else:
            problem = tracker.answer(mode, lines, "err", raw)
        if problem:
            raise Violation("trace" if outcome == "err" else "answer", "%s of %s: %s" % (mode, driver.show(program), problem))
        if outcome == "ok":
            session.chart(tracker, mode, program, raw)
        if outcome == "err":
            if not fired:
                stats.fault("failing line")
            try:
                session.look(tracker, interpreter, names, kind="trace")
            except Violation as violation:
                raise Violation("trace", "after %s of %s raised %s: %s" % (mode, driver.show(program), driver.show(raw), violation.text))
        stats.event(mode, outcome, driver.content(mode, raw) if outcome == "ok" else type(raw).__name__)
        stats.state((mode, outcome, len(lines), type(raw).__name__ if outcome == "err" else ""))
        faults.todo = parked
        faults.calls = marks
    faults.todo = []
    session.look(tracker, interpreter, kind="trace")
