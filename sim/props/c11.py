"""C11: a parsed line is inert and can be evaluated again at any time."""
import gc
import random

from .. import driver, gen, gensession, model, rngseam, sched, session, threads
from ..session import Violation
from .c03 import state_digest

ID = "C11"
RUNS = {"quick": 7000, "thorough": 250000}
PYPY_SHARE = 0.05
DRAWING = False
OWN_TRACING = True
RULE = "Scenario: 6 to 40 operations on 1 to 3 sets of variables: lines read and kept, kept expressions evaluated in all modes in any order (also by two threads at once), evaluations that fail or are interrupted, calls of an interpreter over the same variables, bad lines, dropped parsers; after reading, variables and random generator must be unchanged, each evaluation must give what the model says for that line at that moment, and a kept and a freshly read expression must roll alike from the same generator state."
TIME = "operations"
STATES = "(mode of an evaluation, how often evaluated before, what the last evaluation of the expression was)"
REAL = ["parser", "lexer", "expressions", "distributions", "constraints", "variable state", "interpreter", "rply", "random module"]
STUB = ["delivery of interruptions", "the choice of which thread runs (the simulator's)", "matplotlib and PIL (never reached)"]
ASSUMES = ["the reference model in sim/model.py states the language correctly"]

EVAL = {"roll": "roll", "max": "max", "min": "min", "dist": "get_probability_distribution", "cost": "estimated_cost"}


def generate(seed, tier, platform, drawing):
    rng = random.Random("C11:%s" % seed)
    profile = gen.Profile(rng, p_unknown=rng.choice([0.0, 0.05, 0.1]), p_bad=0.0)
    profile.max_sides = min(profile.max_sides, 6)
    if rng.random() < 0.5:
        profile.names = profile.names[:2]
    worlds = rng.choice([1, 1, 2, 3])
    if rng.random() < 0.45:
        return again(rng, profile)
    ops = []
    kept = 0
    for _ in range(rng.randint(6, 40)):
        w = rng.randrange(worlds)
        roll = rng.random()
        if roll < 0.3 or not kept:
            if rng.random() < 0.08:
                ops.append({"op": "bad", "w": w, "text": rng.choice(gen.BAD)})
                continue
            line = small_line(rng, profile)
            ops.append({"op": "read", "w": w, "line": line, "look": rng.random() < 0.3})
            kept += 1
        elif roll < 0.8:
            op = {"op": "evaluate", "which": rng.randrange(1000), "mode": rng.choice(["roll", "roll", "max", "min", "dist", "dist", "cost"])}
            if rng.random() < 0.1:
                op["cut"] = rng.random()
                op["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
            elif rng.random() < 0.2:
                op["fresh"] = True
            ops.append(op)
        elif roll < 0.9:
            ops.append({"op": "call", "w": w, "mode": rng.choice(gensession.MODES), "lines": [small_line(rng, profile)]})
        elif roll < 0.93:
            ops.append({"op": "describe", "which": rng.randrange(1000)})
        elif roll < 0.96:
            ops.append({"op": "drop"})
        else:
            ops.append({"op": "both", "which": rng.randrange(1000), "modes": [[rng.choice(["roll", "max", "min", "dist", "cost"]) for _ in range(3)] for _ in range(2)],
                        "policy": sched.policy_from_seed(rng.randrange(1 << 30), 2)})
    return {"ops": ops, "worlds": worlds, "rngseed": rng.randrange(1 << 30), "one_parser": rng.random() < 0.7}


def again(rng, profile):
    """Few expressions that read variables, evaluated again and again while the variables change."""
    profile.names = rng.sample(gen.NAMES, rng.choice([1, 2, 2, 3]))
    profile.p_var = 0.7
    profile.mm = rng.choice([0.1, 0.5])
    profile.p_unknown = 0.0
    names = set(profile.names)

    def change(name):
        expr = rng.choice([["int", rng.randint(-3, 9)], ["dice", "", str(rng.randint(1, 4)), None], ["dice", "2", "2", rng.choice([None, "k1", "d1"])], ["dice", "", "F", None]])
        if rng.random() < 0.3:
            expr = ["bin", rng.choice(["+", "-"]), ["var", rng.choice(profile.names)], expr]
        return {"op": "call", "w": 0, "mode": rng.choice(["max", "max", "min", "min", "roll", "dist", "cost"]), "lines": [["=", name, expr, 0]]}

    ops = [dict(change(name), mode="max") for name in profile.names]
    number = rng.randint(1, 3)
    for _ in range(number):
        for _ in range(30):
            line = small_line(rng, profile, names)
            if model.names_in(line[2] if line[0] == "=" else line[1]):
                break
        ops.append({"op": "read", "w": 0, "line": line, "look": False})
    favourite = rng.choice(["roll", "max", "min", "dist", "cost", None])
    for _ in range(rng.randint(8, 35)):
        if rng.random() < 0.4:
            ops.append(change(rng.choice(profile.names)))
        else:
            mode = favourite if favourite and rng.random() < 0.6 else rng.choice(list(EVAL))
            ops.append({"op": "evaluate", "which": rng.randrange(number), "mode": mode, "fresh": rng.random() < 0.2})
    return {"ops": ops, "worlds": 1, "rngseed": rng.randrange(1 << 30), "one_parser": True}


def small_line(rng, profile, known=None):
    for _ in range(50):
        line = gen.line(rng, profile, known if known is not None else set(profile.names) if rng.random() < 0.5 else set())
        trial = model.State()
        try:
            for name in profile.names:
                model.run_line(trial, "max", ["=", name, ["dice", "", "4", None], 0])
            model.run_line(trial, "dist", line, model.Budget(120))
        except model.TooBig:
            continue
        except model.LineError:
            pass
        return line
    return ["e", ["dice", "", "6", None], 0]


class Kept:
    def __init__(self, world, line, expression):
        self.world, self.line, self.expression = world, line, expression
        self.text = model.line_text(line)
        self.times = 0
        self.last = "nothing"


class World:
    def __init__(self, engine, parser):
        self.state = engine.StateFactory().create_new_empty_set()
        self.user = engine.Interpreter(parser=parser, starting_state=self.state)
        self.tracker = session.Tracker()


def big(world, line):
    """Would this line be too much to evaluate now?"""
    for state in world.tracker.states:
        try:
            model.run_line(state.copy(), "dist", line, model.Budget(1500))
        except model.TooBig:
            return True
        except model.LineError:
            pass
        try:
            after = state.copy()
            model.run_line(after, "max", line, model.Budget(1500))
            if any(abs(v) > 100_000 for v in after.consts.values()):
                return True
        except model.TooBig:
            return True
        except model.LineError:
            pass
    return False


def run(engine, scenario, stats):
    rngseam.fair(scenario["rngseed"])
    parser = engine.Parser()
    parsers = [parser if scenario["one_parser"] else engine.Parser() for _ in range(scenario["worlds"])]
    worlds = [World(engine, p) for p in parsers]
    kept = []
    for op in scenario["ops"]:
        stats.step()
        what = op["op"]
        if what == "read":
            world = worlds[op["w"]]
            text = model.line_text(op["line"])
            before = state_digest()
            expression, state = parsers[op["w"]].parse(text, state=world.state)
            if state is not world.state:
                raise Violation("reading", "reading %r gave other variables back" % text)
            if state_digest() != before:
                raise Violation("reading", "reading %r draws from the random generator" % text)
            if op["look"]:
                session.look(world.tracker, world.user, kind="reading")
            kept.append(Kept(world, op["line"], expression))
            stats.event("read", text)
        elif what == "bad":
            before = state_digest()
            try:
                parsers[op["w"]].parse(op["text"], state=worlds[op["w"]].state)
            except Exception:  # noqa
                pass
            else:
                raise Violation("reading", "%r was accepted" % op["text"])
            if state_digest() != before:
                raise Violation("reading", "reading %r draws from the random generator" % op["text"])
            session.look(worlds[op["w"]].tracker, worlds[op["w"]].user, kind="reading")
            stats.fault("line outside the language")
        elif what == "call":
            world = worlds[op["w"]]
            if not big(world, op["lines"][0]):
                session.step(world.tracker, world.user, op["mode"], op["lines"], kind="evaluation")
        elif what == "drop":
            if scenario["one_parser"]:
                parser = engine.Parser()
                parsers = [parser for _ in parsers]
            else:
                parsers = [engine.Parser() for _ in parsers]
            for world, new in zip(worlds, parsers):
                world.user = engine.Interpreter(parser=new, starting_state=world.state)
            gc.collect()
            stats.fault("parser and interpreter dropped")
        elif kept and what in ("evaluate", "describe", "both"):
            item = kept[op["which"] % len(kept)]
            if big(item.world, item.line):
                continue
            if what == "describe":
                before = state_digest()
                str(item.expression)
                item.expression.get_contained_variables()
                if state_digest() != before:
                    raise Violation("reading", "describing %r draws from the random generator" % item.text)
                session.look(item.world.tracker, item.world.user, kind="reading")
            elif what == "both":
                both(engine, op, item, stats)
            else:
                stats.state((op["mode"], min(item.times, 5), item.last))
                evaluate(engine, op, item, parsers[0], stats)
                item.times += 1
                item.last = op["mode"]
    for world in worlds:
        session.look(world.tracker, world.user, kind="evaluation")


def value(mode, raw):
    if mode == "dist":
        return driver.canonical("dist", {"stdout": raw})["stdout"]
    if not isinstance(raw, int):
        raise driver.Malformed("%s of an expression gave %r" % (mode, raw))
    return int(raw)


def evaluate(engine, op, item, parser, stats):
    mode, world, line = op["mode"], item.world, item.line
    label = "%s of the kept expression %r" % (mode, item.text)
    names = sorted(set(world.tracker.names()) | set(model.assigned([line])))
    if "cut" in op:
        twin, _ = parser.parse(item.text, state=copy_state(engine, world))
        counter = sched.Injector(engine)
        with counter:
            try:
                getattr(twin, EVAL[mode])()
            except Exception:  # noqa
                pass
        made = []

        def make():
            made.append({"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[op["exc"]]("simulated"))
            return made[0]

        injector = sched.Injector(engine, 1 + int(op["cut"] * counter.steps), make)
        raised, raw = None, None
        with injector:
            try:
                raw = getattr(item.expression, EVAL[mode])()
            except (Exception, KeyboardInterrupt) as error:
                raised = error
        if injector.fired:
            stats.fault("interrupted evaluation")
            if raised is None:
                raise Violation("evaluation", "%s: the interruption was swallowed" % label)
            if mode == "roll":
                problem = world.tracker.roll_ended([line], session.observe_consts(world.user, names), "the interruption", False)
                if problem:
                    raise Violation("evaluation", "%s: %s" % (label, problem))
            else:
                world.tracker.broken(mode, [line])
            session.look(world.tracker, world.user, names, kind="evaluation")
            stats.event(mode, "interrupted", injector.fired)
            return
        outcome, raw = ("err", raised) if raised is not None else ("ok", raw)
    else:
        start = random.getstate()
        outcome, raw = shot(item.expression, mode)
        if mode != "roll" and random.getstate() != start:
            raise Violation("reading", "%s draws from the random generator" % label)
        if op.get("fresh") and outcome == "ok":
            fresh(engine, op, item, parser, raw, start, stats)
    settle(item, mode, outcome, raw, names, label)
    stats.event(mode, outcome, value(mode, raw) if outcome == "ok" else type(raw).__name__)
    if outcome == "err":
        stats.fault("failing evaluation")


def shot(expression, mode):
    try:
        return "ok", getattr(expression, EVAL[mode])()
    except Exception as error:  # noqa
        return "err", error


def settle(item, mode, outcome, raw, names, label):
    """Compare with the model, and move it on."""
    world, line = item.world, item.line
    tracker = world.tracker
    if mode == "roll":
        observed = session.observe_consts(world.user, names)
        if outcome == "err":
            problem = tracker.roll_ended([line], observed, raw, True)
        else:
            problem = tracker.rolled([line], dict(observed, stdout=value(mode, raw)))
        if problem:
            raise Violation("evaluation", "%s: %s" % (label, problem))
        return
    keep, problem = [], None
    for state in tracker.states:
        after = state.copy()
        try:
            want = model.run_line(after, mode, line, model.Budget(session.DIST))
        except model.LineError:
            if outcome == "err":
                keep.append(after)
            else:
                problem = "answered %s, but must fail" % driver.show(value(mode, raw))
            continue
        if outcome == "err":
            problem = "raised %s, should answer" % driver.show(raw)
            continue
        got = value(mode, raw)
        if mode == "dist":
            difference = driver.dist_differs(got, want.marginal())
        else:
            difference = None if got == want else "answer %r, should be %r" % (got, want)
        if difference:
            problem = difference
        else:
            keep.append(after)
    if not keep:
        raise Violation("evaluation", "%s: %s" % (label, problem))
    tracker.states = keep


def copy_state(engine, world):
    """Variables for a trial evaluation: the values and distributions the world has now."""
    state = engine.StateFactory().create_new_empty_set()
    for name, constant in world.state.get_constant_dict().items():
        state.set_constant(name, constant)
    for name, dist in world.state.get_var_dict().items():
        state.set_var(name, dist)
    return state


def fresh(engine, op, item, parser, raw, start, stats):
    """The same line read afresh, from the same generator state, gives the same."""
    line = item.line
    if line[0] == "=" and line[1] in model.names_in(line[2]):
        return
    now = random.getstate()
    random.setstate(start)
    expression, _ = parser.parse(item.text, state=item.world.state)
    outcome, other = shot(expression, op["mode"])
    after = random.getstate()
    random.setstate(now)
    one = value(op["mode"], raw)
    two = value(op["mode"], other) if outcome == "ok" else repr(other)
    same = one == two if op["mode"] != "dist" or outcome != "ok" else driver.dist_differs(one, two) is None
    if not same or after != now:
        raise Violation("evaluation", "%s of the kept expression %r gives %s, read afresh it gives %s" % (op["mode"], item.text, driver.show(one), driver.show(two)))
    stats.count("compared with a fresh reading")


def both(engine, op, item, stats):
    """Two threads evaluate one expression that assigns nothing."""
    if item.line[0] == "=":
        return
    answers = [[], []]

    def body(index):
        def work():
            for mode in op["modes"][index]:
                answers[index].append((mode,) + shot(item.expression, mode))

        return work

    threads.simulate(engine, op, [body(0), body(1)], stats)
    for index in range(2):
        for mode, outcome, raw in answers[index]:
            label = "%s of the kept expression %r in two threads" % (mode, item.text)
            if mode == "roll":
                problem = None
                for state in item.world.tracker.states:
                    law = model.expr_law(item.line[1], state.consts)
                    if (outcome == "err" and model.ERR in law) or (outcome == "ok" and value(mode, raw) in law):
                        problem = None
                        break
                    problem = "gave %s" % driver.show(raw)
                if problem:
                    raise Violation("evaluation", "%s: %s" % (label, problem))
            else:
                settle(item, mode, outcome, raw, [], label)
            stats.event(mode, outcome, value(mode, raw) if outcome == "ok" else type(raw).__name__)
    stats.count("expressions evaluated by two threads")
