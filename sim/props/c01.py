"""C01: a roll is one consistent, possible play of the program."""
import random

from .. import diceseam, driver, gen, gensession, model, rngseam, session
from ..session import Violation

ID = "C01"
RUNS = {"quick": 2000, "thorough": 120000}
PYPY_SHARE = 0.05
DRAWING = False
RULE = "Scenario: a session of rolls (1 to 6 programs, each rolled 1 to 40 times) with minima, maxima and distributions in between, under a fair or hostile (stuck, extreme, alternating, face-edge) random source; large dice pools are rolled line by line."
TIME = "operations (calls)"
STATES = "(outcome, stdout) of every roll"
REAL = ["interpreter", "parser", "lexer", "expressions", "distributions", "constraints", "variable state", "rply", "random module code above the raw draws"]
STUB = ["raw draws of the generator (hostile streams)", "matplotlib and PIL (never reached)"]
ASSUMES = ["the reference model in sim/model.py states the language correctly", "AND on values other than 0 and 1 is left out (known finding)"]


def generate(seed, tier, platform, drawing):
    rng = random.Random("C01:%s" % seed)
    profile = gen.Profile(rng, p_unknown=rng.choice([0.0, 0.0, 0.02]), p_zero_div=rng.choice([0.1, 0.5]))
    sg = gensession.SessionGen(rng, profile, worlds_budget=8000)
    ops = []
    for _ in range(rng.randint(1, 6)):
        roll = rng.random()
        if roll < 0.12:
            ops.append({"op": "big", "lines": [["e", gen.big_dice(rng), rng.randrange(1 << 20)]], "times": rng.randint(1, 12)})
            continue
        lines = sg.call("roll", rng.choice([1, 1, 2, 3, 4, 6]))
        times = rng.choice([1, 2, 5, 15, 40])
        if rng.random() < 0.6:
            # reported first, on variables of its own
            ops.append({"op": "bounds", "lines": lines, "times": times})
        else:
            ops.append({"op": "roll", "lines": lines, "times": times})
        if rng.random() < 0.2:
            mode = rng.choice(["max", "min", "dist", "avg"])
            ops.append({"op": "other", "mode": mode, "lines": sg.call(mode)})
    return {"ops": ops, "rng": rng.choice(["fair", "hostile", "hostile", "hostile"]), "rngseed": rng.randrange(1 << 30)}


def run(engine, scenario, stats):
    stream = None
    if scenario["rng"] == "fair":
        rngseam.fair(scenario["rngseed"])
    else:
        stream = rngseam.Stream(scenario["rngseed"]).install()
    seen = diceseam.calibrated(engine)
    interpreter = engine.Interpreter()
    tracker = session.Tracker()
    for op in scenario["ops"]:
        if op["op"] == "other":
            outcome, got = session.step(tracker, interpreter, op["mode"], op["lines"])
            stats.event(op["mode"], outcome, got)
            stats.step()
        elif op["op"] == "big":
            low_high = None
            (line,) = op["lines"] or [None]
            if line is None:
                continue
            count, face, mode, kept = model.dice_shape(line[1])
            if mode == "none":
                kept = 0
            low_high = (kept * min(face), kept * max(face))
            program = driver.texts(op["lines"])
            for mode_, want in (("min", low_high[0]), ("max", low_high[1])):
                value = driver.canonical(mode_, driver.call(interpreter, mode_, program))["stdout"]
                if value != want:
                    raise Violation("impossible", "%s of %s is %d, should be %d" % (mode_, program, value, want))
            for _ in range(op["times"]):
                with diceseam.Log() as log:
                    value = driver.canonical("roll", driver.call(interpreter, "roll", program))["stdout"]
                stats.event("roll", value)
                stats.step()
                if not possible_total(value, face, kept, count, line[1]):
                    raise Violation("impossible", "%s rolled %d; the dice cannot show that" % (program[0], value))
                if seen:
                    shown(op["lines"], {}, log, {"stdout": value}, stats)
        else:
            reported = bounds = None
            if op["op"] == "bounds" and affordable(tracker.states[0].consts, op["lines"]):
                # the analysis of the same lines, on the same variables, by an interpreter that then goes away
                seeds = ["VAR %s = %s" % (n, _literal(v)) for n, v in sorted(tracker.states[0].consts.items())]
                program = driver.texts(op["lines"])
                outcome, raw = driver.attempt(_seeded(engine, seeds), "distdict", program)
                if outcome == "ok":
                    reported = driver.canonical("distdict", raw)
                outcome_max, raw_max = driver.attempt(_seeded(engine, seeds), "max", program)
                outcome_min, raw_min = driver.attempt(_seeded(engine, seeds), "min", program)
                if outcome == "ok" and outcome_max == "ok" and outcome_min == "ok":
                    bounds = driver.canonical("min", raw_min), driver.canonical("max", raw_max)
            feeds_itself = bool(model.reads_first(op["lines"]) & set(model.assigned(op["lines"])))
            for turn in range(op["times"]):
                before = dict(tracker.states[0].consts)
                with diceseam.Log() as log:
                    outcome, got = session.step(tracker, interpreter, "roll", op["lines"], kind="impossible")
                stats.event("roll", outcome, got)
                stats.step()
                if outcome != "ok":
                    continue
                stats.state(tuple(sorted(got.items())))
                if seen and op["lines"]:
                    shown(op["lines"], before, log, got, stats)
                if any(abs(v) > 10**6 for v in got.values()):
                    break
                if (feeds_itself and turn) or not op["lines"]:
                    # lines that read variables changed by the roll before have another law each time
                    continue
                last = "stdout"
                if reported is not None:
                    for name in set(model.assigned(op["lines"])) | {last}:
                        if reported.get(name, {}).get(got[name], 0) <= 0 and not faint(before, op["lines"], name, got[name]):
                            raise Violation("impossible", "%s rolled %s=%d, reported probability 0" % (driver.show(driver.texts(op["lines"])), name, got[name]))
                    stats.count("compared with reported probabilities")
                if bounds is not None:
                    low, high = bounds
                    for name in set(model.assigned(op["lines"])) | {last}:
                        if not low[name] <= got[name] <= high[name]:
                            raise Violation("impossible", "%s rolled %s=%d, reported %d to %d" % (driver.show(driver.texts(op["lines"])), name, got[name], low[name], high[name]))
                    stats.count("compared with reported bounds")
    if stream is not None:
        for kind, number in stream.used.items():
            stats.fault("random source: " + kind, number)


def shown(lines, before, log, got, stats):
    """The answer against what the single dice showed."""
    verdict = diceseam.judge(lines, before, log.values(), got)
    if verdict is False:
        raise Violation("dice", "%s rolled %s, but the dice showed %s" % (driver.show(driver.texts(lines)), driver.show(got), driver.show(log.calls)))
    stats.count("rolls that follow from the dice shown" if verdict else "rolls whose dice could not be told apart")


def certain(consts):
    state = model.State()
    state.consts = dict(consts)
    state.vars = {name: model.Dist.free({value: 1}) for name, value in consts.items()}
    return state


def faint(consts, lines, name, value):
    """So unlikely that floating point has no number for it?"""
    kind, want = model.run_op(certain(consts), "distdict", lines, model.Budget(session.DIST))
    return kind == "ok" and 0 < want[name].get(value, 0) < driver.FAINT


def affordable(consts, lines):
    state = certain(consts)
    try:
        model.run_op(state.copy(), "distdict", lines, model.Budget(session.AFFORDABLE // 4))
        model.run_op(state.copy(), "max", lines, model.Budget(session.AFFORDABLE // 4))
    except model.TooBig:
        return False
    return True


def _literal(value):
    return str(value) if value >= 0 else "0 - %d" % -value


def _seeded(engine, seeds):
    fresh = engine.Interpreter()
    for text in seeds:
        fresh.max([text])
    return fresh


def possible_total(value, face, kept, count, expr):
    if kept == 0:
        return value == 0
    low, high = kept * min(face), kept * max(face)
    if not low <= value <= high:
        return False
    if sorted(face) == list(range(min(face), max(face) + 1)):
        return True
    if kept * len(set(face)) > 3000 or high - low > 2_000_000:
        return True
    # sums of `kept` faces, one bit for each
    reach, steps = 1, sorted({f - min(face) for f in face})
    for _ in range(kept):
        new = 0
        for step in steps:
            new |= reach << step
        reach = new
    return bool(reach >> (value - low) & 1)
