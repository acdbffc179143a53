"""C10: a session means its lines in order, however it is cut into calls."""
import random

from .. import gen, gensession, rngseam, session
from ..session import step

ID = "C10"
RUNS = {"quick": 1400, "thorough": 60000}
PYPY_SHARE = 0.08


def generate(seed, tier, platform, drawing):
    rng = random.Random("C10:%s" % seed)
    profile = gen.Profile(rng, p_unknown=rng.choice([0.0, 0.0, 0.03]), p_bad=rng.choice([0.0, 0.0, 0.03]))
    flavour = rng.choice(["mixed", "mixed", "reassign", "cuts", "long"])
    if flavour == "reassign":
        profile.names = rng.sample(gen.NAMES, rng.choice([1, 2, 3]))
        profile.p_assign = 0.9
        profile.p_var = 0.5
        profile.max_sides = min(profile.max_sides, 4)
        profile.max_count = 1
        profile.depth = 1
    worlds = rng.choice([1, 1, 2, 3])  # separate sets of variables
    gens = [gensession.SessionGen(rng, profile, drawing=drawing and rng.random() < (0.1 if drawing == "real" else 0.5)) for _ in range(worlds)]
    length = {"mixed": rng.randint(2, 14), "reassign": rng.randint(5, 25), "cuts": rng.randint(2, 8), "long": rng.randint(20, 45)}[flavour]
    if platform == "pypy":
        length = min(length, 10)
    ops = []
    for _ in range(length):
        index = rng.randrange(worlds)
        roll = rng.random()
        if roll < 0.08:
            ops.append({"op": "restart", "w": index, "share": rng.random() < 0.5})
            continue
        if roll < 0.13:
            ops.append({"op": "twin", "w": index})
            continue
        mode = gens[index].mode()
        if flavour == "reassign":
            mode = rng.choice(["dist", "distdict", "avg", "max", "roll", mode])
        lines = gens[index].call(mode)
        if flavour == "cuts" or rng.random() < 0.2:
            for line in lines:
                ops.append({"op": "call", "w": index, "mode": mode, "lines": [line]})
        else:
            ops.append({"op": "call", "w": index, "mode": mode, "lines": lines})
        if ops and rng.random() < 0.08:
            ops.append(dict(ops[-1]))
    return {"ops": ops, "worlds": worlds, "rng": rng.choice(["fair", "fair", "hostile"]), "rngseed": rng.randrange(1 << 30),
            "shared_parser": rng.random() < 0.3}


def run(engine, scenario, stats):
    if scenario["rng"] == "fair":
        rngseam.fair(scenario["rngseed"])
    else:
        rngseam.Stream(scenario["rngseed"]).install()
    shared = engine.Parser() if scenario["shared_parser"] else None
    survivors = [engine.StateFactory().create_new_empty_set() for _ in range(scenario["worlds"])]
    users = [[engine.Interpreter(parser=shared, starting_state=s)] for s in survivors]
    trackers = [session.Tracker() for _ in survivors]
    turn = 0
    for op in scenario["ops"]:
        w = op["w"]
        stats.step()
        if op["op"] == "restart":
            # the interpreter dies; only the variables survive
            users[w] = [engine.Interpreter(parser=shared if op["share"] else None, starting_state=survivors[w])]
            stats.fault("interpreter restart")
        elif op["op"] == "twin":
            users[w].append(engine.Interpreter(starting_state=survivors[w]))
            stats.fault("second interpreter on the same variables")
        else:
            turn += 1
            user = users[w][turn % len(users[w])]
            outcome, got = step(trackers[w], user, op["mode"], op["lines"])
            stats.event(op["mode"], outcome, got)
            stats.state((op["mode"], outcome, len(op["lines"]), len(trackers[w].names())))
    for w, tracker in enumerate(trackers):
        session.look(tracker, users[w][0], kind="answer")
    stats.count("unchecked rolls", sum(t.unchecked for t in trackers))

RULE = "Scenario: 2 to 45 calls in all modes over 1 to 3 sets of variables, cut, repeated, with interpreter restarts on surviving variables and several interpreters on one set, fair or hostile random source."
TIME = "operations (calls, restarts)"
STATES = "(mode, outcome, number of lines, number of variables) per call"
REAL = ["interpreter", "parser", "lexer", "expressions", "distributions", "constraints", "variable state", "rply", "random module code"]
STUB = ["matplotlib and PIL on the CPython runs (real on the PyPy runs)", "the generator's raw draws in the hostile runs"]
ASSUMES = ["the reference model in sim/model.py states the language correctly", "programs within the size bounds of the generator"]
