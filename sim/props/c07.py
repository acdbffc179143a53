"""C07: independent interpreters never affect one another, even in parallel."""
import random

from .. import gen, gensession, model, rngseam, sched, session, threads

ID = "C07"
RUNS = {"quick": 1500, "thorough": 60000}
PYPY_SHARE = 0.16
PYPY_JOB = 15
OWN_TRACING = True
RULE = "Scenario: 2 to 4 interpreters, each with its own thread (or used alternately in one) and 1 to 6 calls in all modes, built separately or around one parser, one lexer or one set of factories; threads change over at seeded lines, returns or byte codes of python_dice code (random gaps, few points, or chosen code places); every answer must be the one the model gives for that interpreter alone, every chart the one drawn alone."
TIME = "traced steps (lines, returns and sometimes byte codes of python_dice code)"
STATES = "(place of a thread switch, thread switched to)"
REAL = ["interpreter", "parser", "lexer", "expressions", "distributions", "constraints", "variable state", "rply", "random module", "real threads, one running at a time", "matplotlib and PIL on PyPy"]
STUB = ["the choice of which thread runs (the simulator's)", "locks created by the code under test (none today)", "matplotlib and PIL on the CPython runs"]
ASSUMES = ["the reference model in sim/model.py states the language correctly", "threads change over inside python_dice code only, not inside rply, matplotlib or C code"]


def generate(seed, tier, platform, drawing):
    rng = random.Random("C07:%s" % seed)
    profile = gen.Profile(rng, p_unknown=rng.choice([0.0, 0.03]), p_bad=rng.choice([0.0, 0.04]))
    profile.max_sides = min(profile.max_sides, 6)
    charts = drawing and rng.random() < 0.35
    slow = charts and drawing == "real"
    number = rng.choice([2, 2, 2, 3, 4]) if not slow else 2
    same = rng.random() < 0.4
    focus = rng.choice(gensession.MODES + ["dist", "distdict", "avg"]) if rng.random() < 0.4 else None
    parts = []
    for _ in range(number):
        sg = gensession.SessionGen(rng, profile, dist_budget=350 if platform == "cpython" else 180, worlds_budget=2000)
        ops = []
        for _ in range(rng.randint(1, 6) if not slow else rng.randint(1, 2)):
            mode = focus if focus and rng.random() < 0.8 else rng.choice(gensession.MODES)
            if charts and rng.random() < 0.7:
                mode = rng.choice(["hist", "hist_least", "hist_most"])
            lines = sg.call(mode, rng.choice([1, 1, 2, 3]))
            ops.append({"mode": mode, "lines": lines})
        parts.append(ops)
    if same:
        # the same lines in every thread: the easiest to mix up
        parts = [parts[0]] + [[dict(op) for op in parts[0]] for _ in parts[1:]]
        if rng.random() < 0.5:
            for ops in parts[1:]:
                for op in ops:
                    op["mode"] = rng.choice([op["mode"], rng.choice(gensession.MODES)])
    return {"threads": parts, "policy": sched.policy_from_seed(rng.randrange(1 << 30), number), "rngseed": rng.randrange(1 << 30),
            "share": rng.choice(["nothing", "parser", "parser", "lexer", "factories", "everything"]), "alternate": rng.random() < 0.12,
            "turns": [rng.randrange(number) for _ in range(24)]}


def build(engine, share, number):
    if share == "nothing":
        return [engine.Interpreter() for _ in range(number)]
    if share == "parser":
        parser = engine.Parser()
        return [engine.Interpreter(parser=parser) for _ in range(number)]
    if share == "lexer":
        lexer = engine.Lexer()
        return [engine.Interpreter(parser=engine.Parser(lexer=lexer)) for _ in range(number)]
    factory = engine.DistFactory()
    states = engine.StateFactory(factory)
    if share == "factories":
        return [
            engine.Interpreter(parser=engine.Parser(None, factory, states), probability_distribution_state_factory=states, probability_distribution_factory=factory)
            for _ in range(number)
        ]
    parser = engine.Parser(None, factory, states)
    return [
        engine.Interpreter(parser=parser, probability_distribution_state_factory=states, probability_distribution_factory=factory)
        for _ in range(number)
    ]


def run(engine, scenario, stats):
    rngseam.fair(scenario["rngseed"])
    parts = scenario["threads"]
    users = build(engine, scenario["share"], len(parts))
    trackers = [session.Tracker(afford=5000) for _ in parts]
    log = [[] for _ in parts]

    def one(index, number):
        op = parts[index][number]
        outcome, got = session.step(trackers[index], users[index], op["mode"], op["lines"], kind="interference")
        log[index].append([op["mode"], outcome, got])

    def body(index):
        def work():
            for number in range(len(parts[index])):
                one(index, number)

        return work

    if scenario["alternate"]:
        at = [0] * len(parts)
        for turn in scenario["turns"] + [i for i in range(len(parts)) for _ in parts[i]]:
            index = turn % len(parts)
            if at[index] < len(parts[index]):
                one(index, at[index])
                at[index] += 1
                stats.step()
        stats.count("alternating runs")
    else:
        threads.simulate(engine, scenario, [body(i) for i in range(len(parts))], stats)
    for index, (user, tracker) in enumerate(zip(users, trackers)):
        session.look(tracker, user, kind="interference")
        for entry in log[index]:
            stats.event(index, entry)
