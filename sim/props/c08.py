"""C08: threads sharing one interpreter with their own variables get their own answers."""
import random

from .. import driver, gen, gensession, model, rngseam, sched, session, threads
from ..session import Violation

ID = "C08"
RUNS = {"quick": 1600, "thorough": 60000}
PYPY_SHARE = 0.06
DRAWING = False
OWN_TRACING = True
RULE = "Scenario: 2 to 4 threads on one interpreter (or on several interpreters over one set of variables), each with its own variable names and 1 to 6 calls in all modes; threads change over at seeded lines, returns or byte codes of python_dice code; stdout and own variables against the model of that thread alone, other threads' variables against what those threads' calls assigned before the call ended."
TIME = "traced steps (lines, returns and sometimes byte codes of python_dice code)"
STATES = "(place of a thread switch, thread switched to)"
REAL = ["interpreter", "parser", "lexer", "expressions", "distributions", "constraints", "variable state", "rply", "random module", "real threads, one running at a time"]
STUB = ["the choice of which thread runs (the simulator's)", "locks created by the code under test (none today)", "matplotlib and PIL (never reached)"]
ASSUMES = ["the reference model in sim/model.py states the language correctly", "threads change over inside python_dice code only"]

POOLS = [["a", "b", "ab"], ["a_", "x", "c"], ["_a", "y", "d"], ["a__", "hit", "k"]]


def generate(seed, tier, platform, drawing):
    rng = random.Random("C08:%s" % seed)
    number = rng.choice([2, 2, 2, 3, 4])
    parts = []
    base = gen.Profile(rng)
    modes = gensession.MODES + (["hist", "hist_least", "hist_most"] if drawing else [])
    focus = rng.choice(modes + ["dist", "distdict", "avg"]) if rng.random() < 0.5 else None
    for index in range(number):
        profile = gen.Profile(rng, p_unknown=rng.choice([0.0, 0.03]), p_bad=rng.choice([0.0, 0.04]))
        profile.names = POOLS[index][: rng.choice([1, 2, 3])]
        profile.max_sides = min(profile.max_sides, 6)
        profile.ops = base.ops
        sg = gensession.SessionGen(rng, profile, dist_budget=350 if platform == "cpython" else 180, worlds_budget=2000)
        ops = []
        for _ in range(rng.randint(1, 6)):
            mode = focus if focus and rng.random() < 0.8 else rng.choice(modes)
            for _ in range(20):
                saved = sg.state
                lines = sg.call(mode, rng.choice([1, 1, 2, 3]))
                names = model.assigned(lines)
                if len(names) == len(set(names)):
                    break
                sg.state = saved
            else:
                lines = [["e", ["dice", "", "6", None], 1]]
            ops.append({"mode": mode, "lines": lines})
        parts.append(ops)
    return {"threads": parts, "policy": sched.policy_from_seed(rng.randrange(1 << 30), number), "rngseed": rng.randrange(1 << 30),
            "users": rng.choice(["one", "one", "one", "several"]), "warm": rng.random() < 0.3}


class Call:
    __slots__ = ("thread", "mode", "lines", "start", "end", "outcome", "got", "consts", "dists")


def run(engine, scenario, stats):
    rngseam.fair(scenario["rngseed"])
    parts = scenario["threads"]
    state = engine.StateFactory().create_new_empty_set()
    users = [engine.Interpreter(starting_state=state)]
    if scenario["users"] == "several":
        users = [engine.Interpreter(starting_state=state) for _ in parts]
    trackers = [session.Tracker(afford=5000) for _ in parts]
    mine = [own_names(index, ops) for index, ops in enumerate(parts)]
    if scenario["warm"]:
        for index, names in enumerate(mine):
            for name in sorted(names):
                step_own(trackers[index], users[0], "max", [["=", name, ["int", 1], 0]], names, None, None)
    history = []
    clock = [0]

    def body(index):
        def work():
            user = users[index % len(users)]
            for op in parts[index]:
                call = Call()
                call.thread, call.mode, call.lines = index, op["mode"], op["lines"]
                clock[0] += 1
                call.start = clock[0]
                if not trackers[index].affordable(op["mode"], op["lines"]):
                    continue
                before = trackers[index].states[0].copy()
                step_own(trackers[index], user, op["mode"], op["lines"], mine[index], call, clock)
                after = trackers[index].states[0]
                # what this call may have made visible, by name
                call.consts = {n: v for n, v in after.consts.items()}
                call.dists = {n: d.marginal() for n, d in after.vars.items() if before.vars.get(n) is not d}
                history.append(call)

        return work

    initial = [t.states[0].copy() for t in trackers]
    threads.simulate(engine, scenario, [body(i) for i in range(len(parts))], stats)
    judge(history, initial, mine, stats)
    for index, tracker in enumerate(trackers):
        session.look(tracker, users[0], sorted(mine[index]), kind="interference")
    for call in sorted(history, key=lambda c: (c.thread, c.start)):
        stats.event(call.thread, call.mode, call.outcome, call.got)


def own_names(index, ops):
    names = set(POOLS[index])
    for op in ops:
        names |= set(model.assigned(op["lines"]))
    return names


def step_own(tracker, user, mode, lines, names, call, clock):
    """As session.step, looking only at stdout and the thread's own variables."""
    program = driver.texts(lines)
    outcome, raw = driver.attempt(user, mode, program)
    if call is not None:
        clock[0] += 1
        call.end = clock[0]
        call.outcome = outcome
        call.got = None
    label = "%s of %s" % (mode, driver.show(program))
    if outcome == "err" and mode == "roll":
        observed = session.observe_consts(user, sorted(names))
        problem = tracker.roll_ended(lines, observed, raw, True)
    elif outcome == "err":
        problem = tracker.answer(mode, lines, "err", raw)
    else:
        got = driver.content(mode, raw)
        if call is not None:
            call.got = got
        if isinstance(got, dict):
            got = {n: v for n, v in got.items() if n in names or n == "stdout"}
        problem = tracker.answer(mode, lines, "ok", got)
    if problem:
        raise Violation("interference", "%s: %s" % (label, problem))
    if outcome == "ok":
        session.chart(tracker, mode, program, raw, "interference")


def judge(history, initial, mine, stats):
    """Other threads' variables: only values they really held between the start and the end of the call."""
    by_thread = {}
    for call in history:
        by_thread.setdefault(call.thread, []).append(call)
    for calls in by_thread.values():
        calls.sort(key=lambda c: c.start)
    for call in history:
        if call.outcome != "ok" or not isinstance(call.got, dict) or not call.lines:
            continue
        for other, names in enumerate(mine):
            if other == call.thread:
                continue
            for name in names:
                options = held(by_thread.get(other, []), initial[other], name, call.start, call.end, call.mode)
                seen = call.got.get(name)
                stats.count("looks at another thread's variable")
                if not any(matches(call.mode, seen, option) for option in options):
                    raise Violation("interference", "%s in thread %d shows %s=%s of thread %d, which only held %s" % (
                        call.mode, call.thread, name, driver.show(seen), other, driver.show(options)))


def held(calls, initial, name, start, end, mode):
    """The values the variable may have had at some moment between start and end (None: unset)."""
    facet_const = mode in ("roll", "max", "min")
    current = initial.consts.get(name) if facet_const else (initial.vars[name].marginal() if name in initial.vars else None)
    options = []
    for call in calls:
        if call.end < start:
            if facet_const:
                current = call.consts.get(name, current)
            elif name in call.dists:
                current = call.dists[name]
    options.append(current)
    for call in calls:
        if call.end >= start and call.start <= end:
            if facet_const:
                options.append(call.consts.get(name))
            elif name in call.dists:
                options.append(call.dists[name])
    return options


def matches(mode, seen, option):
    if seen is None or option is None:
        return seen is None and option is None
    if mode in ("roll", "max", "min"):
        return seen == option
    if mode == "avg":
        return driver.close(seen, float(driver.average_of(option)))
    return driver.dist_differs(seen, option) is None
