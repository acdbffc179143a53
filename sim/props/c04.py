"""C04: a returned result never changes afterwards and belongs to the caller."""
import gc
import random

from .. import driver, gen, gensession, model, rngseam, sched, session
from ..session import Violation

ID = "C04"
RUNS = {"quick": 2500, "thorough": 100000}
PYPY_SHARE = 0.06
PYPY_JOB = 10
RULE = "Scenario: 3 to 25 calls on 1 to 3 interpreters; every result (dictionaries, distributions, images left unloaded) is held and read again after later calls, failures, interruptions and restarts; results and program lists are changed by the caller at seeded points and the session goes on against the model."
TIME = "operations (calls, caller's changes)"
STATES = "(kind of result, kind of event that followed)"
REAL = ["interpreter", "parser", "lexer", "expressions", "distributions", "constraints", "variable state", "rply", "matplotlib and PIL on PyPy"]
STUB = ["matplotlib and PIL on the CPython runs"]
ASSUMES = ["the reference model in sim/model.py states the language correctly", "internal maps of a distribution are not part of a result"]


def generate(seed, tier, platform, drawing):
    rng = random.Random("C04:%s" % seed)
    profile = gen.Profile(rng, p_unknown=rng.choice([0.0, 0.03]), p_bad=rng.choice([0.0, 0.05]))
    if rng.random() < 0.5:
        profile.names = profile.names[:2]
        profile.p_assign = 0.8
    worlds = rng.choice([1, 1, 2, 3])
    gens = [gensession.SessionGen(rng, profile) for _ in range(worlds)]
    ops = []
    images = 0
    for _ in range(rng.randint(3, 25)):
        w = rng.randrange(worlds)
        roll = rng.random()
        if roll < 0.14:
            ops.append({"op": "spoil", "which": rng.randrange(1000), "how": rng.choice(["clear", "change", "add", "inner", "remove"])})
        elif roll < 0.20:
            ops.append({"op": "program", "which": rng.randrange(1000), "how": rng.choice(["clear", "change", "add"])})
        elif roll < 0.26:
            ops.append({"op": "combine", "one": rng.randrange(1000), "two": rng.randrange(1000), "how": rng.choice(["+", "-", "*", "max", "min", "abs", "not", "<", "&", "|"])})
        elif roll < 0.32:
            ops.append({"op": "interrupt", "mode": rng.choice(["roll", "max", "dist", "avg"]), "at": int(10 ** rng.uniform(0.5, 3.6)), "lines": gensession.SessionGen(rng, profile).call("dist", 2), "w": w})
        elif roll < 0.36:
            ops.append({"op": "collect"})
        else:
            mode = gens[w].mode()
            if drawing and (images < 4 or drawing == "fake") and rng.random() < 0.2:
                mode = rng.choice(["hist", "hist_least", "hist_most"])
                images += 1
            ops.append({"op": "call", "w": w, "mode": mode, "lines": gens[w].call(mode), "again": rng.random() < 0.1})
    return {"ops": ops, "worlds": worlds, "rngseed": rng.randrange(1 << 30), "shared_parser": rng.random() < 0.3, "every": rng.choice([1, 1, 3, 100])}


def snapshot(mode, raw):
    """Everything a caller can read from a result."""
    content = driver.canonical(mode, raw)
    if mode != "dist":
        return content
    extra = {}
    for key, value in raw.items():
        extra[key] = [
            content[key], value.average(), value.max(), value.min(), dict(value.at_least()), dict(value.at_most()), dict(value.get_result_map()),
        ]
    return extra


class Held:
    def __init__(self, mode, raw, program, label):
        self.mode, self.raw, self.program, self.label = mode, raw, program, label
        self.image = mode.startswith("hist")
        self.before = None if self.image else snapshot(mode, raw)

    def check(self, stats, why):
        if self.image:
            return
        now = snapshot(self.mode, self.raw)
        if now != self.before:
            raise Violation("changed", "the answer of %s was %s and became %s %s" % (self.label, driver.show(self.before), driver.show(now), why))


def run(engine, scenario, stats):
    rngseam.fair(scenario["rngseed"])
    shared = engine.Parser() if scenario["shared_parser"] else None
    users = [engine.Interpreter(parser=shared) for _ in range(scenario["worlds"])]
    trackers = [session.Tracker() for _ in users]
    held, programs, sizes = [], [], {}
    for number, op in enumerate(scenario["ops"]):
        stats.step()
        why = "after later calls"
        if op["op"] == "call":
            lines = op["lines"]
            user, tracker = users[op["w"]], trackers[op["w"]]
            if not tracker.affordable(op["mode"], lines):
                continue
            program = driver.texts(lines)
            keep = list(program)
            programs.append(program)
            outcome, raw = driver.attempt(user, op["mode"], program)
            if program != keep:
                raise Violation("program", "%s changed the caller's list of lines" % op["mode"])
            label = "%s %s" % (op["mode"], driver.show(keep))
            if outcome == "err" and op["mode"] == "roll":
                names = sorted(set(tracker.names()) | set(model.assigned(lines)))
                problem = tracker.roll_ended(lines, session.observe_consts(user, names), raw, True)
            else:
                got = raw
                if outcome == "ok":
                    got = driver.content(op["mode"], raw)
                problem = tracker.answer(op["mode"], lines, outcome, got)
            if problem:
                raise Violation("answer", "%s: %s" % (label, problem))
            if outcome == "ok":
                session.chart(tracker, op["mode"], keep, raw, "changed")
                if op["mode"] != "cost":
                    held.append(Held(op["mode"], raw, keep, label))
                    held[-1].standalone = not model.reads_first(lines)
                if op["mode"] == "dist":
                    for key, value in raw.items():
                        known = tracker.states[0].vars.get(key)
                        sizes[id(value)] = (len(known.items) if known is not None else 4 * len(value.get_dict_form()), value)
                stats.event(op["mode"], held[-1].before if op["mode"] != "cost" else raw)
            else:
                stats.event(op["mode"], "err")
        elif op["op"] == "spoil":
            candidates = [h for h in held if not h.image and isinstance(h.raw, dict)]
            if not candidates:
                continue
            target = candidates[op["which"] % len(candidates)]
            target.check(stats, "before the caller touched it")
            if target.mode != "dist" or op["how"] != "inner":
                held.remove(target)
            spoil(target, op["how"])
            stats.fault("caller changes a result")
            why = "when the caller changed another result"
        elif op["op"] == "program":
            if programs:
                target = programs[op["which"] % len(programs)]
                if op["how"] == "clear":
                    del target[:]
                elif op["how"] == "add":
                    target.append("VAR a = 77")
                elif target:
                    target[0] = "VAR b = 99"
                stats.fault("caller changes a program list")
                why = "when the caller changed a program list"
        elif op["op"] == "combine":
            parts = [d for h in held if h.mode == "dist" for _, d in sorted(h.raw.items())]
            if not parts:
                continue
            one, two = parts[op["one"] % len(parts)], parts[op["two"] % len(parts)]
            size = sizes[id(one)][0] * sizes[id(two)][0]
            if size > 1500:
                continue
            new = combine(one, two, op["how"])
            sizes[id(new)] = (size, new)
            if not new.get_dict_form():
                # distributions of different sessions may exclude one another: nothing is left to look at
                continue
            held.append(Held("dist", {"stdout": new}, [], "combining distributions with " + op["how"]))
            why = "when distributions were combined"
        elif op["op"] == "interrupt":
            user = engine.Interpreter(parser=shared)
            injector = sched.Injector(engine, op["at"], lambda: KeyboardInterrupt("simulated"))
            with injector:
                try:
                    driver.call(user, op["mode"], driver.texts(op["lines"]))
                except BaseException as error:  # noqa
                    if not isinstance(error, (KeyboardInterrupt, Exception)):
                        raise
            if injector.fired:
                stats.fault("interruption of another interpreter")
        elif op["op"] == "collect":
            gc.collect()
            stats.fault("garbage collection")
        if number % scenario["every"] == 0:
            for item in held:
                item.check(stats, why)
                stats.state((item.mode, op["op"], op.get("mode"), op.get("how")))
    for item in held:
        item.check(stats, "by the end")
    check_images(engine, held, stats)
    for user, tracker in zip(users, trackers):
        session.look(tracker, user, kind="answer")


def spoil(target, how):
    raw = target.raw
    if how == "clear":
        raw.clear()
    elif how == "remove":
        for key in sorted(raw)[:1]:
            raw.pop(key)
    elif how == "add":
        raw["a"] = 12345
        raw["b"] = 12345
    elif how == "change":
        for key in list(raw):
            raw[key] = 777
    else:
        for value in raw.values():
            if isinstance(value, dict):
                value[424242] = 0.5
                value.pop(next(iter(value), None), None)
            elif hasattr(value, "get_dict_form"):
                for part in (value.get_dict_form(), value.get_result_map(), value.at_least(), value.at_most()):
                    part.clear()
                    part[5] = 1.0


def combine(one, two, how):
    if how == "+":
        return one + two
    if how == "-":
        return one - two
    if how == "*":
        return one * two
    if how == "max":
        return one.max_operator(two)
    if how == "min":
        return one.min_operator(two)
    if how == "abs":
        return abs(one)
    if how == "not":
        return one.not_operator()
    if how == "<":
        return one < two
    if how == "&":
        return one & two
    return one | two


def check_images(engine, held, stats):
    """Images were left unloaded; each must still be the chart of its own call."""
    images = [h for h in held if h.image]
    first = [driver.image_digest(h.raw) for h in images]
    for item, digest in zip(images, first):
        if driver.image_digest(item.raw) != digest:
            raise Violation("changed", "the image of %s changed between two looks" % item.label)
        stats.event(digest)
        stats.count("images loaded late")
    for item, digest in zip(images, first):
        # charts of lines that need no earlier variables can be drawn again on their own
        if item.standalone:
            if driver.image_digest(driver.call(engine.Interpreter(), item.mode, item.program)) != digest:
                raise Violation("changed", "the image of %s, loaded late, is not the chart of that call" % item.label)
            stats.count("late images compared with a fresh chart")
