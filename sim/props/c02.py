"""C02: rolls come out as often as the reported probabilities say."""
import random
from fractions import Fraction

from .. import chi2, driver, gen, gensession, model, rngseam, session
from ..session import Violation

ID = "C02"
RUNS = {"quick": 640, "thorough": 16000}
PYPY_SHARE = 0.03
DRAWING = False
CPYTHON_JOB = 12
RULE = "Scenario: one program (all dice forms, reused variables) rolled thousands of times under a seeded generator, alone or with other calls on the same and other interpreters in between; joint outcome counts against the exact joint law, pairs of successive rolls against independence (chi-square, second sample five times as large before a verdict), and the reported distribution against the same law."
TIME = "rolls"
STATES = "(program form, outcome) seen"
REAL = ["interpreter", "parser", "lexer", "expressions", "distributions", "constraints", "variable state", "rply", "random module with its Mersenne twister"]
STUB = ["matplotlib and PIL (never reached)"]
ASSUMES = [
    "the process generator itself is fair", "deviations smaller than the chi-square test can see at the sample size used stay unseen",
    "programs that reuse an unevenly weighted variable are only compared with the law of rolls, not with the report (known finding); AND on values other than 0 and 1 is left out (known finding)",
]
FIRST, SECOND = 1e-4, 1e-9


def generate(seed, tier, platform, drawing):
    rng = random.Random("C02:%s" % seed)
    kind = rng.choice(["program", "program", "program", "dice", "dice", "big", "repeat", "classic"])
    profile = gen.Profile(rng, p_zero_div=0.02)
    size = 5000 if tier == "quick" else 12000
    if platform == "pypy":
        size = 1500
    if kind == "program":
        sg = gensession.SessionGen(rng, profile, worlds_budget=3000)
        lines = sg.call("roll", rng.choice([1, 2, 2, 3, 4]))
        reporting = True
    elif kind == "repeat":
        # the same words again and again: every one of them is a roll of its own
        for _ in range(50):
            profile.max_sides, profile.max_count = min(profile.max_sides, 6), min(profile.max_count, 2)
            part = gen.dice(rng, profile) if rng.random() < 0.6 else ["bin", rng.choice(["+", "-"]), gen.dice(rng, profile), gen.dice(rng, profile)]
            style = rng.randrange(1000)
            form = rng.choice(["lines", "operands", "nested", "assigned twice"])
            if form == "lines":
                lines = [["=", "a", part, style], ["=", "b", part, style], ["e", ["bin", rng.choice(["-", "==", "+"]), ["var", "a"], ["var", "b"]], 2]]
            elif form == "operands":
                lines = [["e", ["bin", rng.choice(["-", "==", "<", "+"]), part, part], style]]
            elif form == "nested":
                lines = [["e", ["mm", rng.choice(["MAX", "MIN"]), part, ["mm", "MIN", part, part]], style]]
            else:
                lines = [["=", "a", part, style], ["=", "b", ["var", "a"], style], ["=", "a", part, style], ["e", ["bin", "-", ["var", "a"], ["var", "b"]], 2]]
            try:
                if model.roll_worlds(lines, {}, model.Budget(3000)):
                    model.run_op(model.State(), "distdict", lines, model.Budget(6000))
                    break
            except model.TooBig:
                continue
        else:
            lines = [["e", ["bin", "-", ["dice", "", "6", None], ["dice", "", "6", None]], 1]]
        reporting = True
    elif kind == "dice":
        profile.dice_kinds = ["plain", "fate", "custom", "custom", "keep", "keep", "drop", "drop"]
        profile.max_count = rng.choice([1, 5, 8])
        for _ in range(50):
            expr = gen.dice(rng, profile)
            try:
                model.expr_dist(expr, {}, model.Budget(4000))
                break
            except model.TooBig:
                continue
        else:
            expr = ["dice", "3", "6", "k2"]
        lines = [["e", expr, rng.randrange(1 << 20)]]
        if rng.random() < 0.4:
            lines = [["=", "a", expr, 1], ["e", ["var", "a"], 2]]
        reporting = True
    elif kind == "classic":
        # what people roll at the table, with enough rolls to see a face or a double go missing
        text = rng.choice(["2 20 k1", "2 20 d1", "3 20 k1", "3 20 k2", "4 6 k3", "4 6 d1", "5 10 k2", "3 12 k2", "2 % k1", "2 % d1", "2 100 k1", "2 12 k1", "4 F None", "1 20 None", "1 % None", "2 10 None", "1 100 None", "3 6 None", "2 20 None", "6 20 k3", "3 8 d2"])
        count, sides, suffix = text.split()
        lines = [["e", ["dice", count, sides, None if suffix == "None" else suffix], 1]]
        reporting = False
        size *= 4
    else:
        count, sides = rng.choice([(12, "6"), (30, "6"), (100, "6"), (64, "2"), (300, "2"), (1000, "2"), (40, "F"), (20, "20"), (10, "%"), (200, "[1*3,4]"), (1, "1000"), (50, "4"), (25, "[-1*5,0,1*2]"), (6, "[1*40,2*9,3]"), (1, "100"), (2, "100"), (1, "101"), (1, "256"), (2, "%"), (3, "[1*100,2*50]")])
        suffix = None
        if count <= 40 and rng.random() < 0.6:
            suffix = rng.choice(["k1", "k2", "k%d" % (count - 1), "d1", "d2", "d%d" % (count - 1), "k%d" % count, "d0"])
        if sides == "1000" or sides == "%":
            suffix = None
        lines = [["e", ["dice", str(count), sides, suffix], 1]]
        reporting = False
        size = size // 3 if count > 50 else size
    # what happens between the rolls
    noise = []
    if rng.random() < 0.5:
        other = gen.Profile(rng, p_unknown=0.05, p_bad=0.1, names=["noise", "other"], max_count=2)
        ng = gensession.SessionGen(rng, other, dist_budget=400, worlds_budget=400)
        for _ in range(rng.randint(1, 4)):
            mode = ng.mode()
            noise.append({"mode": mode, "lines": ng.call(mode, rng.choice([1, 2])), "same": rng.random() < 0.5, "every": rng.choice([1, 7, 50, 300])})
        # nothing may feed itself: thousands of repetitions would grow it without end
        feeds = set()
        for item in reversed(list(noise)):
            feeds |= set(model.assigned(item["lines"]))
            if model.reads_first(item["lines"]) & feeds:
                noise.remove(item)
        if any(n["every"] == 1 for n in noise):
            size //= 2
    return {"ops": [{"lines": lines}], "noise": noise, "rngseed": rng.randrange(1 << 30), "size": size, "reporting": reporting,
            "users": rng.choice([1, 1, 1, 2, 5])}


def exact_law(lines):
    if len(lines) == 1 and lines[0][0] == "e" and lines[0][1][0] == "dice":
        law = model.dice_law(lines[0][1])
        total = sum(law.values())
        return {(None, value, ()): Fraction(weight, total) for value, weight in law.items()}
    return model.roll_worlds(lines, {}, model.Budget(200_000))


def marginal(law, name):
    out = {}
    for (failed, stdout, changed), prob in law.items():
        if failed is not None:
            return None
        value = stdout if name == "stdout" else dict(changed)[name]
        out[value] = out.get(value, 0) + prob
    return out


def repeated(order, law):
    """A long stretch of rolls that comes twice (chance under 1e-11) -> text or None"""
    most = float(max(law.values()))
    match = sum(float(p) ** 2 for p in law.values())
    if most >= 0.995 or match <= 0:
        return None
    length = 1
    while len(order) ** 2 * match ** length > 1e-11 or len(order) * (length + 1) * most ** length > 1e-11:
        length += 1
        if length > len(order) // 4:
            return None
    seen = {}
    for at in range(len(order) - length + 1):
        window = hash(tuple(order[at : at + length]))
        if window in seen and at - seen[window] >= length and order[seen[window] : seen[window] + length] == order[at : at + length]:
            return "rolls %d to %d are those from %d on" % (at, at + length - 1, seen[window])
        seen.setdefault(window, at)
    return None


def run(engine, scenario, stats):
    lines = scenario["ops"][0]["lines"] if scenario["ops"] else []
    if not lines:
        return
    program = driver.texts(lines)
    law = exact_law(lines)
    names = sorted(set(model.assigned(lines)))
    # what is reported
    if scenario["reporting"]:
        fresh = engine.Interpreter()
        state = model.State()
        kind, want = model.run_op(state, "distdict", lines, model.Budget(session.DIST))
        outcome, raw = driver.attempt(fresh, "distdict", program)
        if kind == "ok":
            if outcome == "err":
                raise Violation("report", "analysis of %s raises %s" % (program, driver.show(raw)))
            got = driver.canonical("distdict", raw)
            for name in names + ["stdout"]:
                true = marginal(law, name)
                if true is None:
                    continue
                if want[name] == {v: p for v, p in true.items() if p}:
                    problem = driver.dist_differs(got.get(name, {}), true)
                    if problem:
                        raise Violation("report", "report for %s of %s is not what rolls follow: %s" % (name, program, problem))
                    stats.count("reports compared with the exact law")
                else:
                    stats.count("reuse of an unevenly weighted variable (known finding)")
        elif outcome == "ok" and all(key[0] is None for key in law):
            raise Violation("report", "analysis of %s answers although it divides by zero" % program)
    rngseam.fair(scenario["rngseed"])
    users = [engine.Interpreter() for _ in range(scenario["users"])]
    stranger = engine.Interpreter()
    noise = [(n, driver.texts(n["lines"])) for n in scenario["noise"]]

    def sample(size):
        counts, pairs, order = {}, {}, []
        last = None
        for turn in range(size):
            user = users[turn % len(users)]
            outcome, raw = driver.attempt(user, "roll", program)
            if outcome == "ok":
                key = (None, int(raw["stdout"]), tuple((n, int(raw[n])) for n in names))
                now = raw["stdout"]
            else:
                failing = [k for k in law if k[0] is not None]
                if not failing:
                    raise Violation("frequency", "roll of %s raised %s, but no line can fail" % (program, driver.show(raw)))
                key, now = "failed", None
            counts[key] = counts.get(key, 0) + 1
            if turn:
                pairs[(last, now)] = pairs.get((last, now), 0) + 1
            last = now
            order.append(key)
            for item, text in noise:
                if turn % item["every"] == 0:
                    driver.attempt(user if item["same"] else stranger, item["mode"], text)
        return counts, pairs, order

    folded = {}
    for key, prob in law.items():
        key = "failed" if key[0] is not None else key
        folded[key] = folded.get(key, 0) + prob
    single = {}
    for key, prob in folded.items():
        value = None if key == "failed" else key[1]
        single[value] = single.get(value, 0) + prob
    pair_law = None
    if len(single) <= 12:
        pair_law = {(a, b): float(pa) * float(pb) for a, pa in single.items() for b, pb in single.items()}
    for attempt, size in enumerate((scenario["size"], scenario["size"] * 5)):
        counts, pairs, order = sample(size)
        stats.step(size)
        stats.event(counts)
        for outcome in counts:
            stats.state((program, outcome))
        impossible = [k for k in counts if k not in folded]
        if impossible:
            raise Violation("frequency", "%s rolled %s, which cannot happen" % (program, driver.show(impossible[0])))
        p, cells = chi2.p_value(counts, folded)
        by_value = {}
        for key, number in counts.items():
            value = None if key == "failed" else key[1]
            by_value[value] = by_value.get(value, 0) + number
        seen = repeated(order, folded)
        if seen:
            raise Violation("frequency", "rolls of %s come again: %s" % (program, seen))
        p1, _ = chi2.p_value(by_value, single)
        p2 = chi2.p_value(pairs, pair_law)[0] if pair_law else 1.0
        # the pairs overlap (each roll is in two of them): halve the evidence
        if pair_law:
            p2 = chi2.p_value({k: v // 2 for k, v in pairs.items()}, pair_law)[0]
        lowest = min(p, p1, p2)
        stats.count("chi-square tests", 2 + bool(pair_law))
        if lowest >= (FIRST if attempt == 0 else SECOND):
            stats.event("ok")
            return
        stats.count("second samples", 1)
    what = "outcomes" if min(p, p1) <= p2 else "pairs of successive rolls"
    worst = sorted(folded, key=lambda k: -abs(counts.get(k, 0) - float(folded[k]) * size))[:3]
    raise Violation("frequency", "%s: %s do not follow the reported law (p < %g over %d rolls); e.g. %s" % (
        program, what, SECOND, size,
        "; ".join("%s seen %d times, expected %.1f" % (driver.show(k), counts.get(k, 0), float(folded[k]) * size) for k in worst)))
