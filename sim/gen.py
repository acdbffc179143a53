"""Seeded generation of programs (see model.py for their form)."""
from . import model

NAMES = ["a", "b", "c", "d", "ab", "a_", "_a", "a__", "k", "f", "x", "y", "save_roll", "hit", "dmg", "max", "abs", "z_z", "foo_bar_baz"]


class Profile:
    """What one run's programs look like (swarm: every run gets its own mix)."""

    def __init__(self, rng, **fixed):
        self.depth = rng.choice([1, 2, 2, 3])
        self.p_assign = rng.choice([0.4, 0.6, 0.8])
        self.p_var = rng.choice([0.15, 0.3, 0.5])
        self.names = rng.sample(NAMES, rng.choice([2, 3, 4, 6]))
        self.ops = rng.choice(
            [
                ["+", "-", "*", "//"],
                ["+", "-"],
                ["+", "-", "*", "//", "==", "!=", "<", "<=", ">", ">=", "AND", "OR"],
                ["+", "==", "<", ">=", "AND", "OR"],
                ["+", "-", "*", "//", "==", "!=", "<", "<=", ">", ">=", "AND", "OR"],
            ]
        )
        self.unary = rng.choice([0.0, 0.15, 0.3])
        self.mm = rng.choice([0.0, 0.15, 0.3])
        self.dice_kinds = rng.choice(
            [
                ["plain"],
                ["plain", "fate", "custom", "keep", "drop"],
                ["custom"],
                ["keep", "drop"],
                ["plain", "plain", "fate", "custom", "keep", "drop", "percent", "zero"],
                ["plain", "plain", "fate", "custom", "keep", "drop", "percent", "zero"],
            ]
        )
        self.max_sides = rng.choice([2, 4, 4, 6, 6, 10, 10, 20])
        self.max_count = rng.choice([1, 1, 2, 2, 3, 3, 4, 6])
        self.p_unknown = 0.0  # chance that a variable read may name an unassigned variable
        self.p_bad = 0.0  # chance of a line that is not in the language
        self.p_zero_div = 0.1  # chance that a divisor is unconstrained
        self.negative = rng.choice([0.0, 0.1])
        for key, value in fixed.items():
            assert hasattr(self, key), key
            setattr(self, key, value)


def small_number(rng, profile):
    if rng.random() < 0.04:
        return rng.choice([50, 99, 100, 101, 127, 128, 255, 256, 257, 1000, 4096])
    return rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 12, 20])


def custom_sides(rng):
    parts = []
    for _ in range(rng.randint(1, 4)):
        low = rng.randint(-4, 6)
        if rng.random() < 0.05:
            low = rng.choice([-1000, -77, 19, 50, 101, 999])
        if rng.random() < 0.4:
            high = low + rng.randint(0, 3) * rng.choice([1, 1, -1])
            text = "%d-%d" % (low, high)
        else:
            text = "%d" % low
        if rng.random() < 0.35:
            text += "*%d" % (rng.randint(1, 4) if rng.random() < 0.75 else rng.choice([5, 8, 9, 10, 12, 16, 17, 30, 60, 100]))
        parts.append(text)
    joint = rng.choice([",", ",", ", ", ", ", " , ", ",\t", "\t,\n"])
    text = joint.join(parts)
    if rng.random() < 0.2:
        text += rng.choice([",", ",", " ,", ", "])
    return rng.choice(["[%s]", "[%s]", "[%s]", "[ %s ]", "[\t%s]"]) % text


def dice(rng, profile):
    kind = rng.choice(profile.dice_kinds)
    count = rng.randint(1, profile.max_count)
    count_text = "" if count == 1 and rng.random() < 0.5 else str(count)
    sides = str(rng.randint(1, profile.max_sides))
    if kind == "fate":
        sides = "F"
    elif kind == "custom":
        sides = custom_sides(rng)
    elif kind == "percent":
        return ["dice", rng.choice(["", "1"]), "%", None]
    elif kind == "zero":
        return ["dice", "0", sides, None]
    elif kind in ("keep", "drop"):
        count = rng.randint(1, max(2, profile.max_count))
        sides = rng.choice([str(rng.randint(1, min(6, profile.max_sides))), "F", custom_sides(rng), sides])
        if rng.random() < 0.1:
            sides, count = "%", rng.choice([1, 2])
        amount = rng.choice([0, 1, 1, 1, 2, 2, 3, count, max(0, count - 1), count + 1])
        return ["dice", "" if count == 1 and rng.random() < 0.4 else str(count), sides, ("k" if kind == "keep" else "d") + str(amount)]
    return ["dice", count_text, sides, None]


def big_dice(rng):
    """Too many outcomes for an analysis, easily rolled."""
    sides = rng.choice(["1", "2", "3", "6", "20", "%", "F", custom_sides(rng), custom_sides(rng), "100", "101", "144", "1000", "5000"])
    count = rng.choice([1, 2, 3, 5, 8, 10, 20, 30, 50, 100, 255, 256, 300, 1000])
    if rng.random() < 0.5:
        return ["dice", str(count), sides, None]
    amount = rng.choice([0, 1, 2, count // 2, count - 1, count, count + 1])
    return ["dice", str(count), sides, rng.choice("kd") + str(amount)]


def leaf(rng, profile, known):
    if known and rng.random() < profile.p_var * 1.6:
        return ["var", rng.choice(sorted(known))]
    if profile.p_unknown and rng.random() < profile.p_unknown:
        return ["var", rng.choice(profile.names)]
    roll = rng.random()
    if roll < 0.25:
        return ["int", small_number(rng, profile)]
    if roll < 0.28:
        return ["bool", rng.choice(["True", "False"])]
    return dice(rng, profile)


def boolean(rng, profile, known, depth):
    roll = rng.random()
    if depth <= 0 or roll < 0.7:
        op = rng.choice(["==", "!=", "<", "<=", ">", ">="])
        return ["bin", op, expr(rng, profile, known, depth - 1), expr(rng, profile, known, depth - 1)]
    if roll < 0.8:
        return ["bool", rng.choice(["True", "False"])]
    if roll < 0.9:
        return ["not", expr(rng, profile, known, depth - 1)]
    return ["bin", rng.choice(["AND", "OR"]), boolean(rng, profile, known, depth - 1), boolean(rng, profile, known, depth - 1)]


def expr(rng, profile, known, depth):
    if depth <= 0 or rng.random() < 0.2:
        return leaf(rng, profile, known)
    roll = rng.random()
    if roll < profile.unary:
        return [rng.choice(["not", "abs", "abs"]), expr(rng, profile, known, depth - 1)]
    if roll < profile.unary + profile.mm:
        return ["mm", rng.choice(["MAX", "MIN"]), expr(rng, profile, known, depth - 1), expr(rng, profile, known, depth - 1)]
    op = rng.choice(profile.ops)
    if op == "AND":
        return ["bin", "AND", boolean(rng, profile, known, depth - 1), boolean(rng, profile, known, depth - 1)]
    if op == "//" and rng.random() >= profile.p_zero_div:
        right = rng.choice([["int", rng.randint(1, 5)], ["dice", "", str(rng.randint(1, 4)), None]])
        return ["bin", "//", expr(rng, profile, known, depth - 1), right]
    left, right = expr(rng, profile, known, depth - 1), expr(rng, profile, known, depth - 1)
    if profile.negative and rng.random() < profile.negative:
        left = ["bin", "-", ["int", 0], left]
    return ["bin", op, left, right]


BAD = [
    "1 +", "+ 1", "VAR = 4", "VAR a 4", "VAR a =", "((1)", "1)", "1 2", "$", "a b", "VAR A = 3", "MAX(1)", "ABS()",
    "MIN(1,)", "2d6 ? 3", "VAR a = 2d6 +", "VAR b = (d4", "1d6 AND", "!", "", "VAR", "=", "VAR a = b = 3", "AND 1", "#", "3.5",
    "VAR a = %", "VAR a = d6 @ 2", "ABS 3", "VAR a == 3", ",", "d[1,2", "VAR x = d[a]", "1 + * 2", "VAR a = 1\nVAR b = 2",
]


def line(rng, profile, known):
    style = rng.randrange(1 << 30)
    if profile.p_bad and rng.random() < profile.p_bad:
        return ["bad", rng.choice(BAD)]
    depth = rng.randint(0, profile.depth)
    if rng.random() < profile.p_assign:
        return ["=", rng.choice(profile.names), expr(rng, profile, known, depth), style]
    return ["e", expr(rng, profile, known, depth), style]


def program(rng, profile, known, length, dist_budget=None, state=None, worlds_budget=None, consts=None, tries=40):
    """`length` lines that fit the budgets; advances nothing."""
    for _ in range(tries):
        names = set(known)
        lines = []
        for _ in range(length):
            lines.append(line(rng, profile, names))
            if lines[-1][0] == "=":
                names.add(lines[-1][1])
        try:
            if dist_budget:
                trial = state.copy() if state is not None else model.State()
                budget = model.Budget(dist_budget)
                for item in lines:
                    try:
                        model.run_line(trial, "dist", item, budget)
                    except model.LineError:
                        pass
            if worlds_budget:
                model.roll_worlds(lines, consts or {}, model.Budget(worlds_budget))
        except model.TooBig:
            continue
        return lines
    return [["e", ["dice", "", "2", None], 0]]

