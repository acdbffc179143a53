"""Executable reference model of the python_dice language.

Written from the README, the interfaces and the existing tests, not from the
implementation.  Works on syntax trees, so it shares no parser with the code.

expr :=  ["int", n] | ["bool", "True"|"False"] | ["dice", count_text, sides_text, None|"k3"|"d2"]
       | ["var", name] | ["not", e] | ["abs", e] | ["mm", "MAX"|"MIN", e, e] | ["bin", op, e, e]
line :=  ["=", name, expr, style] | ["e", expr, style] | ["bad", text]
"""
import math
import random
import re
from fractions import Fraction

LEVEL = {"+": 1, "-": 1, "*": 2, "//": 2}
for _op in ("==", "!=", "<=", "<", ">=", ">", "AND", "OR"):
    LEVEL[_op] = 3


class LineError(Exception):
    """The line fails (a bad text, an unknown variable, a division by zero)."""


class TooBig(Exception):
    """The case is outside the size bound of the exploration."""


# ---------------------------------------------------------------- printing
def line_text(line):
    if line[0] == "bad":
        return line[1]
    style = random.Random(line[-1])
    before, after = ("", "") if style.random() < 0.9 else (style.choice(["", " ", "\t"]), style.choice([" ", "\t", "\n"]))
    if line[0] == "=":
        gap = style.choice([" ", " ", "  ", "\t"])
        text = "VAR%s%s%s=%s%s" % (gap, line[1], style.choice([" ", " ", "  ", ""]), style.choice([gap, gap, ""]), expr_text(line[2], style))
    else:
        text = expr_text(line[1], style)
    return before + text + after


def expr_text(expr, style, need=0, root=True):
    kind = expr[0]
    if kind == "int":
        text, level = str(expr[1]), 9
    elif kind == "bool":
        text, level = expr[1], 9
    elif kind == "dice":
        text, level = "%sd%s%s" % (expr[1], expr[2], expr[3] or ""), 9
    elif kind == "var":
        text, level = expr[1], 9
    elif kind == "abs":
        text, level = "ABS(%s)" % expr_text(expr[1], style), 9
    elif kind == "mm":
        text, level = style.choice(["%s(%s, %s)", "%s(%s, %s)", "%s( %s,%s )", "%s (%s ,%s)"]) % (expr[1], expr_text(expr[2], style), expr_text(expr[3], style)), 9
    elif kind == "not":
        # NOT binds loosest of the operators: it takes everything to its right
        text, level = "!" + expr_text(expr[1], style), (9 if root else -1)
        if root:
            return text
    elif kind == "bin":
        level = LEVEL[expr[1]]
        # "1 -2" is two numbers: a minus keeps its room
        left, right = (" ", " ") if expr[1] in ("-", "AND", "OR") or style.random() < 0.8 else (style.choice(["", " ", "\t", "  "]), style.choice(["", " ", "\t"]))
        text = "%s%s%s%s%s" % (expr_text(expr[2], style, level, False), left, expr[1], right, expr_text(expr[3], style, level + 1, False))
    else:
        raise AssertionError(expr)
    if level < need or (level < 9 and style.random() < 0.3) or style.random() < 0.04:
        return style.choice(["(%s)", "( %s )"]) % text
    return text


# ---------------------------------------------------------------- dice
_ENTRY = re.compile(r"^(-?\d+)(?:-(-?\d+))?(?:\*(\d+))?$")


def faces(sides):
    """face -> weight of one dice."""
    if sides == "%":
        return {v: 1 for v in range(1, 101)}
    if sides == "F":
        return {-1: 1, 0: 1, 1: 1}
    if sides.startswith("["):
        out = {}
        for entry in "".join(sides.strip("[]").split()).split(","):
            if not entry:
                continue
            low, high, times = _ENTRY.match(entry).groups()
            low = int(low)
            high = low if high is None else int(high)
            for value in range(min(low, high), max(low, high) + 1):
                out[value] = out.get(value, 0) + int(times or 1)
        return out
    return {v: 1 for v in range(1, int(sides) + 1)}


def dice_shape(expr):
    """(number of dice, faces, mode, number kept) with mode all/high/low/none."""
    count = 1 if expr[1] == "" else int(expr[1])
    face = faces(expr[2])
    if expr[3] is None:
        return count, face, "all", count
    amount = int(expr[3][1:])
    if expr[3][0] == "k":
        if amount >= count:
            return count, face, "all", count
        return count, face, ("none" if amount == 0 else "high"), amount
    if amount >= count:
        return count, face, "none", 0
    if amount == 0:
        return count, face, "all", count
    return count, face, "low", count - amount


_LAW_CACHE = {}


def dice_law(expr):
    """total -> integer weight, exact."""
    key = (expr[1], expr[2], expr[3])
    if key not in _LAW_CACHE:
        _LAW_CACHE[key] = _dice_law(expr)
    return _LAW_CACHE[key]


def _dice_law(expr):
    count, face, mode, kept = dice_shape(expr)
    if mode == "none":
        return {0: 1}
    if mode == "all":
        law = {0: 1}
        for _ in range(count):
            new = {}
            for total, weight in law.items():
                for value, times in face.items():
                    new[total + value] = new.get(total + value, 0) + weight * times
            law = new
        return law
    # keep `kept` highest (or lowest): hand out the dice face by face from the best face down
    order = sorted(face, reverse=(mode == "high"))
    states = {(count, kept, 0): 1}  # (dice left, still to keep, total) -> ways
    for value in order:
        new = {}
        for (left, keep, total), weight in states.items():
            for here in range(left + 1):
                taken = min(here, keep)
                key = (left - here, keep - taken, total + taken * value)
                ways = weight * math.comb(left, here) * face[value] ** here
                new[key] = new.get(key, 0) + ways
        states = new
    law = {}
    for (left, _keep, total), weight in states.items():
        if left == 0:
            law[total] = law.get(total, 0) + weight
    return law


# ---------------------------------------------------------------- operators on plain values
def truth(value):
    return value > 0


def apply_bin(op, left, right):
    if op == "+":
        return left + right
    if op == "-":
        return left - right
    if op == "*":
        return left * right
    if op == "//":
        if right == 0:
            raise LineError("ZeroDivisionError")
        return left // right
    if op == "==":
        return int(left == right)
    if op == "!=":
        return int(left != right)
    if op == "<=":
        return int(left <= right)
    if op == "<":
        return int(left < right)
    if op == ">=":
        return int(left >= right)
    if op == ">":
        return int(left > right)
    if op == "AND":
        return int(truth(left) and truth(right))
    if op == "OR":
        return int(truth(left) or truth(right))
    raise AssertionError(op)


# ---------------------------------------------------------------- analysis: distributions
class Dist:
    """(value, what it fixes about variables) -> weight.

    `fixes` is a tuple of (variable version, value); two outcomes that disagree
    about a variable version cannot happen together.
    """

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    @staticmethod
    def free(law):
        return Dist({(value, ()): weight for value, weight in law.items()})

    def marginal(self):
        total = sum(self.items.values())
        out = {}
        for (value, _), weight in self.items.items():
            out[value] = out.get(value, 0) + weight
        return {value: Fraction(weight, total) for value, weight in out.items()}

    def values(self):
        return [value for value, _ in self.items]

    def width(self):
        """Bits of the longest number and links of the longest history: what one pair costs."""
        return max((abs(v).bit_length() + w.bit_length() + 16 * len(f) for (v, f), w in self.items.items()), default=0)

    def combine(self, other, function, budget):
        if budget is not None:
            budget.spend(len(self.items) * len(other.items) * (1 + (self.width() + other.width()) // 128))
        out = {}
        for (v1, f1), w1 in self.items.items():
            d1 = dict(f1)
            for (v2, f2), w2 in other.items.items():
                merged = d1
                for key, val in f2:
                    if key in merged:
                        if merged[key] != val:
                            break
                    else:
                        if merged is d1:
                            merged = dict(d1)
                        merged[key] = val
                else:
                    key = (function(v1, v2), tuple(sorted(merged.items())))
                    out[key] = out.get(key, 0) + w1 * w2
        return Dist(out)

    def map(self, function):
        out = {}
        for (value, fixes), weight in self.items.items():
            key = (function(value), fixes)
            out[key] = out.get(key, 0) + weight
        return Dist(out)

    def named(self, version):
        return Dist({(v, tuple(sorted(f + ((version, v),)))): w for (v, f), w in self.items.items()})


class Budget:
    def __init__(self, limit):
        self.left = limit

    def spend(self, amount):
        self.left -= amount
        if self.left < 0:
            raise TooBig()


def expr_dist(expr, variables, budget=None):
    kind = expr[0]
    if kind == "int":
        return Dist.free({expr[1]: 1})
    if kind == "bool":
        return Dist.free({int(expr[1] == "True"): 1})
    if kind == "dice":
        law = dice_law(expr)
        if budget is not None:
            count, face, mode, kept = dice_shape(expr)
            if mode == "all":
                budget.spend(count * len(face) * max(1, len(law)))
            elif mode in ("high", "low"):
                budget.spend(count * len(face) * math.comb(kept + len(face) - 1, kept))
        return Dist.free(law)
    if kind == "var":
        if expr[1] not in variables:
            raise LineError("KeyError")
        return variables[expr[1]]
    if kind == "not":
        return expr_dist(expr[1], variables, budget).map(lambda v: 0 if truth(v) else 1)
    if kind == "abs":
        return expr_dist(expr[1], variables, budget).map(abs)
    if kind == "mm":
        function = max if expr[1] == "MAX" else min
        return expr_dist(expr[2], variables, budget).combine(expr_dist(expr[3], variables, budget), function, budget)
    left = expr_dist(expr[2], variables, budget)
    right = expr_dist(expr[3], variables, budget)
    if expr[1] == "//" and 0 in right.values():
        raise LineError("ZeroDivisionError")
    return left.combine(right, lambda x, y, op=expr[1]: apply_bin(op, x, y), budget)


def expr_bound(expr, state, pick, budget=None):
    """What min / max report: pick is the builtin min or max."""
    kind = expr[0]
    if kind == "int":
        return expr[1]
    if kind == "bool":
        return int(expr[1] == "True")
    if kind == "dice":
        count, face, mode, kept = dice_shape(expr)
        return 0 if mode == "none" else kept * pick(face)
    if kind == "var":
        if expr[1] not in state.consts:
            raise LineError("KeyError")
        return state.consts[expr[1]]
    if kind == "mm":
        function = max if expr[1] == "MAX" else min
        return function(expr_bound(expr[2], state, pick, budget), expr_bound(expr[3], state, pick, budget))
    return pick(expr_dist(expr, state.vars, budget).values())


def expr_cost(expr, consts):
    kind = expr[0]
    if kind in ("int", "bool"):
        return 2
    if kind == "dice":
        count, face, mode, kept = dice_shape(expr)
        if mode == "none":
            return 2
        if mode == "all":
            return count * len(face)
        return count * kept * len(face)
    if kind == "var":
        if expr[1] not in consts:
            raise LineError("KeyError")
        return consts[expr[1]]
    if kind == "not":
        return int(math.floor(expr_cost(expr[1], consts) * 1.1))
    if kind == "abs":
        return expr_cost(expr[1], consts)
    return expr_cost(expr[2], consts) + expr_cost(expr[3], consts)


# ---------------------------------------------------------------- rolling: exact law of one play
ERR = "error"


def expr_law(expr, consts, budget=None):
    """value (or ERR) -> probability of one roll of the expression, given the variables' values."""
    kind = expr[0]
    if kind == "int":
        return {expr[1]: Fraction(1)}
    if kind == "bool":
        return {int(expr[1] == "True"): Fraction(1)}
    if kind == "dice":
        law = dice_law(expr)
        total = sum(law.values())
        return {value: Fraction(weight, total) for value, weight in law.items()}
    if kind == "var":
        if expr[1] not in consts:
            return {ERR: Fraction(1)}
        return {consts[expr[1]]: Fraction(1)}
    if kind in ("not", "abs"):
        function = abs if kind == "abs" else (lambda v: 0 if truth(v) else 1)
        out = {}
        for value, prob in expr_law(expr[1], consts, budget).items():
            new = ERR if value == ERR else function(value)
            out[new] = out.get(new, 0) + prob
        return out
    left = expr_law(expr[2], consts, budget)
    right = expr_law(expr[3], consts, budget)
    if budget is not None:
        budget.spend(len(left) * len(right))
    if kind == "mm":
        pick = max if expr[1] == "MAX" else min
        function = lambda x, y: pick(x, y)
    else:
        function = lambda x, y, op=expr[1]: apply_bin(op, x, y)
    out = {}
    for v1, p1 in left.items():
        for v2, p2 in right.items():
            if v1 == ERR or v2 == ERR:
                new = ERR
            else:
                try:
                    new = function(v1, v2)
                except LineError:
                    new = ERR
            out[new] = out.get(new, 0) + p1 * p2
    return out


def roll_worlds(lines, consts, budget=None):
    """Every way one roll of the program can go.

    -> {(failed_line or None, stdout or None, tuple(sorted(changed variables))): probability}
    """
    done = {}
    worlds = {((), None): Fraction(1)}  # (changed, stdout) -> probability
    for index, line in enumerate(lines):
        new = {}
        for (changed, _), prob in worlds.items():
            env = dict(consts)
            env.update(changed)
            if line[0] == "bad":
                law = {ERR: Fraction(1)}
            else:
                law = expr_law(line[2] if line[0] == "=" else line[1], env, budget)
            if budget is not None:
                budget.spend(len(law))
            for value, part in law.items():
                if value == ERR:
                    key = (index, None, changed)
                    done[key] = done.get(key, 0) + prob * part
                    continue
                after = changed
                if line[0] == "=":
                    after = dict(changed)
                    after[line[1]] = value
                    after = tuple(sorted(after.items()))
                key = (after, value)
                new[key] = new.get(key, 0) + prob * part
        worlds = new
    for (changed, stdout), prob in worlds.items():
        key = (None, stdout, changed)
        done[key] = done.get(key, 0) + prob
    return done


# ---------------------------------------------------------------- sessions
class State:
    """What one interpreter remembers between calls."""

    def __init__(self):
        self.consts = {}  # the value each variable last took in roll, min, max or cost
        self.vars = {}  # the distribution each variable last took
        self.version = 0

    def copy(self):
        new = State()
        new.consts = dict(self.consts)
        new.vars = dict(self.vars)
        new.version = self.version
        return new

    def set_var(self, name, dist):
        self.version += 1
        self.vars[name] = dist.named(self.version)

    def marginals(self):
        return {name: dist.marginal() for name, dist in self.vars.items()}


ANALYSIS = ("dist", "distdict", "avg", "hist", "hist_least", "hist_most")


def run_line(state, mode, line, budget=None):
    """Take the (deterministic) effect of one line on the state; -> stdout of the line."""
    if line[0] == "bad":
        raise LineError("ValueError")
    expr = line[2] if line[0] == "=" else line[1]
    if mode in ("max", "min"):
        value = expr_bound(expr, state, max if mode == "max" else min, budget)
        if line[0] == "=":
            state.set_var(line[1], expr_dist(expr, state.vars, budget))
            state.consts[line[1]] = value
        return value
    if mode == "cost":
        value = expr_cost(expr, state.consts)
        if line[0] == "=":
            state.consts[line[1]] = value
            return value + 2
        return value
    dist = expr_dist(expr, state.vars, budget)
    if line[0] == "=":
        state.set_var(line[1], dist)
    return dist


def run_op(state, mode, lines, budget=None):
    """-> ("ok", expected result) or ("err", index of the failing line); state is advanced."""
    stdout = None
    total = 0
    for index, line in enumerate(lines):
        try:
            stdout = run_line(state, mode, line, budget)
        except LineError:
            return "err", index
        if mode == "cost":
            total += stdout
    if mode in ("max", "min"):
        if not lines:
            return "ok", {}
        return "ok", dict(state.consts, stdout=stdout)
    if mode == "cost":
        return "ok", total
    if not lines:
        return "ok", {}
    out = state.marginals()
    out["stdout"] = stdout.marginal()
    return "ok", out


def assigned(lines):
    return [line[1] for line in lines if line[0] == "="]


def names_in(expr, out=None):
    out = set() if out is None else out
    if isinstance(expr, list):
        if expr and expr[0] == "var":
            out.add(expr[1])
        else:
            for item in expr:
                names_in(item, out)
    return out


def reads_first(lines):
    """Variables the program reads before it assigns them."""
    read, done = set(), set()
    for line in lines:
        if line[0] == "bad":
            continue
        read |= names_in(line[2] if line[0] == "=" else line[1]) - done
        if line[0] == "=":
            done.add(line[1])
    return read
