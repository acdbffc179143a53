"""What the single dice showed: the results of the random module's functions while a program is rolled.

The log is only used after a calibration: the values logged must be the faces of the dice (on dice whose faces
can be mistaken for nothing else).  If the code gets its dice in another way, nothing is judged from the log.
"""
import itertools
import random

from . import driver, model

FUNCTIONS = ("choices", "choice", "randint", "randrange", "sample")
_log = None
_depth = 0


def install():
    for name in FUNCTIONS:
        setattr(random, name, _wrap(getattr(random, name)))


def _wrap(function):
    def logged(*args, **kwargs):
        global _depth
        if _log is None:
            return function(*args, **kwargs)
        _depth += 1
        try:
            result = function(*args, **kwargs)
        finally:
            _depth -= 1
        if _depth == 0 and _log is not None:
            _log.append(list(result) if isinstance(result, (list, tuple)) else [result])
        return result

    logged.__name__ = function.__name__
    return logged


class Log:
    def __enter__(self):
        global _log, _depth
        self.calls = _log = []
        _depth = 0
        return self

    def __exit__(self, *exc):
        global _log
        _log = None

    def values(self):
        return [v for call in self.calls for v in call]


def calibrated(engine):
    """Does the log show the faces of the dice?"""
    interpreter = engine.Interpreter()
    odd = {7, 13, 29}
    for text, count, exact in (("d[7,13,29]", 1, True), ("1d[7*2,13*3,29]", 1, True), ("3d[7,13,29]", 3, False), ("3d[7,13,29]k1", 3, False), ("3d[7,13,29]d1", 3, False)):
        for _ in range(2):
            with Log() as log:
                try:
                    got = driver.canonical("roll", driver.call(interpreter, "roll", [text]))["stdout"]
                except Exception:  # noqa
                    return False
            values = log.values()
            if len(values) != count or not set(values) <= odd or (exact and got != values[0]):
                return False
    return True


def nodes(expr, out):
    """The dice of an expression from left to right."""
    if expr[0] == "dice":
        out.append(expr)
    elif expr[0] in ("not", "abs"):
        nodes(expr[1], out)
    elif expr[0] in ("mm", "bin"):
        nodes(expr[2], out)
        nodes(expr[3], out)
    return out


def total(expr, shown):
    count, _face, mode, kept = model.dice_shape(expr)
    if mode == "none":
        return 0
    if mode == "all":
        return sum(shown)
    order = sorted(shown, reverse=(mode == "high"))
    return sum(order[:kept])


def value(expr, env, results):
    """results: totals of the dice from left to right (an iterator)"""
    kind = expr[0]
    if kind == "int":
        return expr[1]
    if kind == "bool":
        return int(expr[1] == "True")
    if kind == "dice":
        return next(results)
    if kind == "var":
        if expr[1] not in env:
            raise model.LineError("KeyError")
        return env[expr[1]]
    if kind == "not":
        return 0 if model.truth(value(expr[1], env, results)) else 1
    if kind == "abs":
        return abs(value(expr[1], env, results))
    left = value(expr[2], env, results)
    right = value(expr[3], env, results)
    if kind == "mm":
        return (max if expr[1] == "MAX" else min)(left, right)
    return model.apply_bin(expr[1], left, right)


def ways(dice, values, at):
    """Every way to hand the values from `at` on to the dice of one line: (totals from left to right, new position)"""
    orders = [tuple(range(len(dice)))]
    if 1 < len(dice) <= 4:
        orders = list(itertools.permutations(range(len(dice))))
    elif len(dice) > 4:
        orders = [tuple(range(len(dice))), tuple(reversed(range(len(dice))))]
    shapes = [model.dice_shape(d) for d in dice]
    idle = [i for i, s in enumerate(shapes) if s[2] == "none" and s[0] > 0]
    for order in orders:
        for skipped in itertools.product((False, True), repeat=len(idle)):
            skip = {i for i, yes in zip(idle, skipped) if yes}
            position, totals, good = at, [0] * len(dice), True
            for index in order:
                count, face = shapes[index][0], shapes[index][1]
                if index in skip:
                    continue
                shown = values[position:position + count]
                if len(shown) < count or any(v not in face for v in shown):
                    good = False
                    break
                totals[index] = total(dice[index], shown)
                position += count
            if good:
                yield totals, position


def judge(lines, consts, values, got):
    """-> True (the answer is what the dice showed), False (it is not), None (cannot tell)"""
    worlds = [(0, dict(consts), None)]
    exact = True
    thrown = sum(model.dice_shape(d)[0] for line in lines for d in nodes(line[2] if line[0] == "=" else line[1], []))
    if len(values) > thrown:
        return False  # a dice was rolled again
    for line in lines:
        expr = line[2] if line[0] == "=" else line[1]
        dice = nodes(expr, [])
        if len(dice) > 4:
            exact = False
        new = []
        for at, env, _ in worlds:
            for totals, position in ways(dice, values, at):
                try:
                    result = value(expr, env, iter(totals))
                except model.LineError:
                    exact = False
                    continue
                after = env
                if line[0] == "=":
                    after = dict(env)
                    after[line[1]] = result
                entry = (position, after, result)
                if entry not in new:
                    new.append(entry)
        if not new or len(new) > 200:
            return None
        worlds = new
    worlds = [w for w in worlds if w[0] == len(values)]
    if not worlds:
        return None
    for _, env, stdout in worlds:
        if dict(env, stdout=stdout) == got:
            return True
    return False if exact else None
