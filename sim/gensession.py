"""Seeded generation of sequences of calls on one interpreter's variables."""
from . import gen, model

WIDEST_CHART = 150
MODES = ["roll", "roll", "max", "min", "dist", "distdict", "avg", "cost"]


class SessionGen:
    """Keeps a plausible state of the session, so that later lines mostly refer to variables that exist."""

    def __init__(self, rng, profile, dist_budget=6000, worlds_budget=20000, drawing=False):
        self.rng = rng
        self.profile = profile
        self.state = model.State()
        self.dist_budget = dist_budget
        self.worlds_budget = worlds_budget
        self.drawing = drawing

    def known(self, mode):
        if mode in ("roll", "cost"):
            return set(self.state.consts)
        if mode in ("max", "min"):
            return set(self.state.consts) & set(self.state.vars)
        return set(self.state.vars)

    def call(self, mode, length=None):
        """-> lines of one call; the plausible state moves on."""
        rng = self.rng
        if length is None:
            length = rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 6]) if rng.random() < 0.97 else 0
        if mode.startswith("hist") and length == 0:
            length = 1
        for _ in range(30):
            names = self.known(mode)
            lines = []
            for _ in range(length):
                line = gen.line(rng, self.profile, names)
                lines.append(line)
                if line[0] == "=":
                    names = names | {line[1]}
            after = self.advance(mode, lines)
            if after is not None:
                self.state = after
                return lines
        return [["e", ["dice", "", "2", None], 0]] if length else []

    def advance(self, mode, lines):
        """-> the state after, or None if too big"""
        after = self.state.copy()
        try:
            if mode == "roll":
                model.roll_worlds(lines, after.consts, model.Budget(self.worlds_budget))
                for line in lines:
                    if line[0] == "bad":
                        break
                    law = model.expr_law(line[2] if line[0] == "=" else line[1], after.consts)
                    values = sorted(v for v in law if v != model.ERR)
                    if not values:
                        break
                    if line[0] == "=":
                        after.consts[line[1]] = self.rng.choice(values)
            else:
                budget = model.Budget(self.dist_budget)
                # every line must also be affordable in an analysis, whatever the mode
                kind, want = model.run_op(after, mode, lines, budget)
                if mode.startswith("hist") and kind == "ok" and max(want["stdout"]) - min(want["stdout"]) > WIDEST_CHART:
                    return None
        except model.TooBig:
            return None
        # values that grow without bound make later programs explode
        for value in after.consts.values():
            if abs(value) > 100_000:
                return None
        for dist in after.vars.values():
            if len(dist.items) > 400 or any(abs(v) > 100_000 for v in dist.values()):
                return None
        return after

    def mode(self):
        modes = list(MODES)
        if self.drawing:
            modes += ["hist", "hist_least", "hist_most"]
        return self.rng.choice(modes)
