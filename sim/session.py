"""Follows what an interpreter may remember, from its answers.

`Tracker.states` is the set of model states that are consistent with everything
seen so far; it has one member until a fault makes more than one outcome legal.
"""
import math

from . import charts, driver, fakedraw, model

WIDEST_CHART = 400
WORLDS = 60_000
DIST = 400_000
AFFORDABLE = 40_000  # pairs of outcomes one call may combine
TOTAL = 200_000  # and one session
HUGE = 10**40  # repeated squaring would not end


class Tracker:
    def __init__(self, state=None, afford=AFFORDABLE):
        self.afford = afford
        self.states = [state or model.State()]
        self.unchecked = 0
        self.left_out = 0
        self.work = 0
        self.drawn = []  # what the last chart must show: one of these distributions
        self._foreseen = None

    def names(self):
        out = set()
        for state in self.states:
            out.update(state.consts)
            out.update(state.vars)
        return sorted(out)

    # ------------------------------------------------------------ ordinary calls
    def affordable(self, mode, lines):
        """Whether the call is within the bounds of the exploration (and foresee its answer)."""
        if mode in ("roll", "cost") and any(abs(v) > HUGE for s in self.states for v in s.consts.values()):
            self.left_out += 1
            return False
        if mode == "roll":
            return True
        if mode.startswith("hist") and not lines:
            return False  # no chart is defined for nothing
        self._foreseen = None
        foreseen = []
        spent = 0
        try:
            for state in self.states:
                after = state.copy()
                budget = model.Budget(min(self.afford, TOTAL - self.work))
                limit = budget.left
                kind, want = model.run_op(after, mode, lines, budget)
                spent = max(spent, limit - budget.left)
                if kind == "ok" and mode.startswith("hist") and wide(want["stdout"]):
                    raise model.TooBig()
                foreseen.append((after, kind, want))
        except model.TooBig:
            self.left_out += 1
            return False
        self.work += spent
        self._foreseen = (mode, lines, self.states, foreseen)
        return True

    def _foresee(self, mode, lines):
        known, self._foreseen = self._foreseen, None
        if known is not None and known[0] == mode and known[1] is lines and known[2] is self.states:
            return known[3]
        out = []
        for state in self.states:
            after = state.copy()
            out.append((after,) + model.run_op(after, mode, lines, model.Budget(DIST)))
        return out

    def answer(self, mode, lines, outcome, got):
        """outcome ok/err; got: canonical answer (None: not looked at) or the exception. -> None or a problem text"""
        if mode == "roll":
            assert outcome == "ok"
            return self.rolled(lines, got)
        keep, problem = [], None
        self.drawn = []
        for after, kind, want in self._foresee(mode, lines):
            if outcome == "err":
                if kind == "err":
                    keep.append(after)
                else:
                    problem = problem or "raised %s, should answer %s" % (driver.show(got), driver.show(want))
                continue
            if kind == "err":
                problem = problem or "answered %s, but line %d must fail" % (driver.show(got), want)
                continue
            if got is not None:
                difference = driver.differs(mode, got, want)
                if difference:
                    problem = problem or difference
                    continue
            if mode.startswith("hist") and want["stdout"] not in self.drawn:
                self.drawn.append(want["stdout"])
            keep.append(after)
        if keep:
            self.states = _distinct(keep)
            return None
        return problem

    def rolled(self, lines, got):
        if not lines:
            return None if got == {} else "rolling nothing answered %s" % driver.show(got)
        keep, problem = [], None
        names = set(model.assigned(lines))
        for state in self.states:
            expected_names = set(state.consts) | names | {"stdout"}
            if set(got) != expected_names:
                problem = problem or "names %s, should be %s" % (driver.show(sorted(got)), driver.show(sorted(expected_names)))
                continue
            stale = [n for n in state.consts if n not in names and got[n] != state.consts[n]]
            if stale:
                problem = problem or "%s is %d, but was %d and is not assigned here" % (
                    stale[0], got[stale[0]], state.consts[stale[0]])
                continue
            try:
                worlds = model.roll_worlds(lines, state.consts, model.Budget(WORLDS))
            except model.TooBig:
                worlds = None
                self.unchecked += 1
            key = (None, got["stdout"], tuple(sorted((n, got[n]) for n in names)))
            if worlds is not None and key not in worlds:
                problem = problem or "rolled %s, which cannot happen" % driver.show(
                    {n: got[n] for n in sorted(names | {"stdout"})})
                continue
            after = state.copy()
            after.consts.update((n, got[n]) for n in names)
            keep.append(after)
        if keep:
            self.states = _distinct(keep)
            return None
        return problem

    def roll_ended(self, lines, observed, error, whole_lines):
        """A roll raised; observed: the variables' values read back directly afterwards.

        whole_lines: a line failed by itself (so the lines before it are done and no other outcome is legal);
        otherwise a fault ended the call after any number of lines.
        """
        keep, problem = [], None
        names = set(model.assigned(lines))
        for state in self.states:
            wrong = [n for n in set(observed) | set(state.consts) if n not in names and observed.get(n) != state.consts.get(n)]
            if wrong:
                problem = problem or "value of %s is %r, should be %r" % (
                    wrong[0], observed.get(wrong[0]), state.consts.get(wrong[0]))
                continue
            now = {n: v for n, v in observed.items() if n in names}
            prefixes = [lines] if whole_lines else [lines[:count] for count in range(len(lines), -1, -1)]
            good, any_failure = False, False
            for prefix in prefixes:
                before = {n: v for n, v in state.consts.items() if n in names}
                try:
                    worlds = model.roll_worlds(prefix, state.consts, model.Budget(WORLDS))
                except model.TooBig:
                    self.unchecked += 1
                    good = True
                    break
                for failed, _stdout, changed in worlds:
                    if whole_lines:
                        if failed is None:
                            continue
                        any_failure = True
                    if dict(before, **dict(changed)) == now:
                        good = True
                        break
                if good:
                    break
            if good:
                after = state.copy()
                after.consts = dict(observed)
                keep.append(after)
            elif whole_lines and not any_failure:
                problem = problem or "raised %s, but no line can fail" % driver.show(error)
            else:
                problem = problem or "after %s the variables are %s, which no line-by-line run leaves (before: %s)" % (
                    driver.show(error), driver.show(now), driver.show(state.consts))
        if keep:
            self.states = _distinct(keep)
            return None
        return problem

    # ------------------------------------------------------------ faults
    def broken(self, mode, lines, torn=True):
        """The call (not a roll) was ended by a fault: some lines done, the next one maybe half done (whole values only)."""
        keep = []
        for state in self.states:
            current = state.copy()
            keep.append(current.copy())
            for line in lines:
                before = current.copy()
                try:
                    model.run_line(current, mode, line, model.Budget(DIST))
                except model.LineError:
                    break
                keep.append(current.copy())
                if torn and line[0] == "=":
                    name = line[1]
                    mixed = current.copy()
                    _put(mixed.vars, before.vars, name)
                    keep.append(mixed)
                    mixed = current.copy()
                    _put(mixed.consts, before.consts, name)
                    keep.append(mixed)
        self.states = _distinct(keep)

    def saw_const(self, name, outcome, value):
        return self._saw(name, outcome, value, lambda s: s.consts.get(name), "value")

    def saw_dist(self, name, outcome, value):
        keep, wants = [], []
        for state in self.states:
            want = state.vars[name].marginal() if name in state.vars else None
            if outcome == "err":
                good = want is None
            else:
                good = want is not None and driver.dist_differs(value, want) is None
            if good:
                keep.append(state)
            else:
                wants.append(want)
        if keep:
            self.states = keep
            return None
        return "distribution of %s is %s, should be %s" % (
            name, driver.show(value if outcome == "ok" else "unknown"),
            driver.show({v: str(p) for v, p in wants[0].items()} if wants[0] else "unknown"))

    def _saw(self, name, outcome, value, read, what):
        keep, wants = [], []
        for state in self.states:
            want = read(state)
            if (outcome == "err" and want is None) or (outcome == "ok" and want is not None and want == value):
                keep.append(state)
            elif want not in wants:
                wants.append(want)
        if keep:
            self.states = keep
            return None
        return "%s of %s is %s, should be %s" % (
            what, name, driver.show(value if outcome == "ok" else "unknown"),
            " or ".join(driver.show("unknown" if w is None else w) for w in wants[:4]))


def _put(target, source, name):
    if name in source:
        target[name] = source[name]
    else:
        target.pop(name, None)


def _distinct(states):
    if len(states) == 1:
        return states
    seen, out = set(), []
    for state in states:
        key = (tuple(sorted(state.consts.items())), tuple(sorted((n, id(d)) for n, d in state.vars.items())))
        if key not in seen:
            seen.add(key)
            out.append(state)
    return out


def wide(dist):
    return max(dist) - min(dist) > WIDEST_CHART


class Violation(Exception):
    def __init__(self, kind, text, at=None):
        Exception.__init__(self, text)
        self.kind = kind
        self.text = text
        self.at = at


def look(tracker, interpreter, names=None, kind="state", consts=True, dists=True):
    """Read every variable back through the public calls and compare."""
    for name in names if names is not None else tracker.names():
        if consts:
            outcome, raw = driver.attempt(interpreter, "roll", [name])
            value = driver.canonical("roll", raw).get("stdout") if outcome == "ok" else None
            problem = tracker.saw_const(name, outcome, value)
            if problem:
                raise Violation(kind, problem)
        if dists:
            outcome, raw = driver.attempt(interpreter, "distdict", [name])
            value = driver.canonical("distdict", raw).get("stdout") if outcome == "ok" else None
            problem = tracker.saw_dist(name, outcome, value)
            if problem:
                raise Violation(kind, problem)


def observe_consts(interpreter, names):
    out = {}
    for name in names:
        outcome, raw = driver.attempt(interpreter, "roll", [name])
        if outcome == "ok":
            out[name] = driver.canonical("roll", raw).get("stdout")
    return out


def step(tracker, interpreter, mode, lines, hold=None, kind="answer"):
    """One fault-free call, compared with the model; -> (outcome, canonical answer or name of the error)"""
    if not tracker.affordable(mode, lines):
        return "left out", None
    program = driver.texts(lines)
    outcome, raw = driver.attempt(interpreter, mode, program)
    if hold is not None:
        hold(mode, program, outcome, raw)
    if outcome == "err" and mode == "roll":
        names = sorted(set(tracker.names()) | set(model.assigned(lines)))
        got = raw
        problem = tracker.roll_ended(lines, observe_consts(interpreter, names), raw, True)
    else:
        got = raw
        if outcome == "ok":
            got = driver.content(mode, raw)
        problem = tracker.answer(mode, lines, outcome, got)
    if problem:
        raise Violation(kind, "%s of %s: %s" % (mode, driver.show(program), problem))
    if outcome == "ok":
        chart(tracker, mode, program, raw, kind)
    return outcome, (got if outcome == "ok" else type(raw).__name__)


# ---------------------------------------------------------------- charts
PENDING = []


def chart(tracker, mode, program, image, kind="answer"):
    """Remember the image an answered call gave; it is looked at when the run is over."""
    if mode.startswith("hist"):
        PENDING.append((tracker.drawn, mode, list(program), image, kind))


def settle(engine, stats):
    """After the run: compare real images here; -> contents of the stand-in's images, for the parent to judge"""
    out = []
    for wants, mode, program, image, kind in PENDING:
        label = "the chart of %s %s" % (mode, driver.show(program))
        stats.count("charts looked at after the run")
        if isinstance(image, fakedraw.FakeImage):
            try:
                content = image.content()
            except (OSError, ValueError) as error:
                raise Violation(kind, "%s cannot be read: %s" % (label, error))
            laws = []
            for want in wants:
                scale = 1
                for prob in want.values():
                    scale = scale * prob.denominator // math.gcd(scale, prob.denominator)
                laws.append([[value, int(prob * scale)] for value, prob in sorted(want.items()) if prob])
            out.append({"label": label, "mode": mode, "kind": kind, "content": content, "laws": laws})
        else:
            problem = None
            for want in wants:
                problem = charts.histogram(engine, mode, want).differs(image)
                if problem is None:
                    break
            if problem:
                raise Violation(kind, "%s: %s" % (label, problem))
    return out
