"""The recorded findings: raises Violation when the listed history still fails."""
from fractions import Fraction

from .. import charts, driver
from ..session import Violation

OWN_TRACING = True


def run(engine, scenario, stats):
    kind = scenario["kind"]
    if kind == "law":
        # what the dice really do, against what is reported
        reported = driver.canonical("distdict", driver.call(engine.Interpreter(), "distdict", scenario["program"]))["stdout"]
        true = {int(k): Fraction(v) for k, v in scenario["true_law"].items()}
        problem = driver.dist_differs(reported, true)
        if problem:
            raise Violation("known", problem)
    elif kind == "roll":
        got = driver.canonical("roll", driver.call(engine.Interpreter(), "roll", scenario["program"]))["stdout"]
        reported = driver.canonical("distdict", driver.call(engine.Interpreter(), "distdict", scenario["program"]))["stdout"]
        if got not in reported:
            raise Violation("known", "rolled %r, reported %r" % (got, reported))
    elif kind == "trace":
        user = engine.Interpreter()
        try:
            driver.call(user, scenario["mode"], scenario["program"])
        except Exception:
            pass
        else:
            return
        try:
            got = driver.call(user, scenario["mode"], scenario["then"])
        except KeyError:
            return
        raise Violation("known", "the failed line left %r" % (got,))
    elif kind == "compare_histogram":
        if not engine.drawing:
            raise RuntimeError("needs drawing")
        parts = [driver.call(engine.Interpreter(), "dist", [text])["stdout"] for text in scenario["parts"]]
        laws = [{int(k): Fraction(v) for k, v in law.items()} for law in scenario["laws"]]
        problem = charts.comparison(engine, "compare_histogram", laws[0], laws[1], honest=True).differs(parts[0].get_compare_histogram(parts[1]))
        if problem:
            raise Violation("known", problem)
    else:
        raise AssertionError(kind)
