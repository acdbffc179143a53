"""Runs scenarios, each in a forked child of a process that has loaded the code under test.

stdin: one JSON request per line; stdout: one JSON result per line.
 {"job": {"prop", "tier", "seed", "indices": [...]}}      generate and run
 {"run": {"prop", "scenario"}}                             run as given
"""
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

sys.setrecursionlimit(5000)
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)

from . import boot, clock, driver, fakedraw, locks, model, rngseam, sched, session, stats as statistics  # noqa: E402

WALL = float(os.environ.get("PYDICE_WALL", "75"))
STEP_CAP = 60_000_000  # steps of one call; the calls generated need less than a tenth of it


def one(engine, prop, make, capped=False):
    """In the child: -> result dict"""
    stats = statistics.Stats()
    result = {"status": "ok"}
    scenario = None
    try:
        scenario = make()
        if scenario is None:
            return {"status": "skip"}
        if capped and not getattr(prop, "OWN_TRACING", False):
            with sched.Injector(engine, limit=STEP_CAP, with_rply=True):
                prop.run(engine, scenario, stats)
        else:
            prop.run(engine, scenario, stats)
        charts = session.settle(engine, stats)
        if charts:
            result["charts"] = charts
    except session.Violation as violation:
        result = {"status": "violation", "kind": violation.kind, "text": violation.text}
    except sched.Deadlock as error:
        result = {"status": "violation", "kind": "deadlock", "text": str(error)}
    except sched.StepLimit as error:
        result = {"status": "violation", "kind": "progress", "text": "a call does not end: %s" % error}
    except model.TooBig:
        result = {"status": "skip"}
    except session.driver.Malformed as error:
        result = {"status": "violation", "kind": "malformed", "text": str(error)}
    except BaseException as error:  # noqa
        frames = traceback.extract_tb(error.__traceback__)
        inside = any(f.filename.startswith(engine.root) for f in frames)
        result = {
            "status": "violation" if inside else "error",
            "kind": "unexpected error",
            "text": "%s: %s" % (type(error).__name__, error),
            "trace": traceback.format_exc()[-3000:],
        }
    if clock.jumps:
        stats.fault("clock jump", clock.jumps)
    result.update(stats.export())
    if result["status"] in ("violation", "error") or "charts" in result:
        result["scenario"] = scenario
        if stats.explicit:
            result["explicit"] = stats.explicit
    return result


def forked(engine, prop, make, wall=WALL, capped=False, keep_scenario=False):
    read, write = os.pipe()
    began = time.monotonic()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(read)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            rngseam.restore()
            rngseam.fresh_entropy()
            locks.ALONE = True
            clock.start(os.environ.get("PYTHONHASHSEED"))
            box = {}

            def making():
                box["scenario"] = make()
                return box["scenario"]

            result = one(engine, prop, making, capped)
            if keep_scenario and "scenario" not in result:
                result["scenario"] = box.get("scenario")
            data = json.dumps(result).encode()
            with os.fdopen(write, "wb") as out:
                out.write(data)
        except BaseException:  # noqa
            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(write)
    chunks = []
    end = time.monotonic() + wall
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([read], [], [], left)
        if not ready:
            timed_out = True
            break
        chunk = os.read(read, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.close(read)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {"status": "timeout"}
    try:
        result = json.loads(b"".join(chunks).decode())
    except ValueError:
        return {"status": "error", "kind": "child died", "text": "exit status %r" % status}
    judge_charts(engine, result)
    if result["status"] == "ok":
        result.pop("explicit", None)
        if not keep_scenario:
            result.pop("scenario", None)
    return dict(result, wall=round(time.monotonic() - began, 2))


# ---------------------------------------------------------------- charts of the stand-in
def in_child(function):
    """What the function returns in a fork of this process, in which nothing has run yet (None: it failed)."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(read)
            locks.ALONE = True
            with os.fdopen(write, "wb") as out:
                out.write(json.dumps(function()).encode())
        except BaseException:  # noqa
            pass
        os._exit(0)
    os.close(write)
    with os.fdopen(read, "rb") as source:
        data = source.read()
    os.waitpid(pid, 0)
    return json.loads(data.decode()) if data else None


_drawn = {}


def reference(engine, mode, law):
    """The drawing of a distribution (known by its weights) by code that has done nothing else before."""
    key = (mode, repr(law))
    if key not in _drawn:
        if len(_drawn) > 2000:
            _drawn.clear()
        _drawn[key] = in_child(lambda: getattr(engine.DistFactory().create(dict(map(tuple, law))), driver.METHODS[mode])().content())
    return _drawn[key]


def judge_charts(engine, result):
    """Each chart must be the drawing of one of the distributions it may show."""
    for chart in result.pop("charts", []):
        if result["status"] != "ok":
            return
        wants = [reference(engine, chart["mode"], law) for law in chart["laws"]]
        if any(want is None or fakedraw.same(chart["content"], want) for want in wants):
            continue
        result.update(
            status="violation", kind=chart["kind"],
            text="%s shows %s, should be %s" % (chart["label"], fakedraw.brief(chart["content"]), fakedraw.brief(wants[0])),
        )


def calibrate(engine):
    """Whether the stand-in for the drawing library tells charts apart: "fake" or ""."""
    samples = [[[1, 1], [2, 1]], [[1, 1], [2, 1], [3, 1]], [[1, 2], [2, 1]], [[-3, 1], [7, 5]], [[4, 1]], [[1, 2], [2, 3], [3, 3], [4, 1]], [[1, 1], [2, 3], [3, 3], [4, 2]]]
    programs = ["d2", "d3", "d[1-2,1]", "d[-3,7,7,7,7,7]", "4", "d[1*2,2*3,3*3,4]", "d[1,2*3,3*3,4*2]"]
    try:
        for mode in ("hist", "hist_least", "hist_most"):
            seen = []
            for law, program in zip(samples, programs):
                one = reference(engine, mode, law)
                two = in_child(lambda: driver.call(engine.Interpreter(), mode, [program]).content())
                if one is None or two is None or not fakedraw.same(one, two) or any(fakedraw.same(one, other) for other in seen):
                    return ""
                seen.append(one)
    except Exception:  # noqa
        return ""
    return "fake"


def safe(engine, prop, make, keep_scenario=False):
    result = forked(engine, prop, make, keep_scenario=keep_scenario)
    if result["status"] == "timeout":
        # slow machine or no progress? count the steps of each call instead of seconds
        result = forked(engine, prop, make, wall=4 * WALL, capped=True, keep_scenario=keep_scenario)
        if result["status"] == "timeout":
            # not a verdict: nothing shows that a call does not end
            result = {"status": "error", "kind": "timeout", "text": "no answer in %d s, and none in %d s when counting steps" % (WALL, 4 * WALL)}
    return result


def main():
    platform = "pypy" if boot.IS_PYPY else "cpython"
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    rngseam.install()
    drawing = os.environ.get("PYDICE_DRAWING") == "1"
    try:
        engine = boot.boot(drawing)
    except BaseException as error:  # noqa
        out.write(json.dumps({"boot": "failed", "text": "%s: %s" % (type(error).__name__, error), "trace": traceback.format_exc()[-2000:]}) + "\n")
        out.flush()
        boot.cleanup()
        return
    engine.charts = "real" if engine.drawing else calibrate(engine)
    out.write(json.dumps({"boot": "ok", "charts": engine.charts}) + "\n")
    out.flush()
    try:
        for line in sys.stdin:
            request = json.loads(line)
            if "job" in request:
                job = request["job"]
                prop = importlib.import_module("sim.props." + job["prop"].lower())
                for index in job["indices"]:
                    seed = "%s:%s" % (job["seed"], index)
                    keep = index < 3

                    def make(seed=seed):
                        return prop.generate(seed, job["tier"], platform, engine.charts)

                    result = safe(engine, prop, make, keep_scenario=keep)
                    result["index"] = index
                    out.write(json.dumps(result) + "\n")
                    out.flush()
                out.write(json.dumps({"done": True}) + "\n")
                out.flush()
            elif "run" in request:
                prop = importlib.import_module("sim.props." + request["run"]["prop"].lower())
                scenario = request["run"]["scenario"]
                result = safe(engine, prop, lambda: scenario)
                out.write(json.dumps(result) + "\n")
                out.flush()
    finally:
        boot.cleanup()


if __name__ == "__main__":
    main()
