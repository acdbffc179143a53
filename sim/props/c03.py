"""C03: rolls depend only on the process's random generator, and only rolls use it."""
import hashlib
import json
import os
import random
import subprocess
import sys

from .. import driver, gen, gensession, rngseam
from ..session import Violation

ID = "C03"
RUNS = {"quick": 1000, "thorough": 40000}
PYPY_SHARE = 0.05
PYPY_JOB = 7
RULE = "Scenario: a session of rolls on 1 to 3 interpreters with analyses, bounds, cost estimates, charts (PyPy), constructions, failures and generator rewinds in between; repeated without the unrelated calls, and in a new process under another hash seed; the rolls must be the same and the generator's state must be untouched by everything but rolls."
TIME = "operations (calls)"
STATES = "digest of the generator state at each operation"
REAL = ["interpreter", "parser", "lexer", "expressions", "distributions", "constraints", "variable state", "rply", "random module", "process start-up (helper process)", "matplotlib and PIL on PyPy"]
STUB = ["matplotlib and PIL on the CPython runs"]
ASSUMES = ["the same Python build in all compared processes"]


def generate(seed, tier, platform, drawing):
    rng = random.Random("C03:%s" % seed)
    profile = gen.Profile(rng, p_unknown=rng.choice([0.0, 0.03]), p_bad=rng.choice([0.0, 0.05]))
    worlds = rng.choice([1, 2, 3])
    gens = [gensession.SessionGen(rng, profile) for _ in range(worlds)]
    ops = []
    length = rng.randint(3, 18)
    for _ in range(length):
        w = rng.randrange(worlds)
        roll = rng.random()
        if roll < 0.08:
            ops.append({"op": "roll", "w": w, "mode": "roll", "lines": [["e", gen.big_dice(rng), 1]]})
        elif roll < 0.45:
            ops.append({"op": "roll", "w": w, "mode": "roll", "lines": gens[w].call("roll")})
        elif roll < 0.55:
            ops.append({"op": "mark"})
        elif roll < 0.63:
            ops.append({"op": "rewind"})
        elif roll < 0.70:
            ops.append({"op": "new", "parser": rng.random() < 0.5})
        elif roll < 0.76:
            ops.append({"op": "stranger", "mode": rng.choice(["max", "min", "cost", "dist", "avg"]), "lines": gensession.SessionGen(rng, profile).call("dist", 2)})
        elif roll < 0.85:
            mode = rng.choice(["max", "min", "cost"])
            ops.append({"op": "bound", "w": w, "mode": mode, "lines": gens[w].call(mode)})
        else:
            mode = rng.choice(["dist", "distdict", "avg"] + (["hist", "hist_least", "hist_most"] if drawing else []))
            ops.append({"op": "analysis", "w": w, "mode": mode, "lines": gens[w].call(mode)})
    # some heavier analyses, where an implementation may be tempted to sample instead of to compute
    if rng.random() < 0.25 and platform == "cpython":
        heavy = rng.choice(["20d6", "8d[1-4,7]k3", "3d20k2", "2d%", "6d6d3", "d100 * d20", "15dF", "60d6", "100d4", "200d2", "14d2k1", "30d4k1", "13d3k6", "50d2k3", "20d4d18", "d1000 + d10", "500d1", "1000d6", "1000d6k500"])
        ops.insert(rng.randrange(len(ops) + 1), {"op": "heavy", "mode": rng.choice(["max", "min", "cost"] if heavy.startswith("1000") else ["dist", "dist", "avg", "max", "min", "cost"]), "text": heavy})
    return {"ops": ops, "worlds": worlds, "rngseed": rng.randrange(1 << 30),
            "helper": rng.random() < (0.5 if platform == "cpython" else 0.12), "hashseed": rng.randrange(1, 4294967295), "shared_parser": rng.random() < 0.3}


def state_digest():
    return hashlib.sha256(repr(random.getstate()).encode()).hexdigest()[:16]


def fingerprint():
    return {name: id(getattr(random, name)) for name in ("_inst", "random", "choices", "choice", "randint", "seed", "Random", "getrandbits") if hasattr(random, name)}


def play(engine, scenario, unrelated, check_state, stats=None):
    """-> log of the rolls (and the generator state after each)"""
    rngseam.fair(scenario["rngseed"])
    before_all = fingerprint()
    start = state_digest()
    shared = engine.Parser() if scenario["shared_parser"] else None
    users = [engine.Interpreter(parser=shared) for _ in range(scenario["worlds"])]
    stranger = engine.Interpreter()
    if check_state and state_digest() != start:
        raise Violation("generator", "building an interpreter changes the random generator")
    log = []
    marked = None
    # bounds read distributions and set values, so analyses before them are not unrelated
    bounded = {op["w"] for op in scenario["ops"] if op["op"] == "bound"}
    for op in scenario["ops"]:
        kind = op["op"]
        if stats:
            stats.step()
        if kind == "roll":
            outcome, raw = driver.attempt(users[op["w"]], "roll", driver.texts(op["lines"]))
            log.append([outcome, sorted(driver.canonical("roll", raw).items()) if outcome == "ok" else type(raw).__name__, state_digest()])
            if stats:
                stats.event("roll", log[-1])
                stats.state(log[-1][2])
            continue
        if kind == "mark":
            marked = random.getstate()
            continue
        if kind == "rewind":
            if marked is not None:
                random.setstate(marked)
                if stats:
                    stats.fault("generator rewound")
            continue
        if kind in ("new", "stranger", "heavy") and not unrelated:
            continue
        if kind == "analysis" and not unrelated and op["w"] not in bounded:
            continue
        before = state_digest()
        if kind == "new":
            if op["parser"]:
                engine.Parser()
            else:
                engine.Interpreter()
        elif kind == "heavy":
            driver.attempt(stranger, op["mode"], [op["text"]])
        elif kind == "stranger":
            driver.attempt(stranger, op["mode"], driver.texts(op["lines"]))
        else:
            driver.attempt(users[op["w"]], op["mode"], driver.texts(op["lines"]))
        if check_state and state_digest() != before:
            raise Violation("generator", "%s of %s changes the random generator" % (op.get("mode", "construction"), driver.show(op.get("text") or driver.texts(op.get("lines", [])))))
    if fingerprint() != before_all:
        raise Violation("generator", "the random module's functions were replaced")
    return log


def run(engine, scenario, stats):
    full = play(engine, scenario, True, True, stats)
    bare = play(engine, scenario, False, False)
    compare(full, bare, "leaving out unrelated calls")
    again = play(engine, scenario, True, False)
    compare(full, again, "doing it again in the same process")
    if scenario["helper"]:
        env = dict(os.environ, PYTHONHASHSEED=str(scenario["hashseed"]), PYDICE_DRAWING="0")
        root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        done = subprocess.run([sys.executable] + (["--jit", "off"] if hasattr(sys, "pypy_version_info") else []) + ["-m", "sim.helper"], input=json.dumps({"prop": "C03", "scenario": scenario}), cwd=root, env=env, stdout=subprocess.PIPE, text=True, timeout=300)
        answer = json.loads(done.stdout)
        if "violation" in answer:
            raise Violation(answer["violation"][0], answer["violation"][1])
        compare(full, answer["log"], "running in a new process with another hash seed")
        stats.fault("new process, other hash seed")


def compare(one, other, how):
    one = json.loads(json.dumps(one))
    other = json.loads(json.dumps(other))
    if one != other:
        for index, (left, right) in enumerate(zip(one, other)):
            if left != right:
                raise Violation("seed", "roll %d gives %s, but %s gives %s with the same generator" % (index, driver.show(left[:2]), how, driver.show(right[:2])))
        raise Violation("seed", "%s changes the number of rolls" % how)


def helper(engine, scenario):
    ops = [dict(op, mode="dist") if op.get("mode", "").startswith("hist") else op for op in scenario["ops"]]
    return {"log": play(engine, dict(scenario, ops=ops), True, False)}
