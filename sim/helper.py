"""A fresh process that plays a scenario and prints what it saw."""
import importlib
import json
import os
import random
import sys

sys.setrecursionlimit(5000)


def main():
    from . import boot, rngseam, session

    request = json.loads(sys.stdin.read())
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    rngseam.install()
    rngseam.fair("start")
    before = random.getstate()
    engine = boot.boot(False)
    try:
        if random.getstate() != before:
            raise session.Violation("generator", "importing python_dice changes the random generator")
        answer = importlib.import_module("sim.props." + request["prop"].lower()).helper(engine, request["scenario"])
    except session.Violation as violation:
        answer = {"violation": [violation.kind, violation.text]}
    out.write(json.dumps(answer))
    out.close()
    boot.cleanup()


if __name__ == "__main__":
    main()
