"""Common part of the properties that run several threads under the scheduler."""
import hashlib

from . import sched


def simulate(engine, scenario, bodies, stats, step_limit=20_000_000):
    """Run the bodies; raises the first failure in thread order."""
    sim = sched.Sim(engine, scenario["policy"], step_limit)
    errors = sim.run(bodies)
    stats.step(sim.steps)
    stats.count("thread switches", len(sim.switches) - 1)
    stats.fault("preemption", len(sim.switches) - 1)
    if sim.stalls:
        stats.fault("stalled thread", sim.stalls)
    stats.explicit = {"policy": {"kind": "list", "switches": sim.switches, "opcodes": scenario["policy"].get("opcodes", False)}}
    text = repr((sim.switches, sorted(sim.pairs)))
    stats.interleaving = hashlib.sha256(text.encode()).hexdigest()[:16]
    for pair in sim.pairs:
        stats.state(pair)
    if sim.failure is not None:
        raise sim.failure
    for error in errors:
        if error is not None:
            raise error
    return sim
