"""Writes /verif/MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": ("seeded hostile random streams (stuck, extreme, alternating, edge values) over generated programs; every roll checked against the set of plays a reference model allows and against what the single dice showed",
            "Exploration: a violation found is real and replays exactly; silence covers the sampled programs and streams only. Trusts sim/model.py."),
    "C02": ("many simulated rolls under a seeded fair generator with other calls in between; joint counts against the exact law by chi-square (second, larger sample before a verdict), the reported distribution against the same law",
            "Statistical exploration with a fixed seed: a wrong law off by a few percent in a generated program is seen; much smaller errors are not. The seed fixes the outcome, so the unchanged tree is always quiet."),
    "C03": ("the same seeded session replayed with and without unrelated calls, after generator rewinds and in new processes under other hash seeds; rolls and generator state compared",
            "Exploration over generated sessions, on CPython and PyPy."),
    "C04": ("results held across seeded later calls, failures, interruptions and changes by the caller, and re-read; sessions checked against the reference model",
            "Exploration over generated histories. Internal maps of distribution objects are not regarded as results."),
    "C05": ("failing lines and seeded faults in every injected component (lexer, parser, factories, variable state, random source); state after each failure against the reference model",
            "Exploration over generated programs and fault points. Trusts sim/model.py."),
    "C06": ("asynchronous exceptions raised at seeded steps of python_dice and rply code; variables read back and compared with the states the model allows; later calls under a step bound",
            "Exploration over interruption points at line and return granularity; not inside C code."),
    "C07": ("seeded thread schedules over several interpreters (shared parser, lexer or factories), one thread running at a time with switches at lines, returns and byte codes; each answer against the model of that interpreter alone",
            "Exploration of interleavings inside python_dice code; not inside rply, matplotlib or C code."),
    "C08": ("seeded thread schedules over one interpreter with own variables per thread; answers against the per-thread model and a history check of other threads' values",
            "Exploration of interleavings inside python_dice code; not inside rply or C code."),
    "C09": ("charts drawn among seeded plots and settings of the caller, failing drawing steps, interruptions and two threads; pixels against the harness's own drawing of the model's numbers, pyplot state and live objects after each step",
            "Exploration on PyPy with the real matplotlib and PIL. Pixel comparison with a small tolerance for rounding."),
    "C10": ("one seeded list of lines cut into calls in different ways, with restarts on surviving variables and unrelated calls in between; all answers against the reference model",
            "Exploration over generated histories. Trusts sim/model.py."),
    "C11": ("kept expressions evaluated at seeded moments, modes and orders, interrupted, failing and by two threads; each evaluation against the model and against a fresh reading from the same generator state",
            "Exploration over generated histories. Trusts sim/model.py."),
    "C19": ("a seeded block of calls, with failing, interrupted and unreadable ones, repeated on one lasting interpreter; executed steps, reachable objects and what is alive of dropped things compared between early and late repetitions, confirmed over thousands before a verdict",
            "Exploration over generated blocks. Growth below half an object per repetition is not seen; memory is measured on CPython."),
}
PURE = "A function of its input alone: no schedule, fault, time, I/O, randomness or history can influence it, so a simulator has nothing to decide; enumerating or sampling inputs would be another technique. "
NOT = {
    "C12": PURE + "Exercised indirectly: C01 and C02 roll against the reported law.",
    "C13": PURE + "Exercised indirectly: all sessions are checked against the model's operators.",
    "C14": PURE + "Exercised indirectly: bad lines are faults in C05, C08, C10 and C11.",
    "C15": PURE + "Exercised indirectly: C01 keeps rolls within the reported bounds.",
    "C16": PURE + "Exercised indirectly: C04 re-reads them and C09 draws them.",
    "C17": PURE + "Exercised indirectly: cost estimates are calls in every simulated session.",
    "C18": PURE + "Exercised indirectly: reused variables in C01, C02 and C10.",
}
json.dump(
    {
        "version": 1,
        "setup_cmd": "./check setup",
        "checks": [
            {
                "property": key, "quick_cmd": "./check " + key, "thorough_cmd": "VERIF_TIER=thorough ./check " + key,
                "evidence_file": "evidence/%s.json" % key, "technique": BASE + what, "level": "exploration", "level_note": note,
            }
            for key, (what, note) in sorted(CHECKS.items())
        ],
        "not_applicable": [{"property": key, "reason": reason} for key, reason in sorted(NOT.items())],
        "notes": "No hooks in /repo: the constructors of the code under test, sys.settrace/sys.monitoring and the random, lock and drawing modules are the seams. /repo has seven fix: commits, listed in known_findings.json.",
    },
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1,
)
