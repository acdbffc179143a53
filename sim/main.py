"""check <property> | replay <file> | setup | determinism <property>

Decides one property by many seeded simulated runs of the code in /repo.
"""
import concurrent.futures
import hashlib
import importlib
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PYPY = "/opt/venv/bin/python"
CPYTHON = "/usr/bin/python3"
REPLAYS = os.path.join(ROOT, "replays")
SHRINK_SECONDS = 90
GIVE_UP = 2  # runs that may end without a verdict because they took too long


class Server:
    """A worker process."""

    def __init__(self, platform, hashseed, drawing):
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED=str(hashseed), PYDICE_DRAWING="1" if drawing else "0", PYTHONDONTWRITEBYTECODE="1",
            MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        )
        self.scratch = tempfile.mkdtemp(prefix="pydice-") if drawing else None
        env.pop("PYDICE_SCRATCH", None)
        if drawing:
            env["PYDICE_SCRATCH"] = os.path.join(self.scratch, "mpl")
            os.mkdir(env["PYDICE_SCRATCH"])
        env.pop("PYTHONPATH", None)
        env.pop("PYTHONPYCACHEPREFIX", None)
        self.process = subprocess.Popen(
            # the compiler of PyPy drops or repeats a trace event now and then: off, so that a step is a step
            ([PYPY, "--jit", "off"] if platform == "pypy" else [CPYTHON]) + ["-m", "sim.worker"], cwd=ROOT, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get("PYDICE_DEBUG") else None,
            text=True, start_new_session=True,
        )
        first = self.process.stdout.readline()
        self.boot = json.loads(first) if first else {"boot": "failed", "text": "worker died"}

    def send(self, request):
        try:
            self.process.stdin.write(json.dumps(request) + "\n")
            self.process.stdin.flush()
        except OSError:
            pass  # killed: reading its answer says so

    def read(self):
        line = self.process.stdout.readline()
        return json.loads(line) if line else {"status": "error", "kind": "worker died", "text": "worker died", "dead": True}

    def run(self, prop, scenario):
        self.send({"run": {"prop": prop, "scenario": scenario}})
        return self.read()

    def kill(self):
        """The worker and the run it has forked."""
        try:
            os.killpg(self.process.pid, signal.SIGKILL)
        except OSError:
            pass

    def close(self, kill=False):
        try:
            if kill:
                self.kill()
            self.process.stdin.close()
        except OSError:
            pass
        try:
            self.process.wait(20)
        except subprocess.TimeoutExpired:
            self.kill()
            self.process.wait()
        if self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)


def load(prop_id):
    return importlib.import_module("sim.props." + prop_id.lower())


def derive(*parts):
    return int(hashlib.sha256(":".join(str(p) for p in parts).encode()).hexdigest()[:8], 16)


def cpython_usable():
    server = Server("cpython", 0, False)
    good = server.boot.get("boot") == "ok"
    text = server.boot.get("text")
    server.close()
    return good, text


def plan(prop, prop_id, tier, seed, allow_cpython):
    """-> list of jobs; the same whatever the number of workers"""
    runs = prop.RUNS[tier]
    scale = float(os.environ.get("PYDICE_SCALE", "1"))
    runs = max(8, int(runs * scale))
    share = getattr(prop, "PYPY_SHARE", 0.1) if allow_cpython else 1.0
    if not allow_cpython:
        runs = max(8, int(runs * getattr(prop, "PYPY_ONLY_SCALE", 0.25)))
    pypy = int(round(runs * share))
    jobs = []
    for platform, first, count, size in (("pypy", 0, pypy, getattr(prop, "PYPY_JOB", 12)), ("cpython", pypy, runs - pypy, getattr(prop, "CPYTHON_JOB", 40))):
        index = first
        while index < first + count:
            indices = list(range(index, min(index + size, first + count)))
            jobs.append({
                "platform": platform, "indices": indices, "drawing": platform == "pypy" and getattr(prop, "DRAWING", True),
                "hashseed": derive(seed, prop_id, "hash", index) % 4294967295,
            })
            index += size
    return jobs


def check(prop_id):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = load(prop_id)
    began = time.monotonic()
    print("property=%s tier=%s seed=%d" % (prop_id, tier, seed), flush=True)
    usable, why = cpython_usable()
    if not usable:
        print("note: the code does not load with drawing stubbed out (%s); everything runs on PyPy" % why, flush=True)
    known_lines, bad_known = known_findings(prop_id, usable)
    for line in known_lines:
        print(line, flush=True)
    jobs = plan(prop, prop_id, tier, seed, usable)
    workers = int(os.environ.get("PYDICE_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    todo = queue.Queue()
    for job in jobs:
        todo.put(job)
    found = []
    errors = []
    given_up = []
    servers = []
    results = []
    guard = threading.Lock()
    stop = threading.Event()
    deadline = began + (float(os.environ.get("PYDICE_DEADLINE", "0")) or (500 if tier == "quick" else 36000))
    unfinished = [0]

    def work():
        while not stop.is_set():
            try:
                job = todo.get_nowait()
            except queue.Empty:
                return
            if time.monotonic() > deadline:
                with guard:
                    unfinished[0] += len(job["indices"])
                continue
            late = False
            server = Server(job["platform"], job["hashseed"], job["drawing"])
            with guard:
                servers.append(server)
            try:
                if server.boot.get("boot") != "ok":
                    with guard:
                        errors.append({"status": "error", "kind": "boot", "text": server.boot.get("text"), "trace": server.boot.get("trace")})
                    stop.set()
                    return
                server.send({"job": {"prop": prop_id, "tier": tier, "seed": seed, "indices": job["indices"]}})
                while not stop.is_set():
                    result = server.read()
                    if "done" in result or stop.is_set():
                        break
                    result["platform"] = job["platform"]
                    result["hashseed"] = job["hashseed"]
                    result["drawing"] = job["drawing"]
                    with guard:
                        results.append(result)
                        if result["status"] == "violation":
                            found.append(result)
                            stop.set()
                            for other in servers:
                                if other.process.poll() is None:
                                    other.kill()
                        elif result["status"] == "error":
                            if result.get("kind") == "timeout" and len(given_up) < GIVE_UP:
                                # no verdict about this run; the others still count
                                given_up.append(result)
                                continue
                            errors.append(result)
                            if len(errors) > 5:
                                stop.set()
                    if result.get("dead"):
                        break
                    if time.monotonic() > deadline and result.get("index") != job["indices"][-1]:
                        late = True
                        with guard:
                            unfinished[0] += len(job["indices"]) - 1 - job["indices"].index(result["index"])
                        break
            finally:
                server.close(kill=late or stop.is_set())

    threads = [threading.Thread(target=work) for _ in range(workers)]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()

    for result in given_up:
        print("note: run %s (%s) was given up: %s" % (result.get("index"), result.get("platform"), result.get("text")), flush=True)
    code = 0
    if found:
        found.sort(key=lambda r: (r["index"]))
        path, final = report(prop_id, found[0], seed)
        print("violated: %s: %s" % (final["kind"], final["text"]), flush=True)
        print("seed=%d run=%d platform=%s hashseed=%s" % (seed, found[0]["index"], found[0]["platform"], found[0]["hashseed"]))
        print("VIOLATION property=%s replay=%s" % (prop_id, path), flush=True)
        code = 1
    elif bad_known:
        for text in bad_known:
            print(text, flush=True)
        code = 2
    elif errors:
        for error in errors[:3]:
            print("harness error in run %s (%s): %s: %s\n%s" % (error.get("index"), error.get("platform"), error.get("kind"), error.get("text"), error.get("trace", "")), flush=True)
        code = 2
    elif not any(r["status"] == "ok" for r in results):
        print("harness error: no run was completed", flush=True)
        code = 2
    evidence(prop, prop_id, tier, seed, results, jobs, time.monotonic() - began, len(found), unfinished[0], known_lines)
    ran = sum(1 for r in results if r["status"] == "ok")
    print("%s: %d runs, %d skipped, %.0f s, exit %d" % (prop_id, ran, sum(1 for r in results if r["status"] == "skip"), time.monotonic() - began, code), flush=True)
    return code


# ---------------------------------------------------------------- known findings
def known_findings(prop_id, usable):
    path = os.path.join(ROOT, "known_findings.json")
    lines, bad = [], []
    if not os.path.exists(path):
        return lines, bad
    with open(path) as handle:
        entries = json.load(handle)["findings"]
    entries = [e for e in entries if e.get("property") == prop_id and e.get("status") == "known"]
    if not entries:
        return lines, bad
    drawing = any(e["history"]["kind"].endswith("histogram") for e in entries)
    server = Server("cpython" if usable and not drawing else "pypy", 0, drawing)
    for entry in entries:
        result = server.run("known", dict(entry["history"], property=prop_id))
        if result["status"] == "violation":
            lines.append("KNOWN-FINDING: property=%s %s" % (prop_id, entry["what"]))
        elif result["status"] == "ok":
            print("note: a listed finding no longer fails: %s" % entry["what"], flush=True)
        else:
            bad.append("harness error on a known finding: %r" % result)
    server.close()
    return lines, bad


# ---------------------------------------------------------------- reporting
def report(prop_id, result, seed):
    """Minimise, write the replay file, confirm it in a fresh process. -> (path, final result)"""
    from . import shrink

    def fresh():
        return Server(result["platform"], result["hashseed"], result["drawing"])

    scenario = result["scenario"]
    final = result
    server = fresh()
    box = [server]

    def fails(candidate):
        outcome = box[0].run(prop_id, candidate)
        if outcome.get("dead"):
            box[0].close(kill=True)
            box[0] = fresh()
            return None
        if outcome["status"] == "violation" and outcome["kind"] == result["kind"]:
            return outcome
        return None

    again = fails(scenario)
    reproduced = again is not None
    if reproduced:
        scenario, final = shrink.minimise(scenario, again, fails, SHRINK_SECONDS)
    box[0].close()
    check_server = fresh()
    confirm = check_server.run(prop_id, scenario)
    check_server.close()
    same = confirm.get("status") == "violation" and confirm.get("kind") == final["kind"] and confirm.get("text") == final["text"] and confirm.get("digest") == final.get("digest")
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-seed%d-run%d.json" % (prop_id, seed, result["index"]))
    with open(path, "w") as handle:
        json.dump({
            "property": prop_id, "seed": seed, "run": result["index"], "platform": result["platform"], "hashseed": result["hashseed"],
            "drawing": result["drawing"], "kind": final["kind"], "text": final["text"], "digest": final.get("digest"),
            "replays_exactly": same, "scenario": scenario,
        }, handle, indent=1)
        handle.write("\n")
    return path, final


def replay(path):
    with open(path) as handle:
        saved = json.load(handle)
    server = Server(saved["platform"], saved["hashseed"], saved["drawing"])
    result = server.run(saved["property"], saved["scenario"])
    server.close()
    print("recorded: %s: %s" % (saved["kind"], saved["text"]))
    if result["status"] == "violation":
        print("replayed: %s: %s" % (result["kind"], result["text"]))
        exact = result["text"] == saved["text"] and result.get("digest") == saved.get("digest")
        print("exactly as recorded" if exact else "DIFFERS from the record")
        print("VIOLATION property=%s replay=%s" % (saved["property"], path))
        return 1
    print("replayed: %s %s" % (result["status"], result.get("text", "")))
    return 0 if result["status"] == "ok" else 2


def evidence(prop, prop_id, tier, seed, results, jobs, wall, violations, unfinished, known_lines):
    faults, counts = {}, {}
    digests, states, interleavings = set(), set(), set()
    steps = calls = 0
    platforms = {}
    ran = 0
    for r in results:
        if r["status"] not in ("ok", "violation"):
            continue
        ran += 1
        platforms[r["platform"]] = platforms.get(r["platform"], 0) + 1
        steps += r.get("steps", 0)
        calls += r.get("calls", 0)
        for key, value in r.get("faults", {}).items():
            faults[key] = faults.get(key, 0) + value
        for key, value in r.get("counts", {}).items():
            counts[key] = counts.get(key, 0) + value
        if r.get("calls", 0) >= 2:
            digests.add(r.get("digest"))
        states.update(r.get("states", []))
        if r.get("interleaving"):
            interleavings.add(r["interleaving"])
    samples = [r["scenario"] for r in sorted(results, key=lambda r: r.get("index", 0)) if r.get("scenario")][:2]
    cut = []
    for sample in samples:
        text = json.dumps(sample)
        cut.append(sample if len(text) < 6000 else {"cut": text[:6000]})
    coverage = {
        "evaluations": ran,
        "distinct_nontrivial": len(digests),
        "rule": "one evaluation is one simulated run of a generated scenario; runs are distinct if their recorded histories (calls and answers) differ, non-trivial if at least two calls were made. " + prop.RULE,
        "samples": cut,
        "given_up_for_time": sum(1 for r in results if r.get("kind") == "timeout"),
        "skipped_as_too_big": sum(1 for r in results if r["status"] == "skip"),
        "not_started_before_deadline": unfinished,
        "runs_per_hour": int(ran / max(wall, 0.001) * 3600),
        "seeds_per_hour": int(ran / max(wall, 0.001) * 3600),
        "simulated_time_steps": steps,
        "simulated_time_unit": prop.TIME,
        "calls": calls,
        "faults_injected": faults,
        "probes": counts,
        "distinct_states": len(states),
        "distinct_states_measure": prop.STATES,
        "distinct_interleavings": len(interleavings),
        "distinct_interleavings_measure": "hash of the recorded switch list together with the place of every switch",
        "platforms": platforms,
        "most_steps_in_a_run": max([r.get("steps", 0) for r in results] or [0]),
        "longest_run_s": max([r.get("wall", 0) for r in results] or [0]),
        "hash_seeds": len({j["hashseed"] for j in jobs}),
        "components_real": prop.REAL,
        "components_stub": prop.STUB,
        "known_findings": known_lines,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop_id + ".json"), "w") as handle:
        json.dump({
            "property": prop_id, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
            "assumptions": prop.ASSUMES, "wall_s": round(wall, 2), "violations": violations,
        }, handle, indent=1)
        handle.write("\n")


def determinism(prop_id, count):
    """Run `count` scenarios in several processes; the event logs must be the same."""
    prop = load(prop_id)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    usable, _ = cpython_usable()
    bad = 0
    total = 0
    share = getattr(prop, "PYPY_SHARE", 0.1)
    for platform in ("cpython", "pypy"):
        if (platform == "cpython" and (share >= 1 or not usable)) or (platform == "pypy" and share <= 0):
            continue
        number = count if platform == "cpython" else max(4, count // 4)
        logs = []

        def collect(args):
            hashseed, part, parts = args
            server = Server(platform, hashseed, platform == "pypy" and getattr(prop, "DRAWING", True))
            server.send({"job": {"prop": prop_id, "tier": "quick", "seed": seed, "indices": list(range(part, number, parts))}})
            out = {}
            while True:
                r = server.read()
                if "done" in r or r.get("dead"):
                    break
                out[r["index"]] = (r["status"], r.get("digest"), r.get("interleaving"), r.get("steps"), r.get("text"))
            server.close()
            return out

        for label, args in (
            ("one process", [(7, 0, 1)]), ("eight processes", [(7, i, 8) for i in range(8)]), ("another hash seed", [(99, i, 8) for i in range(8)]),
        ):
            with concurrent.futures.ThreadPoolExecutor(8) as pool:
                merged = {}
                for part in pool.map(collect, args):
                    merged.update(part)
            logs.append((label, merged))
        for index in range(number):
            total += 1
            entries = [log.get(index) for _, log in logs]
            if len(set(entries)) != 1:
                bad += 1
                print(platform, index, entries)
    print("%s: %d scenarios, %d differ" % (prop_id, total, bad))
    return 1 if bad else 0


def main(argv):
    sys.path.insert(0, ROOT)
    if argv[0] == "check":
        return check(argv[1])
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "determinism":
        return determinism(argv[1], int(argv[2]) if len(argv) > 2 else 40)
    if argv[0] == "setup":
        for platform, drawing in (("cpython", False), ("pypy", True)):
            server = Server(platform, 0, drawing)
            print(platform, server.boot)
            server.close()
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
