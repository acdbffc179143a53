"""C09: charts are right and leave the caller's plotting and memory alone."""
import gc
import random
import sys
import types
import weakref

from .. import charts, driver, gen, gensession, model, rngseam, sched, seams, session, threads
from ..session import Violation

ID = "C09"
RUNS = {"quick": 300, "thorough": 6000}
PYPY_SHARE = 1.0
PYPY_JOB = 6
OWN_TRACING = True
RULE = "Scenario: 2 to 9 operations: the seven kinds of chart for generated programs and distributions, plots and settings of the caller through pyplot, drawing steps that fail, interruptions, dropped images, and charts drawn by two threads at once; every image is compared with one the harness draws itself from the model's numbers, the caller's figures, current figure, settings and back end must be untouched after each operation, and figures, images and large buffers must be gone once dropped."
TIME = "operations, or traced steps when threads draw"
STATES = "(operation, what happened before it)"
REAL = ["interpreter", "parser", "lexer", "expressions", "distributions", "constraints", "variable state", "rply", "matplotlib (Agg)", "PIL", "real threads, one running at a time"]
STUB = ["the choice of which thread runs (the simulator's)", "the failing drawing step"]
ASSUMES = [
    "the reference model in sim/model.py states the language correctly",
    "the look of a chart is the one the repository's own image tests fix; if the tree draws those differently, charts are not judged by their pixels",
    "known finding K3: bars of values both distributions have are drawn twice as high in a compare histogram",
]

CHARTS = ["hist", "hist_least", "hist_most"]
COMPARES = ["compare_histogram", "compare", "compare_at_least", "compare_at_most"]
SETTINGS = [
    ["axes.grid", True], ["figure.dpi", 60.0], ["figure.figsize", [4.0, 3.0]], ["lines.linewidth", 5.0], ["font.size", 14.0],
    ["axes.facecolor", "yellow"], ["savefig.dpi", 50.0], ["figure.facecolor", "green"],
    ["back end", "svg"], ["back end", "pdf"], ["back end", "agg"], ["interactive", True], ["pixels", 5_000_000], ["pixels", 200_000_000], ["truncated", True],
]
BREAKS = ["Axes.hist", "Axes.plot", "Axes.grid", "Axes.legend", "Figure.savefig", "print_figure", "Image.open"]
METHODS = {"hist": "get_histogram", "hist_least": "get_at_least_histogram", "hist_most": "get_at_most_histogram"}


def generate(seed, tier, platform, drawing):
    if not drawing:
        return None
    rng = random.Random("C09:%s" % seed)
    profile = gen.Profile(rng, p_unknown=rng.choice([0.0, 0.02]), p_bad=rng.choice([0.0, 0.03]))
    profile.max_sides = min(profile.max_sides, 6)
    sg = gensession.SessionGen(rng, profile, dist_budget=600, worlds_budget=2000)
    scenario = {"ops": [], "rngseed": rng.randrange(1 << 30)}
    for _ in range(rng.randint(2, 9)):
        roll = rng.random()
        if roll < 0.5:
            mode = rng.choice(CHARTS)
            op = {"op": "chart", "mode": mode, "lines": sg.call(mode, rng.choice([1, 1, 2])), "keep": rng.random() < 0.4}
            trouble(rng, op)
            scenario["ops"].append(op)
        elif roll < 0.66:
            op = {"op": "compare", "one": [sg_line(rng, profile)], "two": [sg_line(rng, profile)], "charts": []}
            for _ in range(rng.choice([1, 1, 2, 3])):
                how = rng.choice(COMPARES + COMPARES + CHARTS)
                part = {"how": how, "swap": rng.random() < 0.3, "names": rng.choice([None, None, ["one", "two"], ["two", "one"]]), "keep": rng.random() < 0.4}
                trouble(rng, part)
                op["charts"].append(part)
            scenario["ops"].append(op)
        elif roll < 0.74:
            scenario["ops"].append({"op": "plot", "values": [rng.randint(0, 9) for _ in range(rng.randint(1, 5))], "how": rng.choice(["plot", "hist", "bar", "subplots", "title", "empty"]), "new": rng.random() < 0.6})
        elif roll < 0.79:
            scenario["ops"].append({"op": "setting", "which": rng.choice(SETTINGS)})
        elif roll < 0.83:
            scenario["ops"].append({"op": "close", "all": rng.random() < 0.4})
        elif roll < 0.88:
            scenario["ops"].append({"op": "select", "which": rng.randrange(10)})
        elif roll < 0.94:
            scenario["ops"].append({"op": "drop"})
        else:
            mode = rng.choice(gensession.MODES)
            scenario["ops"].append({"op": "call", "mode": mode, "lines": sg.call(mode, 1)})
    if rng.random() < 0.35:
        scenario["ops"] = scenario["ops"][:3]
        scenario["threads"] = [
            [{"mode": rng.choice(CHARTS + COMPARES[1:]), "lines": [sg_line(rng, profile)], "other": [sg_line(rng, profile)]} for _ in range(rng.choice([1, 1, 2]))] for _ in range(2)
        ]
        # analysed beforehand, so that nearly every step of the threads is a drawing step
        scenario["direct"] = rng.random() < 0.6
        scenario["policy"] = sched.policy_from_seed(rng.randrange(1 << 30), 2)
        scenario["policy"]["opcodes"] = False
        if scenario["policy"]["kind"] == "few":
            scenario["policy"]["points"] = sorted(rng.randrange(1, 80 if scenario["direct"] else 400) for _ in range(3))
    return scenario


def trouble(rng, op):
    roll = rng.random()
    if roll < 0.22:
        op["break"] = {"where": rng.choice(BREAKS), "call": rng.choice([1, 1, 1, 2]), "when": rng.choice(["before", "after"]), "exc": rng.choice(sorted(seams.EXCEPTIONS))}
    elif roll < 0.36:
        op["interrupt"] = int(10 ** rng.uniform(0.5, 3.2))
    elif roll < 0.5:
        op["interrupt_drawing"] = rng.randrange(20)


def sg_line(rng, profile):
    sg = gensession.SessionGen(rng, profile, dist_budget=600, worlds_budget=2000)
    for _ in range(40):
        line = sg.call("hist", 1)[0]
        if line[0] == "e" and not model.names_in(line[1]):
            try:
                kind, want = model.run_op(model.State(), "hist", [line], model.Budget(2000))
            except model.TooBig:
                continue
            if kind == "ok":
                return line
    return ["e", ["dice", "2", "4", None], 0]


class Desk:
    """The caller's own plotting, as it should be."""

    def __init__(self, engine):
        self.engine = engine
        self.figures = {}
        self.note()

    def look(self):
        from matplotlib._pylab_helpers import Gcf

        active = Gcf.get_active()
        figures = {}
        for number in self.engine.pyplot.get_fignums():
            figure = Gcf.figs[number].canvas.figure
            figures[number] = (id(figure), portrait(figure))
        return {
            "figures": figures, "current figure": active.num if active else None, "settings": dict(self.engine.matplotlib.rcParams),
            "back end": self.engine.matplotlib.get_backend().lower(), "interactive": self.engine.matplotlib.is_interactive(),
            "largest image allowed": self.engine.PILImage.MAX_IMAGE_PIXELS, "reading of truncated images": image_file().LOAD_TRUNCATED_IMAGES,
        }

    def note(self):
        self.before = self.look()

    def check(self, what):
        now = self.look()
        for key in sorted(now):
            if now[key] != self.before[key]:
                if key == "settings":
                    changed = sorted(k for k in set(now[key]) | set(self.before[key]) if now[key].get(k) != self.before[key].get(k))
                    text = "the settings %s" % changed[:5]
                else:
                    text = "the caller's %s: %s instead of %s" % (key, brief(now[key]), brief(self.before[key]))
                raise Violation("caller", "%s changed %s" % (what, text))


def image_file():
    from PIL import ImageFile

    return ImageFile


def brief(value):
    if isinstance(value, dict):
        return driver.show({number: entry[1] for number, entry in value.items()})
    return repr(value)


def portrait(figure):
    axes = []
    for axis in figure.axes:
        axes.append((
            axis.get_title(), axis.get_xlabel(), axis.get_ylabel(), len(axis.patches),
            tuple((tuple(float(x) for x in line.get_xdata()), tuple(float(y) for y in line.get_ydata())) for line in axis.lines),
        ))
    current = figure.axes.index(figure.gca()) if figure.axes else None
    return (tuple(axes), current, float(figure.dpi), tuple(float(x) for x in figure.get_size_inches()))


class Watch:
    """Every figure made inside the code under test, weakly."""

    def __init__(self, engine):
        self.made = []
        self.inside = False
        watch = self
        figure_class = engine.matplotlib.figure.Figure
        self.figure_class, self.original = figure_class, figure_class.__init__

        def init(figure, *args, **kwargs):
            if watch.inside:
                watch.made.append(weakref.ref(figure))
            return watch.original(figure, *args, **kwargs)

        figure_class.__init__ = init

    def restore(self):
        self.figure_class.__init__ = self.original


class Broken:
    """Drawing steps that fail on command."""

    def __init__(self, engine):
        import matplotlib.axes
        import matplotlib.backend_bases
        import matplotlib.figure

        self.faults = None
        self.hook = None
        self.saved = []
        for name, owner, attribute in (
            ("Axes.hist", matplotlib.axes.Axes, "hist"), ("Axes.plot", matplotlib.axes.Axes, "plot"), ("Axes.grid", matplotlib.axes.Axes, "grid"),
            ("Axes.legend", matplotlib.axes.Axes, "legend"),
            ("Figure.savefig", matplotlib.figure.Figure, "savefig"), ("print_figure", matplotlib.backend_bases.FigureCanvasBase, "print_figure"),
            ("Image.open", engine.PILImage, "open"),
        ):
            self.put(name, owner, attribute)

    def put(self, name, owner, attribute):
        original = getattr(owner, attribute)
        self.saved.append((owner, attribute, original))

        def step(*args, **kwargs):
            if self.faults is None:
                return original(*args, **kwargs)
            return self.faults.around(name, original, *args, **kwargs)

        setattr(owner, attribute, step)

    def restore(self):
        for owner, attribute, original in self.saved:
            setattr(owner, attribute, original)


def run(engine, scenario, stats):
    rngseam.fair(scenario["rngseed"])
    engine.pyplot.close("all")
    watch, broken = Watch(engine), Broken(engine)
    try:
        work(engine, scenario, stats, watch, broken)
    finally:
        broken.restore()
        watch.restore()


def work(engine, scenario, stats, watch, broken):
    pyplot = engine.pyplot
    user, tracker, desk = engine.Interpreter(), session.Tracker(), Desk(engine)
    kept, images = [], []
    before = "start"
    for op in scenario["ops"]:
        stats.step()
        what = op["op"]
        stats.state((what, op.get("mode"), op.get("how"), before))
        before = what
        if what == "chart":
            before = chart(engine, op, user, tracker, stats, watch, broken, kept, images) or what
            desk.check("drawing the %s of %s" % (op["mode"], driver.show(driver.texts(op["lines"]))))
        elif what == "compare":
            before = compare(engine, op, stats, watch, broken, kept, images, desk) or what
        elif what == "call":
            watch.inside = True
            session.step(tracker, user, op["mode"], op["lines"])
            watch.inside = False
            desk.check("the %s of %s" % (op["mode"], driver.show(driver.texts(op["lines"]))))
        elif what == "plot":
            plot(pyplot, op)
            desk.note()
            stats.fault("plot of the caller")
        elif what == "setting":
            name, value = op["which"]
            if name == "back end":
                engine.matplotlib.use(value)
            elif name == "interactive":
                engine.matplotlib.interactive(value)
            elif name == "pixels":
                engine.PILImage.MAX_IMAGE_PIXELS = value
            elif name == "truncated":
                image_file().LOAD_TRUNCATED_IMAGES = value
            else:
                engine.matplotlib.rcParams[name] = value
            desk.note()
            stats.fault("setting of the caller")
        elif what == "close":
            pyplot.close("all" if op["all"] else None)
            desk.note()
            stats.fault("caller closes figures")
        elif what == "select":
            numbers = pyplot.get_fignums()
            if numbers:
                pyplot.figure(numbers[op["which"] % len(numbers)])
                desk.note()
        elif what == "drop":
            check_kept(engine, kept)
            del kept[:]
            gone(engine, watch, images, [user])
            stats.count("looks for leaks")
    if scenario.get("threads"):
        together(engine, scenario, stats, watch, kept, images)
        desk.check("drawing in two threads")
    check_kept(engine, kept)
    del kept[:]
    gone(engine, watch, images, [user])
    stats.count("looks for leaks")
    session.look(tracker, user)


def wanted(tracker, lines):
    """-> [distribution the chart has to show] for the possible states, or [] if the call must fail"""
    out = []
    for state in tracker.states:
        kind, want = model.run_op(state.copy(), "hist", lines, model.Budget(session.DIST))
        if kind == "ok" and want["stdout"] not in out:
            out.append(want["stdout"])
    return out


def chart(engine, op, user, tracker, stats, watch, broken, kept, images):
    if not tracker.affordable(op["mode"], op["lines"]):
        return None
    program = driver.texts(op["lines"])
    label = "%s of %s" % (op["mode"], driver.show(program))
    expected = wanted(tracker, op["lines"])
    image, error, fired = attempt(engine, op, watch, broken, lambda: driver.call(user, op["mode"], program))
    if fired:
        stats.fault(fired)
    if error is not None:
        if fired:
            tracker.broken(op["mode"], op["lines"])
        else:
            problem = tracker.answer(op["mode"], op["lines"], "err", error)
            if problem:
                raise Violation("chart", "%s: %s" % (label, problem))
        stats.event(op["mode"], error)
        return fired
    problem = tracker.answer(op["mode"], op["lines"], "ok", None)
    if problem:
        raise Violation("chart", "%s: %s" % (label, problem))
    references = [charts.histogram(engine, op["mode"], dist) for dist in expected]
    accept(engine, image, references, label, stats, kept if op["keep"] else None, images)
    return fired


def attempt(engine, op, watch, broken, action):
    """-> (image or None, name of the error or None, the fault that happened or None)"""
    injector = None
    image, error, fired = None, None, None
    watch.inside = True
    try:
        if "break" in op:
            broken.faults = seams.Faults([op["break"]])
        if "interrupt_drawing" in op:
            injector = sched.Injector(engine, None, lambda: KeyboardInterrupt("simulated"), with_rply=False)
            aim(injector, op["interrupt_drawing"], watch)
        elif "interrupt" in op:
            injector = sched.Injector(engine, op["interrupt"], lambda: KeyboardInterrupt("simulated"), with_rply=False)
        if injector is not None:
            with injector:
                image = action()
        else:
            image = action()
    except (Exception, KeyboardInterrupt) as caught:
        error = type(caught).__name__
    finally:
        watch.inside = False
    if broken.faults is not None:
        hits = broken.faults.take()
        broken.faults = None
        if hits:
            fired = "failing " + op["break"]["where"]
    if injector is not None and injector.fired:
        fired = "interruption of a chart"
    return image, error, fired


def aim(injector, number, watch):
    """Interrupt at the number-th step after a figure was made."""
    original = injector.local
    made, seen = len(watch.made), [0]

    def local(frame, event, arg):
        if injector.at is None and event != "exception" and len(watch.made) > made:
            seen[0] += 1
            if seen[0] > number:
                injector.at = 0
        original(frame, event, arg)
        return local

    injector.local = local


def compare(engine, op, stats, watch, broken, kept, images, desk):
    """Several charts of the same two distributions."""
    parts, laws, fired = [], [], None
    for lines in (op["one"], op["two"]):
        parts.append(driver.call(engine.Interpreter(), "dist", driver.texts(lines))["stdout"])
        laws.append(model.run_op(model.State(), "dist", lines, model.Budget(session.DIST))[1]["stdout"])
    for part in op["charts"]:
        order = (1, 0) if part["swap"] else (0, 1)
        if part["how"] == "compare_histogram" and not charts.tall(*laws):
            continue
        one, two = parts[order[0]], parts[order[1]]
        texts = [driver.show(driver.texts(op[("one", "two")[i]])) for i in order]
        label = "%s of %s" % (part["how"], texts[0]) if part["how"] in METHODS else "%s of %s and %s" % (part["how"], texts[0], texts[1])
        image, error, fired = attempt(engine, part, watch, broken, lambda: draw(part["how"], one, two, part["names"]))
        if fired:
            stats.fault(fired)
        desk.check("drawing the " + label)
        if error is not None:
            if not fired:
                raise Violation("chart", "the %s fails with %s" % (label, error))
            stats.event(part["how"], error)
            continue
        accept(engine, image, [picture(engine, part["how"], laws[order[0]], laws[order[1]], part["names"])], label, stats, kept if part["keep"] else None, images)
    return fired


def draw(how, one, two, names):
    if how in METHODS:
        return getattr(one, METHODS[how])()
    method = getattr(one, "get_" + how)
    if names and how != "compare_histogram":
        return method(two, *names)
    return method(two)


def picture(engine, how, one, two, names):
    if how in METHODS:
        return charts.histogram(engine, how, one)
    return charts.comparison(engine, how, one, two, names)


def accept(engine, image, references, label, stats, kept, images):
    images.append((weakref.ref(image), label))
    if kept is not None:
        # left unloaded: it must still be right later
        kept.append((image, references, label))
        stats.count("images loaded late")
    else:
        judge(engine, image, references, label)
    stats.count("charts judged")
    stats.event(label)


def judge(engine, image, references, label):
    problems = [reference.differs(image) for reference in references]
    if all(problems):
        if not same_style(engine):
            return
        raise Violation("chart", "the %s is not the chart of that distribution: %s" % (label, problems[0] if problems else "nothing to draw"))


def check_kept(engine, kept):
    for image, references, label in kept:
        judge(engine, image, references, label)


def same_style(engine):
    """Does a fresh process draw the repository's own test charts as the harness does?"""
    import os
    import subprocess

    code = (
        "import sys; sys.path.insert(0, %r)\n"
        "from sim import boot, charts, driver, rngseam\n"
        "engine = boot.boot(True)\n"
        "from fractions import Fraction as F\n"
        "law = {10 * v: F(1, 4) for v in range(1, 5)}\n"
        "bad = charts.histogram(engine, 'hist_most', law).differs(driver.call(engine.Interpreter(), 'hist_most', ['10 * 1d4']))\n"
        "make = lambda text: driver.call(engine.Interpreter(), 'dist', [text])['stdout']\n"
        "one, two = {1: F(2, 12), 2: F(3, 12), 3: F(6, 12), 4: F(1, 12)}, {1: F(1, 17), 2: F(3, 17), 3: F(6, 17), 4: F(7, 17)}\n"
        "got = make('d[1*2,2*3,3*6,4]').get_compare_at_least(make('d[1,2*3,3*6,4*7]'), 'option 1', 'option 2')\n"
        "bad = bad or charts.comparison(engine, 'compare_at_least', one, two, ['option 1', 'option 2']).differs(got)\n"
        "boot.cleanup()\n"
        "sys.exit(7 if bad else 0)\n"
    ) % os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    done = subprocess.run([sys.executable, "-c", code], env=dict(os.environ), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return done.returncode != 7


def plot(pyplot, op):
    if op["new"] or not pyplot.get_fignums():
        pyplot.figure()
    if op["how"] == "plot":
        pyplot.plot(op["values"])
    elif op["how"] == "hist":
        pyplot.hist(op["values"])
    elif op["how"] == "bar":
        pyplot.bar(range(len(op["values"])), op["values"])
    elif op["how"] == "subplots":
        _, axes = pyplot.subplots(1, 2)
        axes[0].plot(op["values"])
        pyplot.sca(axes[op["values"][0] % 2])
    elif op["how"] == "title":
        pyplot.title("mine")


def together(engine, scenario, stats, watch, kept, images):
    """Two threads, each with its own interpreter."""
    def law(lines):
        return model.run_op(model.State(), "hist", lines, model.Budget(session.DIST))[1]["stdout"]

    references = [[picture(engine, op["mode"], law(op["lines"]), law(op["other"]), None) for op in part] for part in scenario["threads"]]
    made = []
    ready = None
    if scenario.get("direct"):
        ready = [[[driver.call(engine.Interpreter(), "dist", driver.texts(lines))["stdout"] for lines in (op["lines"], op["other"])] for op in part] for part in scenario["threads"]]

    def body(index):
        def thread():
            user = engine.Interpreter()
            for number, op in enumerate(scenario["threads"][index]):
                if ready:
                    image = draw(op["mode"], ready[index][number][0], ready[index][number][1], None)
                elif op["mode"] in METHODS:
                    image = driver.call(user, op["mode"], driver.texts(op["lines"]))
                else:
                    one, two = (driver.call(user, "dist", driver.texts(lines))["stdout"] for lines in (op["lines"], op["other"]))
                    image = draw(op["mode"], one, two, None)
                label = "%s of %s, drawn while another thread draws" % (op["mode"], driver.show(driver.texts(op["lines"])))
                made.append((index, number, image, label))

        return thread

    watch.inside = True
    threads.simulate(engine, scenario, [body(0), body(1)], stats)
    watch.inside = False
    for index, number, image, label in sorted(made, key=lambda m: m[:2]):
        accept(engine, image, [references[index][number]], label, stats, kept, images)
    del made[:]


# ---------------------------------------------------------------- leaks
def gone(engine, watch, images, users):
    for _ in range(12):
        sweep()
        if not any(reference() is not None for reference, _ in images) and not any(reference() is not None for reference in watch.made):
            break
    # PyPy may keep the very last object a little longer: that one alone proves nothing, unless the code can be seen to hold it
    size, holds = payload(engine, users)
    if holds:
        raise Violation("leak", "a %s is still held after the images were dropped" % holds)
    held = [label for reference, label in images[:-1] if reference() is not None]
    if held:
        raise Violation("leak", "the image of the %s is still held after the caller dropped it" % held[0])
    del images[:]
    alive = sum(1 for reference in watch.made[:-1] if reference() is not None)
    if alive:
        raise Violation("leak", "%d figures are still held after their images were dropped" % alive)
    del watch.made[:]
    if size > 200_000:
        raise Violation("leak", "%d bytes of image data are still held after the images were dropped" % size)


def sweep():
    try:
        raise ValueError  # whatever the last exception held on to
    except ValueError:
        pass
    gc.collect()


def payload(engine, users):
    """-> (bytes of raw data reachable from the code under test, what figure or image is reachable or None)"""
    roots = [m for name, m in sorted(sys.modules.items()) if name.split(".")[0] == "python_dice" and m is not None]
    todo = [vars(m) for m in roots] + list(users)
    seen = {id(x) for x in todo}
    total = 0
    kinds = (engine.matplotlib.figure.Figure, engine.PILImage.Image)
    while todo:
        thing = todo.pop()
        if isinstance(thing, kinds):
            return total, type(thing).__name__
        if isinstance(thing, (bytes, bytearray)):
            total += len(thing)
            continue
        if hasattr(thing, "getbuffer") and type(thing).__name__ == "BytesIO":
            total += len(thing.getvalue())
            continue
        if isinstance(thing, types.ModuleType):
            continue
        if isinstance(thing, type) and not str(getattr(thing, "__module__", "")).startswith("python_dice"):
            continue
        if isinstance(thing, (types.FunctionType, types.CodeType)) and not filename(thing).startswith(engine.root):
            continue
        if isinstance(thing, (str, int, float)):
            continue
        for part in gc.get_referents(thing):
            if id(part) not in seen:
                seen.add(id(part))
                todo.append(part)
        if len(seen) > 400_000:
            break
    return total, None


def filename(thing):
    code = thing if isinstance(thing, types.CodeType) else thing.__code__
    return code.co_filename
