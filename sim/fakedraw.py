"""A stand-in for matplotlib and PIL that draws nothing and remembers what was drawn.

Every figure keeps a list of the calls made on it; saving a figure writes that list
to the given file, opening an image reads it back when it is first looked at (as PIL
does). Nothing here is part of the code under test, so threads never change over in it.
"""
import importlib.abc
import importlib.machinery
import json
import re
import sys
import types

MAGIC = b"PYDICE-CHART\n"
NUMBER = re.compile(r"[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?")


def _flatten(thing, numbers, strings, depth=0):
    if depth > 6:
        return
    if isinstance(thing, bool) or thing is None:
        strings.append(repr(thing))
    elif isinstance(thing, (int, float)):
        numbers.append(float(thing) if abs(thing) < 1e300 else 1e300)
    elif isinstance(thing, str):
        # floats get into labels
        numbers.extend(float(x) for x in NUMBER.findall(thing))
        strings.append(NUMBER.sub("#", thing))
    elif isinstance(thing, dict):
        for key, value in thing.items():
            _flatten(key, numbers, strings, depth + 1)
            _flatten(value, numbers, strings, depth + 1)
    elif isinstance(thing, (list, tuple, set, frozenset)) or hasattr(thing, "__next__") or isinstance(thing, (range, type({}.keys()), type({}.values()), type({}.items()))):
        for value in thing:
            _flatten(value, numbers, strings, depth + 1)


def _write(events, target, kwargs):
    data = json.dumps(events).encode()
    data = MAGIC + b"%012d" % len(data) + data
    if hasattr(target, "write"):
        target.write(data)
    else:
        with open(target, "wb") as handle:
            handle.write(data)


class Thing:
    """An object of the drawing library that belongs to a figure (or to none)."""

    def __init__(self, events=None, path="", many=1):
        self.__dict__["_events"] = events if events is not None else []
        self.__dict__["_path"] = path
        self.__dict__["_many"] = many

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Thing(self._events, name)

    def __setattr__(self, name, value):
        self._note("set " + name, (value,), {})

    def _note(self, name, args, kwargs):
        numbers, strings = [], []
        _flatten(args, numbers, strings)
        _flatten(kwargs, numbers, strings)
        # which height belongs to which value, whatever the order they come in
        rows = [list(a) for a in list(args) + list(kwargs.values()) if isinstance(a, (list, tuple)) and a and all(isinstance(v, (int, float)) for v in a)]
        for index, row in enumerate(rows):
            for other in rows[index + 1 :]:
                if len(other) == len(row):
                    numbers.append(sum(float(a) * float(b) for a, b in zip(row, other)))
                    numbers.append(sum(float(a) * float(a) * float(b) for a, b in zip(row, other)))
        self._events.append([name, sorted(numbers), sorted(strings)])

    def __call__(self, *args, **kwargs):
        name = self._path
        if name in ("savefig", "print_figure", "print_tif", "print_tiff", "print_png", "print_raw") and args:
            _write(self._events, args[0], kwargs)
            return None
        if name in ("clf", "cla", "clear"):
            del self._events[:]
            return None
        self._note(name, args, kwargs)
        return Thing(self._events, name, 3 if name == "hist" else 1)

    def __iter__(self):
        return iter([Thing(self._events, self._path) for _ in range(self._many)])

    def __getitem__(self, item):
        return Thing(self._events, self._path)

    def __setitem__(self, item, value):
        self._note("set item", (item, value), {})

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None


class Figure(Thing):
    def __init__(self, *args, **kwargs):
        Thing.__init__(self, [], "figure")
        if args or kwargs:
            self._note("figure", args, kwargs)


class Canvas(Thing):
    def __init__(self, figure):
        Thing.__init__(self, figure._events, "canvas")


class Pyplot(types.ModuleType):
    """The stateful interface: one current figure for the whole process."""

    def __init__(self, name):
        types.ModuleType.__init__(self, name)
        self.__path__ = []
        self.__dict__["_current"] = []

    def figure(self, *args, **kwargs):
        self._current.append(Figure(*args, **kwargs))
        return self._current[-1]

    def gcf(self):
        return self._current[-1] if self._current else self.figure()

    def subplots(self, *args, **kwargs):
        figure = self.figure(**kwargs)
        return figure, Thing(figure._events, "axes")

    def gca(self):
        return Thing(self.gcf()._events, "axes")

    def close(self, which=None):
        if which == "all":
            del self._current[:]
        elif isinstance(which, Figure):
            self._current[:] = [f for f in self._current if f is not which]
        elif self._current:
            self._current.pop()

    def switch_backend(self, *args):
        return None

    ioff = ion = use = switch_backend

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Thing(self.gcf()._events, name)


class UnidentifiedImageError(OSError):
    pass


class FakeImage:
    size = (640, 480)
    width, height = size
    mode = "RGBA"
    format = "TIFF"

    def __init__(self, source=None, start=0, events=None):
        self._source, self._start, self._events = source, start, events
        self.info = {}

    def load(self):
        if self._events is None:
            self._source.seek(self._start)
            data = self._source.read()
            if not data.startswith(MAGIC):
                raise UnidentifiedImageError("cannot read the image")
            at = len(MAGIC)
            length = int(data[at : at + 12])
            self._events = json.loads(data[at + 12 : at + 12 + length].decode())
            self._source = None

    def content(self):
        self.load()
        return self._events

    def copy(self):
        self.load()
        return FakeImage(events=json.loads(json.dumps(self._events)))

    def convert(self, *args, **kwargs):
        return self.copy()

    def tobytes(self, *args):
        return json.dumps(self.content()).encode()

    def save(self, target, *args, **kwargs):
        _write(self.content(), target, kwargs)

    def verify(self):
        self.load()

    def close(self):
        self._source = None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __eq__(self, other):
        return isinstance(other, FakeImage) and self.content() == other.content()

    __hash__ = None


def open_image(source, *args, **kwargs):
    if not hasattr(source, "read"):
        source = open(source, "rb")
    start = source.tell()
    if source.read(len(MAGIC)) != MAGIC:
        raise UnidentifiedImageError("cannot identify image file")
    return FakeImage(source, start)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in ("matplotlib", "PIL", "mpl_toolkits"):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        if spec.name == "matplotlib.pyplot":
            return Pyplot(spec.name)
        module = types.ModuleType(spec.name)
        module.__path__ = []
        if spec.name == "matplotlib.figure":
            module.Figure = Figure
        elif spec.name.startswith("matplotlib.backends."):
            module.FigureCanvas = module.FigureCanvasAgg = Canvas
        elif spec.name == "PIL.Image":
            module.Image = FakeImage
            module.open = open_image
        elif spec.name == "PIL":
            module.UnidentifiedImageError = UnidentifiedImageError

        def missing(attribute, name=spec.name):
            if attribute.startswith("__"):
                raise AttributeError(attribute)
            full = name + "." + attribute
            if full in ("matplotlib.figure", "matplotlib.pyplot", "PIL.Image", "matplotlib.backends"):
                return importlib.import_module(full)
            return Thing()

        module.__getattr__ = missing
        return module

    def exec_module(self, module):
        pass


def install():
    sys.meta_path.insert(0, Finder())


# ---------------------------------------------------------------- comparing
def close(one, two):
    return abs(one - two) <= 1e-9 * max(1.0, abs(one), abs(two))


def same(one, two):
    """Two contents are the same drawing."""
    if len(one) != len(two):
        return False
    for (name, numbers, strings), (other, others, texts) in zip(one, two):
        if name != other or strings != texts or len(numbers) != len(others):
            return False
        if not all(close(a, b) for a, b in zip(numbers, others)):
            return False
    return True


def brief(content):
    """For messages: the numbers of the longest calls."""
    calls = sorted(content, key=lambda c: -len(c[1]))[:1]
    return "; ".join("%s %s" % (c[0], [round(n, 6) for n in c[1][:12]]) for c in calls)
