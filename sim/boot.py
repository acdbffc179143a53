"""Loads the code under test from its source files, behind the simulator's seams.

Call `boot()` once per process, before any scenario runs.
"""
import os
import shutil
import sys
import tempfile

from . import fakedraw

REPO = os.environ.get("PYDICE_REPO", "/repo")
VENV_SITE = "/opt/venv/lib/pypy3.9/site-packages"
IS_PYPY = sys.implementation.name == "pypy"

_scratch = []


class Engine:
    """The names of the code under test that the harness uses."""


def boot(drawing=None):
    """-> Engine. drawing: False puts the recording stand-in for matplotlib and PIL (always on CPython)."""
    if drawing is None:
        drawing = IS_PYPY
    sys.dont_write_bytecode = True
    engine = Engine()
    engine.drawing = bool(drawing and IS_PYPY)
    os.environ["MPLBACKEND"] = "Agg"
    if not IS_PYPY:
        sys.path.append(VENV_SITE)
    if engine.drawing:
        config = os.environ.get("PYDICE_SCRATCH")
        if not config:
            config = tempfile.mkdtemp(prefix="pydice-mpl-")
            _scratch.append(config)
        if os.path.isdir("/opt/vp/mplconfig"):
            shutil.rmtree(config)
            shutil.copytree("/opt/vp/mplconfig", config)
        os.environ["MPLCONFIGDIR"] = config
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.figure
        import matplotlib.pyplot
        import matplotlib.backends.backend_agg
        import PIL.Image
        import PIL.PngImagePlugin
        import PIL.TiffImagePlugin

        engine.pyplot = matplotlib.pyplot
        engine.matplotlib = matplotlib
        engine.PILImage = PIL.Image
        PIL.Image.init()
        # one throw-away drawing: font cache and lazily imported parts are then in every fork
        import io

        for form in ("tiff", "png"):
            figure = matplotlib.figure.Figure()
            axis = figure.subplots()
            axis.hist([1, 2], weights=[0.5, 0.5], bins=[0.5, 1.5, 2.5])
            axis.plot([1, 2], [0, 1], "b", label="x")
            axis.legend()
            buffer = io.BytesIO()
            figure.savefig(buffer, format=form)
            buffer.seek(0)
            PIL.Image.open(buffer).load()
    else:
        fakedraw.install()
    import rply  # noqa: F401
    import concurrent.futures  # noqa: F401
    import copy  # noqa: F401
    import queue  # noqa: F401

    from . import locks

    locks.install()
    # never read a stale compiled file: look for them where there are none
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "pydice-no-such-pycache")
    sys.path.insert(0, REPO)
    import python_dice

    where = os.path.dirname(os.path.abspath(python_dice.__file__))
    engine.root = os.path.join(os.path.abspath(REPO), "python_dice")
    if where != engine.root:
        raise RuntimeError("python_dice came from %s" % where)
    from python_dice.src.python_dice_interpreter import PythonDiceInterpreter
    from python_dice.src.python_dice_parser import PythonDiceParser
    from python_dice.src.python_dice_lexer import PythonDiceLexer
    from python_dice.src.probability_distribution.probability_distribution_factory import (
        ProbabilityDistributionFactory,
    )
    from python_dice.src.probability_distribution.probability_distribution_state_factory import (
        ProbabilityDistributionStateFactory,
    )

    engine.Interpreter = PythonDiceInterpreter
    engine.Parser = PythonDiceParser
    engine.Lexer = PythonDiceLexer
    engine.DistFactory = ProbabilityDistributionFactory
    engine.StateFactory = ProbabilityDistributionStateFactory
    engine.rply_root = os.path.dirname(os.path.abspath(rply.__file__))
    return engine


def cleanup():
    while _scratch:
        shutil.rmtree(_scratch.pop(), ignore_errors=True)
