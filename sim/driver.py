"""Calls the code under test and brings its answers into a canonical form."""
import hashlib
from fractions import Fraction

from . import clock, model, sched

METHODS = {
    "roll": "roll",
    "max": "max",
    "min": "min",
    "dist": "get_probability_distributions",
    "distdict": "get_probability_distributions_dict",
    "avg": "get_average",
    "cost": "get_estimated_cost",
    "hist": "get_histogram",
    "hist_least": "get_at_least_histogram",
    "hist_most": "get_at_most_histogram",
}
TOLERANCE = 1e-9
FAINT = Fraction(1, 10**250)


class Malformed(Exception):
    """The answer does not have the documented form."""


def texts(lines):
    return [model.line_text(line) for line in lines]


def call(interpreter, mode, program):
    sched.new_call()
    clock.between_calls()
    return getattr(interpreter, METHODS[mode])(program)


def is_number(value):
    return isinstance(value, (int, float)) and not isinstance(value, bool)


def canonical(mode, raw):
    """-> JSON-able content of an answer."""
    if mode in ("roll", "max", "min"):
        if not isinstance(raw, dict):
            raise Malformed("%s returned %s" % (mode, type(raw).__name__))
        for key, value in raw.items():
            if not isinstance(key, str) or not isinstance(value, int):
                raise Malformed("%s returned the entry %r: %r" % (mode, key, value))
        return {key: int(value) for key, value in raw.items()}
    if mode in ("dist", "distdict"):
        if not isinstance(raw, dict):
            raise Malformed("%s returned %s" % (mode, type(raw).__name__))
        out = {}
        for key, value in raw.items():
            form = value.get_dict_form() if mode == "dist" else value
            if not isinstance(form, dict):
                raise Malformed("%s returned %r for %s" % (mode, form, key))
            for face, prob in form.items():
                if not isinstance(face, int) or not is_number(prob):
                    raise Malformed("%s returned the entry %r: %r" % (mode, face, prob))
            out[key] = {int(face): float(prob) for face, prob in form.items() if prob != 0}
        return out
    if mode == "avg":
        if not isinstance(raw, dict):
            raise Malformed("avg returned %s" % type(raw).__name__)
        for key, value in raw.items():
            if not is_number(value):
                raise Malformed("avg returned %r: %r" % (key, value))
        return {key: float(value) for key, value in raw.items()}
    if mode == "cost":
        if not isinstance(raw, int):
            raise Malformed("cost returned %r" % (raw,))
        return int(raw)
    if mode.startswith("hist"):
        return image_digest(raw)
    raise AssertionError(mode)


def content(mode, raw):
    """As canonical; charts are judged apart."""
    return None if mode.startswith("hist") else canonical(mode, raw)


def image_bytes(image):
    image = image.convert("RGB")
    return image.size, image.tobytes()


def image_digest(image):
    size, data = image_bytes(image)
    return [list(size), hashlib.sha256(data).hexdigest()]


def attempt(interpreter, mode, program, catch=Exception):
    """-> ("ok", raw) or ("err", exception)"""
    try:
        return "ok", call(interpreter, mode, program)
    except catch as error:
        return "err", error


# ---------------------------------------------------------------- comparing with the model
def close(left, right):
    return abs(left - right) <= TOLERANCE * max(1.0, abs(left), abs(right))


def dist_differs(got, want):
    """got: {value: float}; want: {value: Fraction}. -> None or text"""
    want = {v: p for v, p in want.items() if p}
    # far out in the tails floating point runs out
    faint = {v for v, p in want.items() if p < FAINT}
    if not set(want) - faint <= set(got) <= set(want):
        return "support is %s, should be %s" % (show(sorted(got)), show(sorted(want)))
    for value, prob in want.items():
        if value in got and not close(got[value], float(prob)):
            return "probability of %d is %.9g, should be %.9g" % (value, got[value], float(prob))
    return None


def average_of(dist):
    return sum(Fraction(value) * prob for value, prob in dist.items())


def show(thing, limit=400):
    text = repr(thing)
    return text if len(text) <= limit else text[:limit] + "..."


def differs(mode, got, want):
    """Compare a canonical answer with the model's; -> None or a text."""
    if mode in ("max", "min", "roll"):
        if got != want:
            return "answer %s, should be %s" % (show(got), show(want))
        return None
    if mode == "cost":
        return None if got == want else "cost %r, should be %r" % (got, want)
    if set(got) != set(want):
        return "names %s, should be %s" % (show(sorted(got)), show(sorted(want)))
    for key in want:
        if mode in ("dist", "distdict"):
            problem = dist_differs(got[key], want[key])
            if problem:
                return "%s: %s" % (key, problem)
        elif mode == "avg":
            if not close(got[key], float(average_of(want[key]))):
                return "%s: average %r, should be %r" % (key, got[key], float(average_of(want[key])))
    return None
