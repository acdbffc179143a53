"""What a chart should look like: drawn by the harness itself from the model's numbers."""
import io
import itertools
from fractions import Fraction

LOUD = 64  # a channel must differ by this much to count
SHARE = 0.00004  # of all pixels (about a dozen)
LOOSE = 0.001  # the same for running sums: their last digits depend on the order of summing, and drawing rounds to whole pixels
JITTER = [(0, 0), (1e-12, 0), (-1e-12, 0), (0, 1e-12), (0, -1e-12)]  # relative, of average and heights


def filled(dist):
    values = [v for v, p in dist.items() if p]
    return {v: Fraction(dist.get(v, 0)) for v in range(min(values), max(values) + 1)}


def at_least(dist):
    form, left, out = filled(dist), Fraction(1), {}
    for value in sorted(form):
        out[value] = left
        left -= form[value]
    return out


def at_most(dist):
    form, total, out = filled(dist), Fraction(0), {}
    for value in sorted(form):
        total += form[value]
        out[value] = total
    return out


SHAPES = {"hist": filled, "hist_least": at_least, "hist_most": at_most, "compare": filled, "compare_at_least": at_least, "compare_at_most": at_most}


def bars(engine, data, average=None, doubled=(), jitter=(0, 0)):
    """data: {x: height}; doubled: see known finding K3."""
    xs = sorted(data)
    figure = engine.matplotlib.figure.Figure()
    axis = figure.subplots()
    heights = [float(data[x]) * (2 if x in doubled else 1) * (1 + jitter[1]) for x in xs]
    if average is not None:
        average *= 1 + jitter[0]
    axis.hist(xs, weights=heights, bins=[x - 0.5 for x in xs] + [xs[-1] + 0.5])
    axis.grid(True, linestyle="-.")
    axis.set_ylabel("odds")
    axis.set_xlabel("outcome")
    if average is not None:
        axis.plot([average, average], [0, max(heights) * 1.1], "-r", lw=2)
    return save(engine, figure, "tiff")


def lines(engine, one, two, name_one, name_two, jitter=(0, 0)):
    figure = engine.matplotlib.figure.Figure()
    axis = figure.subplots()
    for data, colour, name in ((one, "b", name_one), (two, "r", name_two)):
        xs = sorted(data)
        axis.plot(xs, [float(data[x]) * (1 + jitter[1]) for x in xs], colour, label=name)
    axis.grid(True, linestyle="-.")
    axis.set_ylabel("odds")
    axis.set_xlabel("outcome")
    axis.legend()
    return save(engine, figure, "png")


def save(engine, figure, form):
    buffer = io.BytesIO()
    figure.savefig(buffer, format=form)
    buffer.seek(0)
    image = engine.PILImage.open(buffer)
    image.load()
    return image


def average(dist):
    return float(sum(Fraction(v) * p for v, p in dist.items()))


class Reference:
    """How a chart must look; drawn once, and with other last digits if it does not fit."""

    def __init__(self, draw, share):
        self.draw, self.share = draw, share
        self.image = draw((0, 0))

    def differs(self, image):
        problem = differs(image, self.image, self.share)
        if problem and image.size == self.image.size:
            for jitter in JITTER[1:]:
                if differs(image, self.draw(jitter), self.share) is None:
                    return None
        return problem


def histogram(engine, mode, dist):
    data, middle = SHAPES[mode](dist), average(dist)
    settings = dict(engine.matplotlib.rcParams)
    return Reference(lambda jitter: under(engine, settings, bars, data, middle, (), jitter), SHARE if mode == "hist" else LOOSE)


def comparison(engine, how, one, two, names=None, honest=False):
    settings = dict(engine.matplotlib.rcParams)
    if how == "compare_histogram":
        left, right = filled(one), filled(two)
        data = {v: left.get(v, 0) - right.get(v, 0) for v in itertools.chain(left, right)}
        doubled = () if honest else set(left) & set(right)
        return Reference(lambda jitter: under(engine, settings, bars, data, None, doubled, jitter), SHARE)
    shape = SHAPES[how]
    names = names or ["This distribution", "other distribution"]
    return Reference(lambda jitter: under(engine, settings, lines, shape(one), shape(two), names[0], names[1], jitter), SHARE if how == "compare" else LOOSE)


def under(engine, settings, draw, *args):
    """Draw with the settings that were in force when the chart was asked for."""
    now = dict(engine.matplotlib.rcParams)
    changed = {k: v for k, v in settings.items() if now.get(k) != v}
    for key, value in changed.items():
        engine.matplotlib.rcParams[key] = value
    try:
        return draw(engine, *args)
    finally:
        for key in changed:
            engine.matplotlib.rcParams[key] = now[key]


def tall(one, two):
    """Is there something to see in the difference of the two?"""
    left, right = filled(one), filled(two)
    return max(abs(left.get(v, 0) - right.get(v, 0)) for v in itertools.chain(left, right)) > Fraction(1, 1000)


def _far(one, two, at, other):
    return abs(one[at] - two[other]) > LOUD or abs(one[at + 1] - two[other + 1]) > LOUD or abs(one[at + 2] - two[other + 2]) > LOUD


def differs(got, want, share=SHARE):
    """-> None, or how the two images differ"""
    if got.size != want.size:
        return "size is %r, should be %r" % (got.size, want.size)
    one, two = got.convert("RGB").tobytes(), want.convert("RGB").tobytes()
    if one == two:
        return None
    loud = 0
    width = 3 * got.size[0]
    around = [dy * width + dx * 3 for dy in (-1, 0, 1) for dx in (-1, 0, 1)]
    for at in range(0, len(one), 3):
        if one[at : at + 3] != two[at : at + 3] and _far(one, two, at, at):
            # drawing rounds to whole pixels: an edge may lie one pixel further
            near = [at + step for step in around if 0 <= at + step < len(one)]
            if all(_far(one, two, at, other) for other in near) or all(_far(one, two, other, at) for other in near):
                loud += 1
    if loud > share * (len(one) // 3):
        return "%d of %d pixels differ" % (loud, len(one) // 3)
    return None
