"""Upper tail of the chi-square law, and pooling of rare outcomes."""
import math


def tail(x, k):
    """P(chi-square with k degrees of freedom >= x)"""
    if x <= 0 or k <= 0:
        return 1.0
    a, x = k / 2.0, x / 2.0
    logs = a * math.log(x) - x - math.lgamma(a)
    if x < a + 1:
        term = total = 1.0 / a
        n = a
        for _ in range(10000):
            n += 1
            term *= x / n
            total += term
            if term < total * 1e-16:
                break
        return max(0.0, 1.0 - total * math.exp(logs))
    b = x + 1 - a
    c = 1e300
    d = 1.0 / b
    h = d
    for i in range(1, 10000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = 1e-300 if abs(d) < 1e-300 else d
        c = b + an / c
        c = 1e-300 if abs(c) < 1e-300 else c
        d = 1.0 / d
        delta = d * c
        h *= delta
        if abs(delta - 1) < 1e-15:
            break
    return math.exp(logs) * h if logs > -740 else 0.0


def p_value(counts, law, least=25.0):
    """counts: {outcome: n}; law: {outcome: probability}. Outcomes outside the law give 0.0. -> (p, cells)"""
    total = sum(counts.values())
    if any(outcome not in law for outcome in counts):
        return 0.0, 0
    rare_expected = rare_seen = 0.0
    statistic = 0.0
    cells = 0
    for outcome in law:
        expected = float(law[outcome]) * total
        seen = counts.get(outcome, 0)
        if expected < least:
            rare_expected += expected
            rare_seen += seen
        else:
            statistic += (seen - expected) ** 2 / expected
            cells += 1
    if rare_expected >= least:
        statistic += (rare_seen - rare_expected) ** 2 / rare_expected
        cells += 1
    elif rare_expected > 0 and rare_seen > rare_expected + 12 * math.sqrt(rare_expected) + 30:
        return 0.0, cells
    if cells < 2:
        return 1.0, cells
    return tail(statistic, cells - 1), cells
