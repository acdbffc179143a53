"""Makes a failing scenario smaller while the same kind of violation persists."""
import copy
import json
import time

LISTS = ("ops", "lines", "switches", "threads", "faults")


def _get(scenario, path):
    for key in path:
        scenario = scenario[key]
    return scenario


def _paths(node, path=()):
    out = []
    if isinstance(node, dict):
        for key in sorted(node):
            value = node[key]
            if isinstance(value, list) and key in LISTS:
                out.append(path + (key,))
                if key == "threads":  # a list of lists of operations: keep the threads, shrink their content
                    out.pop()
                    for index, inner in enumerate(value):
                        if isinstance(inner, list):
                            out.append(path + (key, index))
            out.extend(_paths(value, path + (key,)))
    elif isinstance(node, list):
        for index, value in enumerate(node):
            out.extend(_paths(value, path + (index,)))
    return out


def minimise(scenario, result, fails, seconds):
    end = time.monotonic() + seconds
    best = [copy.deepcopy(scenario), result]

    def attempt(candidate):
        if time.monotonic() > end:
            return False
        outcome = fails(candidate)
        if outcome:
            best[0], best[1] = candidate, outcome
            return True
        return False

    if result.get("explicit"):
        candidate = copy.deepcopy(scenario)
        candidate.update(result["explicit"])
        attempt(candidate)
    while time.monotonic() < end:
        size = len(json.dumps(best[0]))
        done = set()
        while True:
            paths = [p for p in _paths(best[0]) if p not in done]
            if not paths:
                break
            path = min(paths, key=len)
            done.add(path)
            _ddmin(best, path, attempt, end)
        _simplify(best, attempt, end)
        if len(json.dumps(best[0])) >= size:
            break
    return best[0], best[1]


def _ddmin(best, path, attempt, end):
    chunk = max(1, len(_get(best[0], path)) // 2)
    while chunk >= 1:
        index = 0
        while index < len(_get(best[0], path)):
            if time.monotonic() > end:
                return
            candidate = copy.deepcopy(best[0])
            del _get(candidate, path)[index : index + chunk]
            if not attempt(candidate):
                index += chunk
        chunk //= 2


def _smaller(expr):
    """Simpler expressions to try in place of this one."""
    kind = expr[0]
    if kind == "bin":
        yield expr[2]
        yield expr[3]
    elif kind == "mm":
        yield expr[2]
        yield expr[3]
    elif kind in ("not", "abs"):
        yield expr[1]
    if kind not in ("int", "bool"):
        yield ["int", 1]
    if kind == "dice":
        if expr[3]:
            yield ["dice", expr[1], expr[2], None]
        if expr[2] not in ("2", "6"):
            yield ["dice", expr[1], "2", expr[3]]
        if expr[1] not in ("", "1", "2"):
            yield ["dice", "2", expr[2], expr[3]]
            yield ["dice", "", expr[2], expr[3]]


def _expr_paths(node, path=()):
    if isinstance(node, list):
        if node and node[0] in ("bin", "mm", "not", "abs", "dice", "var") and all(not isinstance(x, dict) for x in node):
            yield path
        for index, value in enumerate(node):
            for item in _expr_paths(value, path + (index,)):
                yield item
    elif isinstance(node, dict):
        for key in sorted(node):
            for item in _expr_paths(node[key], path + (key,)):
                yield item


def _simplify(best, attempt, end):
    tried = set()
    again = True
    while again and time.monotonic() < end:
        again = False
        for path in list(_expr_paths(best[0])):
            try:
                expr = _get(best[0], path)
            except (KeyError, IndexError, TypeError):
                continue
            for smaller in _smaller(expr):
                key = (path, json.dumps(expr), json.dumps(smaller))
                if key in tried or time.monotonic() > end:
                    continue
                tried.add(key)
                candidate = copy.deepcopy(best[0])
                _get(candidate, path[:-1])[path[-1]] = copy.deepcopy(smaller)
                if attempt(candidate):
                    again = True
                    break
            if again:
                break
