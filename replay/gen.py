"""Generators of values, contents and operations for the bounded checks."""
import itertools

SCALARS = [None, True, False, 0, 1, 1.0, 2, -1.5, "", "x", "y\u00e9\u2603", 2**60]
CONTAINERS = [
    {}, [], {"a": 1}, [1], {"b": None}, [None, 2], {"a": {"c": 2}}, [[1], {"a": 1}],
    {"a": [1, {"b": True}]}, [{"a": [0]}],
]
VALUES = SCALARS + CONTAINERS
SMALL = [None, True, 1, 1.0, "x", {}, {"a": 1}, [], [1]]
KEYS = ["a", "b", "c"]

DICTS = [
    {}, {"a": 1}, {"a": None, "b": "x\u00e9"}, {"a": {"b": 1}, "c": [1, 2]},
    {"a": {}, "b": []}, {"a": [{"a": 1}, [2]], "b": {"a": {"a": 0}}},
    {"a": True, "b": 1, "c": 1.0}, {"c": [[], {}], "a": {"a": None}},
]
LISTS = [
    [], [1], [None, "x\u2603"], [1, 2, 1], [{"a": 1}, [2, 3]], [[], {}], [True, 1, 1.0, 2],
    [[[1]], {"a": [1, {"b": 2}]}, 3], [{"a": 1}, {"a": 1}, {"b": 2}],
]


def dict_ops(keys=KEYS, values=SMALL, attr=False):
    for k in keys:
        for v in values:
            yield "setitem", [k, v]
            yield "setdefault", [k, v]
        yield "setdefault", [k]
        yield "delitem", [k]
        yield "pop", [k]
        yield "pop", [k, 5]
        if attr:
            yield "attr_set", [k, values[-1]]
            yield "attr_set", [k, 3]
            yield "attr_del", [k]
    yield "popitem", []
    yield "clear", []
    yield "update", []
    for v in values:
        yield "update", [{"a": v}]
        yield "update", [[["b", v], ["a", 2]]]
        yield "update_kw", [{"a": v, "c": 0}]
        yield "update_both", [{"a": 1, "b": 2}, {"a": v}]
        yield "reset", [{"a": v}]
    yield "update_kw", [{"other": 1, "key": 2, "data": 3}]
    yield "reset", [{}]
    yield "reset", [[1]]
    yield "reset", [5]


def dict_reads(keys=KEYS, attr=False):
    for k in keys:
        yield "getitem", [k]
        yield "get", [k]
        yield "get", [k, 7]
        yield "contains", [k]
        if attr:
            yield "attr_get", [k]
    for n in ("len", "bool", "iter", "keys", "values", "items", "call", "repr", "str"):
        yield n, []
    for v in DICTS[:5]:
        yield "eq", [v]
        yield "ne", [v]


SLICES = [
    ["slice", 0, 1, None], ["slice", 1, None, None], ["slice", None, None, 2],
    ["slice", None, None, -1], ["slice", 5, 9, None], ["slice", -2, None, None],
]


def list_ops(values=SMALL):
    for i in (0, 1, -1, 5):
        for v in values:
            yield "setitem", [i, v]
            yield "insert", [i, v]
        yield "delitem", [i]
        yield "pop", [i]
    yield "pop", []
    for s in SLICES:
        yield "delitem", [s]
        yield "setitem", [s, [7, {"a": 1}]]
        yield "setitem", [s, []]
        for v in ("ab", {"k": 1}, 5, None):
            yield "setitem", [s, v]
        yield "slice_iter", [s, [7, [8]]]
    for v in values:
        yield "append", [v]
        yield "remove", [v]
        yield "extend", [[v, 2]]
        yield "iadd", [[v]]
        yield "reset", [[v, v]]
    for n in ("reverse", "clear"):
        yield n, []
    for v in ([], "ab", {"k": 1}, 5, None):
        yield "extend", [v]
        yield "iadd", [v]
    yield "extend_iter", [[7, [8]]]
    yield "iadd_iter", [[7, [8]]]
    yield "reset", [[]]
    yield "reset", [{"a": 1}]
    yield "reset", [5]


def list_reads(values=SMALL):
    for i in (0, 1, -1, 5):
        yield "getitem", [i]
    for s in SLICES:
        yield "getitem", [s]
    for v in values:
        yield "contains", [v]
        yield "index", [v]
        yield "count", [v]
    for a in ([1, 1], [1, 0, 1], [1, 0, 0], [1, 0, -1], [1, 1, 1], [1, 2, 1], [1, -2], [1, -5, -1], [2, 1, 9], [2, 0, -9]):
        yield "index", a
    for n in ("len", "bool", "iter", "reversed", "call", "repr", "str"):
        yield n, []
    for x in ([], [1], [2], [1, 2], [0, 5], [1, 2, 1], [None, "x"], [[2]]):
        for n in ("eq", "ne", "lt", "le", "gt", "ge", "rlt", "rle", "rgt", "rge"):
            yield n, [x]


def peer_reads(target):
    """Comparisons with synced collections of several classes."""
    kind = "Dict" if isinstance(target, dict) else "List"
    for peer in ("JSON" + kind, "BufferedJSON" + kind, "MemoryBufferedJSONAttr" + kind):
        for v in DICTS[:3] if kind == "Dict" else ([], [1], [1, 2]):
            for n in ("eq", "ne") if kind == "Dict" else ("eq", "ne", "lt", "le", "gt", "ge", "rlt", "rge"):
                yield n, [{"$peer": [peer, v]}]


SWAP = {None: True, "x": "y", "y": "x"}


def twist(v):
    """Other content whose JSON text has the same length."""
    if isinstance(v, dict):
        return {k: twist(x) for k, x in v.items()}
    if isinstance(v, list):
        return [twist(x) for x in v]
    if v is True:
        return None
    if isinstance(v, int) and not isinstance(v, bool) and 0 < abs(v) < 9:
        return v + 1 if v > 0 else v - 1
    return SWAP.get(v, v) if v is None or isinstance(v, str) else v


def paths(content, prefix=()):
    """All container positions of a content, root first."""
    yield list(prefix)
    it = content.items() if isinstance(content, dict) else enumerate(content)
    for k, v in it:
        if isinstance(v, (dict, list)):
            yield from paths(v, prefix + (k,))


def at(m, path):
    for p in path:
        m = m[p]
    return m


def ops_for(target, attr=False, values=SMALL):
    return dict_ops(values=values, attr=attr) if isinstance(target, dict) else list_ops(values)


def reads_for(target, attr=False):
    return dict_reads(attr=attr) if isinstance(target, dict) else list_reads()


def contents():
    return itertools.chain(DICTS, LISTS)
