"""Acceptance and rejection at every entry point (C11, C12), constructor
aliasing (C16), attribute access (C18) and classification history (C19)."""
import array
import collections
import datetime
import decimal
import enum
import fractions
import json
import os
import random
import types
import weakref

import backends
from backends import ABSENT, Resource, plain, same
import machine
from machine import Failure, scribble

try:
    import numpy as np
except ImportError:
    np = None


# ------------------------------------------------------------- named values
class UMap(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class USeq(collections.abc.Sequence):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __len__(self):
        return len(self.d)


class SubStr(str):
    pass


class SubInt(int):
    pass


class SubDict(dict):
    pass


class SubList(list):
    pass


class Plain:
    pass


class Liar:
    """Claims to be of another class."""

    def __init__(self, cls):
        self._c = cls

    @property
    def __class__(self):
        return self._c


class Color(enum.Enum):
    RED = 1


class Num(enum.IntEnum):
    ONE = 1


NT = collections.namedtuple("NT", "a b")
KEEP = []


def _proxy(x):
    KEEP.append(x)
    return weakref.proxy(x)


NAMED = {
    "object": object, "plain": Plain, "set": lambda: {1}, "frozenset": lambda: frozenset([1]),
    "complex": lambda: 1j, "decimal": lambda: decimal.Decimal(1),
    "fraction": lambda: fractions.Fraction(1, 2), "datetime": lambda: datetime.datetime(2020, 1, 1),
    "lambda": lambda: (lambda: 1), "gen": lambda: (i for i in [1]), "type": lambda: int,
    "enum": lambda: Color.RED, "ellipsis": lambda: Ellipsis, "arrayarray": lambda: array.array("d", [1.0]),
    "intenum": lambda: Num.ONE, "substr": lambda: SubStr("s"), "subint": lambda: SubInt(3),
    "subdict": lambda: SubDict(a=1), "sublist": lambda: SubList([1]), "umap": lambda: UMap({"a": 1}),
    "useq": lambda: USeq([1, 2]), "userdict": lambda: collections.UserDict(a=1),
    "userlist": lambda: collections.UserList([1]), "userstring": lambda: collections.UserString("us"),
    "ordered": lambda: collections.OrderedDict(a=1), "proxy": lambda: types.MappingProxyType({"a": 1}),
    "deque": lambda: collections.deque([1]), "tuple": lambda: (1, 2), "namedtuple": lambda: NT(1, 2),
    "range": lambda: range(3), "bytes": lambda: b"ab", "bytearray": lambda: bytearray(b"ab"),
    "memoryview": lambda: memoryview(b"ab"), "keys": lambda: {"a": 1}.keys(),
    "wdict": lambda: _proxy(SubDict(a=1)), "wlist": lambda: _proxy(SubList([1])), "wplain": lambda: _proxy(Plain()),
    "wumap": lambda: _proxy(UMap({"a": 1})), "wuseq": lambda: _proxy(USeq([1])),
    "liar_dict": lambda: Liar(dict), "liar_str": lambda: Liar(str),
    "none": lambda: None, "true": lambda: True, "int": lambda: 1, "float": lambda: 1.5, "str": lambda: "s",
    "dict": lambda: {"a": 1}, "list": lambda: [1],
    "intkey": lambda: {1: 2}, "nonekey": lambda: {None: 2}, "tuplekey": lambda: {(1,): 2},
    "byteskey": lambda: {b"k": 1}, "floatkey": lambda: {1.5: 1}, "boolkey": lambda: {True: 1},
    "umapintkey": lambda: UMap({1: 2}), "proxyintkey": lambda: types.MappingProxyType({2: 1}),
    "dotkey": lambda: {"a.b": 1}, "umapdot": lambda: UMap({"a.b": 2}), "dotonly": lambda: {".": 1},
}
NONJSON = [
    "object", "plain", "set", "frozenset", "complex", "decimal", "fraction", "datetime", "lambda", "gen",
    "type", "enum", "ellipsis", "keys",
]
BADKEY = ["intkey", "nonekey", "tuplekey", "byteskey", "floatkey", "boolkey", "umapintkey", "proxyintkey"]
DOTKEY = ["dotkey", "umapdot", "dotonly"]
if np is not None:
    class SubArray(np.ndarray):
        pass

    NAMED.update({
        "np_int": lambda: np.int64(3), "np_float": lambda: np.float64(1.5), "np_bool": lambda: np.bool_(True),
        "np_f32": lambda: np.float32(0.5), "np_u8": lambda: np.uint8(2), "np_str": lambda: np.str_("s"),
        "np_1d": lambda: np.array([1, 2]), "np_2d": lambda: np.array([[1, 2], [3, 4]]),
        "np_empty": lambda: np.array([]), "np_one": lambda: np.array([1]), "np_0d": lambda: np.array(3),
        "np_0df": lambda: np.array(1.5), "np_strs": lambda: np.array(["a"]), "np_bools": lambda: np.array([True]),
        "np_sub1d": lambda: np.array([1]).view(SubArray), "np_sub0d": lambda: np.array(1).view(SubArray),
        "np_ma": lambda: np.ma.array([1, 2]), "np_matrix": lambda: np.asmatrix([[1, 2]]),
        "np_obj1d": lambda: np.array([1, "a", None], dtype=object),
        "np_complex": lambda: np.complex128(1j), "np_longdouble": lambda: np.longdouble(1),
        "np_carr": lambda: np.array([1j]), "np_c0d": lambda: np.array(1j), "np_ldarr": lambda: np.array([1], dtype=np.longdouble),
        "np_ld0d": lambda: np.array(1, dtype=np.longdouble), "np_dt": lambda: np.datetime64("2020-01-01"),
        "np_dtarr": lambda: np.array(["2020-01-01"], dtype="datetime64"), "np_obj0d": lambda: np.array({1: 2}, dtype=object),
        "np_objset": lambda: np.array([{1}], dtype=object), "np_struct": lambda: np.array([(1, 2)], dtype=[("a", int), ("b", int)]),
        "np_objdict": lambda: np.array([{1: 2}], dtype=object), "np_obj0dset": lambda: np.array({1}, dtype=object),
        "np_c2d": lambda: np.array([[1, 2j]]), "np_c64": lambda: np.complex64(1), "np_c64arr": lambda: np.array([1, 2], dtype=np.complex64),
        "np_c640d": lambda: np.array(2, dtype=np.complex64),
    })
    NONJSON += [
        "np_complex", "np_longdouble", "np_carr", "np_c0d", "np_ldarr", "np_ld0d", "np_dt", "np_dtarr",
        "np_obj0d", "np_objset", "np_struct", "np_objdict", "np_obj0dset", "np_c2d", "np_c64", "np_c64arr", "np_c640d",
    ]
WRAPS = {
    "v": lambda v: v, "in_dict": lambda v: {"x": v}, "in_list": lambda v: [1, v],
    "deep": lambda v: {"x": [{"y": [v]}]}, "in_tuple": lambda v: (v,),
    "in_umap": lambda v: UMap({"x": v}), "in_useq": lambda v: USeq([1, v]), "in_deque": lambda v: collections.deque([v]),
    "after_ok": lambda v: {"ok": 1, "x": [1, {"k": 2}, v]},
    "first": lambda v: {"x": [v, 1], "y": 2}, "far": lambda v: [*range(40), v],
    "in_objarr": lambda v: _objarr(v), "in_objarr_last": lambda v: _objarr(1, 2, v), "in_objarr_first": lambda v: _objarr(v, 1),
    "in_objarr_2d": lambda v: _objarr(1, 2, 3, v).reshape(2, 2),
    "deeper": lambda v: nested(v, 14), "deepest": lambda v: nested(v, 60),
    "mappings": lambda v: nested(v, 40, [1]), "lists": lambda v: nested(v, 40, [0]),
    "long": lambda v: [*range(2101), v], "long_inside": lambda v: [*range(150), v, *range(60)],
    "many": lambda v: {**{f"m{i}": i for i in range(300)}, "x": v},
}


def nested(v, depth, kinds=(0, 1)):
    for i in range(depth):
        v = {"x": v} if kinds[i % len(kinds)] else [1, v]
    return v


def _objarr(*values):
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return a


JSONVALUES = [
    None, True, False, 0, 1, -1, 1.0, 0.5, -2.25, 1e308, 5e-324, 1e16, 123456789.123456789, 2**31, 2**53 + 1, 2**63 - 1,
    -(2**63), "", "a", " ", "é", "中文", "\U0001f600", '"\\/\b\f\n\r\t', "\x00", "\x7f\x80", "  ",
    "null", "1", "true", {}, [], {"": 1}, {"a": {}}, {"a": []}, [[]], [{}], [[], {}], {"": {"": [""]}},
    {"é": 1, "a b": 2, '"': 3, "\\": 4, "\n": 5}, {"a": [1, 1.0, True, None, "1"]}, [0, False, 0.0, None, ""],
    {"a": {"b": {"c": {"d": [[[[1]]]]}}}}, [1, [2, [3, [4, {"x": [5]}]]]],
    {"1": 1, "True": 2, "None": 3, "data": 4, "self": 5, "key": 6, "other": 7, "keys": 8, "_data": 9, "__init__": 10},
    "x" * 5000, list(range(300)), {str(i): i for i in range(200)},
    0.1, 1 / 3, 1e22, 1e-7, 2.0**0.5, 1e15 + 0.3, {"$a": 1}, {"_id": 5}, "\ud800", [-0.0],
    nested(1, 45), [*range(2500), "end"], {"x": [{"k" * 300: i} for i in range(100)]},
]
BIGINTS = [2**63, -(2**63) - 1, 2**64, 10**30, -(10**50), 10**400]
DOTTED = [{"a.b": 1}, {"x": {".": [1]}}]
NULKEY = [{"a\x00b": 1}]


# ---------------------------------------------------------------- entry points
def _iadd(o, v):
    o += v


DICT_ENTRY = {
    "setitem": lambda o, v: o.__setitem__("k", v),
    "setitem_existing": lambda o, v: o.__setitem__("e", v),
    "setdefault": lambda o, v: o.setdefault("k", v),
    "update_map": lambda o, v: o.update({"k": v}),
    "update_pairs": lambda o, v: o.update([("k", v)]),
    "update_iter": lambda o, v: o.update(iter([("k", v)])),
    "update_kw": lambda o, v: o.update(k=v),
    "update_both": lambda o, v: o.update({"e": 1}, k=v),
    "update_umap": lambda o, v: o.update(UMap({"k": v})),
    "reset": lambda o, v: o.reset({"k": v}),
    "attr": lambda o, v: setattr(o, "k", v),
    "ior": lambda o, v: o.__ior__({"k": v}),
}
LIST_ENTRY = {
    "setitem": lambda o, v: o.__setitem__(0, v),
    "slice": lambda o, v: o.__setitem__(slice(0, 1), [v]),
    "slice_iter": lambda o, v: o.__setitem__(slice(0, 1), iter([v])),
    "slice_step": lambda o, v: o.__setitem__(slice(None, None, 2), [v]),
    "append": lambda o, v: o.append(v),
    "insert": lambda o, v: o.insert(0, v),
    "extend": lambda o, v: o.extend([v]),
    "extend_iter": lambda o, v: o.extend(iter([v])),
    "iadd_iter": lambda o, v: _iadd(o, iter([v])),
    "iadd": _iadd and (lambda o, v: _iadd(o, [v])),
    "reset": lambda o, v: o.reset([v]),
}
# Entry points whose mapping keys come from the value itself.
KEY_ENTRY = {
    "setitem": lambda o, m: [o.__setitem__(k, m[k]) for k in m],
    "setdefault": lambda o, m: [o.setdefault(k, m[k]) for k in m],
    "update_map": lambda o, m: o.update(m),
    "update_pairs": lambda o, m: o.update([(k, m[k]) for k in m]),
    "update_iter": lambda o, m: o.update((k, m[k]) for k in m),
    "reset": lambda o, m: o.reset(m),
}
SINGLE = {"setitem", "setitem_existing", "setdefault", "attr", "append", "insert"}
POS = {
    "root_dict": ({"e": 0}, []), "dict_dict": ({"z": 1, "t": {"e": 0}}, ["t"]), "list_dict": ([0, {"e": 0}], [1]),
    "deep_dict": ({"q": [[{"e": 0}]]}, ["q", 0, 0]), "root_list": ([0], []), "dict_list": ({"t": [0]}, ["t"]),
    "list_list": ([[0], 1], [0]), "deep_list": ([{"q": {"r": [0]}}], [0, "q", "r"]),
}


def target(pos):
    content, path = POS[pos]
    t = content
    for p in path:
        t = t[p]
    return content, path, t


def forbidden(x):
    """Whether a value in memory is something JSON cannot hold."""
    if isinstance(x, dict):
        return any(not isinstance(k, str) or forbidden(v) for k, v in x.items())
    if isinstance(x, list):
        return any(forbidden(v) for v in x)
    return not (x is None or isinstance(x, (bool, int, float, str)))


def dotted(x):
    if isinstance(x, dict):
        return any("." in k or dotted(v) for k, v in x.items())
    return isinstance(x, list) and any(dotted(v) for v in x)


def build(case):
    """The value of a case: JSON data or a named one inside of a wrapper."""
    if "json" in case:
        return json.loads(case["json"])
    return WRAPS[case.get("wrap", "v")](NAMED[case["name"]]())


def twin(v):
    """An equal value of other types, or the value itself if there is none."""
    if isinstance(v, dict):
        return {k: twin(x) for k, x in v.items()}
    if isinstance(v, list):
        return [twin(x) for x in v]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return bool(v) if v in (0, 1) else float(v) if abs(v) < 2**53 else v
    if isinstance(v, float) and v.is_integer() and abs(v) < 2**53:
        return int(v)
    return v


class Ctx:
    """Optionally run inside a buffered context."""

    def __init__(self, obj, mode):
        self.cm = None
        if mode == "obj":
            self.cm = obj.buffered
        elif mode == "cls":
            self.cm = type(obj).buffer_backend()

    def __enter__(self):
        if self.cm is not None:
            self.cm.__enter__()

    def __exit__(self, *a):
        if self.cm is not None:
            self.cm.__exit__(*a)


class Unstorable(Exception):
    """The content to start with cannot be stored in this backend."""


def setup(case, scratch):
    fam, d, lst = next(p for p in backends.all_pairs() if p[1].__name__ == case["cls"])
    content, path, t = target(case["pos"])
    if case.get("twin"):
        content = json.loads(json.dumps(content))
        t = nav(content, path)
        other = twin(json.loads(case["json"]))
        if case.get("keys"):
            t.update(other)
        elif isinstance(t, dict):
            t["e"] = t["k"] = other
        else:
            t[0] = other
    res = Resource(fam, scratch)
    try:
        res.write(content)
    except Exception:  # noqa: BLE001
        if not case.get("twin"):
            raise
        raise Unstorable from None
    obj = res.open(d if isinstance(content, dict) else lst)
    return res, obj, content, path, t


def nav(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def entry(case, t):
    if case.get("keys"):
        return KEY_ENTRY[case["entry"]]
    return (DICT_ENTRY if isinstance(t, dict) else LIST_ENTRY)[case["entry"]]


def t_reject(case, scratch):
    """C11: the operation raises and nothing forbidden gets in."""
    res, obj, content, path, t = setup(case, scratch)
    value = build(case)
    what = f"{case['entry']} of {case.get('name') or case.get('json')} ({case.get('wrap', 'v')}) on {case['cls']} at {path}"
    if case["entry"] == "constructor":
        cls = type(obj)
        try:
            new = res.open(cls, data={"k": value} if isinstance(content, dict) else [value])
        except (TypeError, ValueError):
            new = None
        if new is not None:
            raise Failure("accepted", f"{what}: constructor data was accepted")
        if not same(res.read(), content):
            raise Failure("reached", f"{what}: resource changed to {res.read()!r}")
        return
    exc = None
    with Ctx(obj, case.get("mode")):
        obj()
        node = nav(obj, path)
        try:
            entry(case, t)(node, value)
        except Exception as e:  # noqa: BLE001
            exc = e
        mem = plain(obj)
    if not isinstance(exc, (TypeError, ValueError)):
        raise Failure("accepted", f"{what}: raised {exc!r}")
    if forbidden(mem) or (backends.is_attr(type(obj)) and dotted(mem)):
        raise Failure("reached", f"{what}: rejected but in memory: {mem!r}")
    try:
        got = res.read()
    except Exception as e:  # noqa: BLE001
        raise Failure("reached", f"{what}: resource is unreadable: {e!r}") from None
    if got is ABSENT or forbidden(got) or (backends.is_attr(type(obj)) and dotted(got)):
        raise Failure("reached", f"{what}: rejected but the resource holds {got!r}")
    if case["entry"] in SINGLE and not (same(got, content) and same(mem, content)):
        raise Failure("changed", f"{what}: rejected but content is now {got!r} / {mem!r}")


def t_accept(case, scratch):
    """C12: the value is stored and read back exactly."""
    res, obj, content, path, t = setup(case, scratch)
    value = build(case)
    what = f"{case['entry']} of {case['json'][:80]} on {case['cls']} at {path}"
    cls = type(obj)
    if case["entry"] == "constructor":
        data = {"k": value} if isinstance(content, dict) else [value]
        try:
            new = res.open(cls, data=data)
        except Exception as e:  # noqa: BLE001
            raise Failure("rejected", f"{what}: raised {e!r}") from None
        if not same(plain(new), data):
            raise Failure("roundtrip", f"{what}: holds {plain(new)!r}")
        return
    want = json.loads(json.dumps(content))
    mt = want
    for p in path:
        mt = mt[p]
    model_entry(case["entry"], mt, json.loads(json.dumps(value)), case.get("keys"))
    try:
        with Ctx(obj, case.get("mode")):
            entry(case, t)(nav(obj, path), value)
            seen = res_view(obj)
    except Exception as e:  # noqa: BLE001
        raise Failure("rejected", f"{what}: raised {e!r}") from None
    fresh = res.open(cls)()
    for name, got in (("the same object", seen), ("a fresh object", fresh), ("the resource", res.read())):
        if not same(got, want):
            raise Failure("roundtrip", f"{what}: {name} holds {got!r}, expected {want!r}"[:900])


def res_view(obj):
    return obj()


def model_entry(name, t, v, keys):
    if keys:
        if name == "reset":
            t.clear()
            t.update(v)
        elif name == "setdefault":
            for k in v:
                t.setdefault(k, v[k])
        else:
            t.update(v)
    elif isinstance(t, dict):
        if name == "reset":
            t.clear()
        if name == "update_both":
            t["e"] = 1
        t["e" if name == "setitem_existing" else "k"] = v
    elif name in ("setitem", "slice", "slice_iter", "slice_step"):
        t[0] = v
    elif name == "insert":
        t.insert(0, v)
    elif name == "reset":
        t[:] = [v]
    else:
        t.append(v)


def t_alias(case, scratch):
    """C16: constructor data and unusual containers are copied."""
    fam, d, lst = next(p for p in backends.all_pairs() if p[1].__name__ == case["cls"])
    res = Resource(fam, scratch)
    inner, deep = [1, {"a": [2]}], {"b": [3, {}]}
    if case["how"] == "constructor":
        data = {"k": inner, "l": deep} if case["isdict"] else [inner, deep]
        want = json.loads(json.dumps(data))
        obj = res.open(d if case["isdict"] else lst, data=data)
        mem = plain(obj)
    else:
        wrap = WRAPS[case["how"]]
        obj = res.open(d if case["isdict"] else lst)
        data = wrap(inner)
        if case["isdict"]:
            obj["k"] = data
        else:
            obj.append(data)
        want = obj()
        mem = plain(obj)
    for x in (inner, deep):
        scribble(x)
    if hasattr(data, "d"):
        scribble(data.d)
    scribble(data)
    if not (same(plain(obj), want) and same(mem, want)):
        raise Failure("alias", f"{case['how']} data of {type(obj).__name__} is shared: {plain(obj)!r}, expected {want!r}")
    if case["how"] != "constructor" and not same(res.read(), want):
        raise Failure("alias", f"{case['how']}: resource {res.read()!r}, expected {want!r}")


# ----------------------------------------------------------------------- C18
ATTRNAMES = ["a", "foo", "x1", "Data", "_x", "dataset", "name_", "data_", "café", "filename_", "isvalid", "k"]
# Protected names that no object has an attribute for: see known-findings.
UNSET_PROTECTED = ["_name", "_sync", "_suspend_sync_"]


def t_attr(case, scratch):
    """Attribute access and item access agree for ordinary names."""
    fam, d, lst = next(p for p in backends.all_pairs() if p[1].__name__ == case["cls"])
    content, path, t = target(case["pos"])
    if case.get("twin"):
        content = json.loads(json.dumps(content))
        t = nav(content, path)
        other = twin(json.loads(case["json"]))
        if case.get("keys"):
            t.update(other)
        elif isinstance(t, dict):
            t["e"] = t["k"] = other
        else:
            t[0] = other
    res = Resource(fam, scratch)
    try:
        res.write(content)
    except Exception:  # noqa: BLE001
        if not case.get("twin"):
            raise
        raise Unstorable from None
    obj = res.open(d if isinstance(content, dict) else lst)
    name, value = case["name"], case["value"]
    what = f"attribute {name!r} of {case['cls']} at {path}"
    if name in d._PROTECTED_KEYS or name.startswith("__") or hasattr(d, name):
        return
    with Ctx(obj, case.get("mode")):
        node = nav(obj, path)
        for f in (lambda: getattr(node, name), lambda: delattr(node, name)):
            try:
                f()
            except AttributeError:
                continue
            except Exception as e:  # noqa: BLE001
                raise Failure("attr", f"{what}: missing key raised {e!r}") from None
            raise Failure("attr", f"{what}: missing key did not raise")
        if hasattr(node, name):
            raise Failure("attr", f"{what}: hasattr is true for a missing key")
        setattr(node, name, value)
        if not same(plain(node[name]), value) or not same(plain(getattr(node, name)), value):
            raise Failure("attr", f"{what}: set by attribute, item is {plain(node[name])!r}")
        if not same(plain(nav(obj, path)()[name]), value):
            raise Failure("attr", f"{what}: not part of the content")
        if name in vars(node):
            raise Failure("attr", f"{what}: stored on the object")
        node[name] = [value]
        if not same(plain(getattr(node, name)), [value]):
            raise Failure("attr", f"{what}: set by item, attribute is {plain(getattr(node, name))!r}")
        getattr(node, name).append({"in": 1})
        nav(obj, path)[name][1].inner = 5
        if not same(plain(node[name]), [value, {"in": 1, "inner": 5}]):
            raise Failure("attr", f"{what}: nested change lost: {plain(node[name])!r}")
    stored = res.read()
    for p in path:
        stored = stored[p]
    if not same(stored.get(name), [value, {"in": 1, "inner": 5}]):
        raise Failure("attr", f"{what}: resource holds {stored!r}")
    # The attribute is read from the resource just like the item.
    now = res.read()
    nav(now, path)[name] = ["outside", value]
    res.write(now)
    if not same(plain(getattr(node, name)), ["outside", value]):
        raise Failure("attr", f"{what}: changed outside, attribute is {plain(getattr(node, name))!r}")
    nav(now, path)["later"] = 1
    res.write(now)
    setattr(node, name, [value, 3])
    nav(now, path)[name] = [value, 3]
    if not same(res.read(), now):
        raise Failure("attr", f"{what}: set after a change outside, resource holds {res.read()!r}, expected {now!r}")
    delattr(node, name)
    if name in node or name in nav(res.open(type(obj)), path):
        raise Failure("attr", f"{what}: still there after del")


def own_names(cls):
    """Names that address the object itself: what it has, what can be set."""
    settable = {n for c in cls.__mro__ for n, x in vars(c).items() if isinstance(x, property) and x.fset is not None}
    return settable | cls._PROTECTED_KEYS


def t_protected(case, scratch):
    """Protected names address the object even if stored as items."""
    fam, d, lst = next(p for p in backends.all_pairs() if p[1].__name__ == case["cls"])
    content, path, t = target(case["pos"])
    res = Resource(fam, scratch)
    res.write(content)
    obj = res.open(d if isinstance(content, dict) else lst)
    name = case["name"]
    what = f"protected name {name!r} of {case['cls']} at {path}"
    node = nav(obj, path)
    missing = object()
    before = vars(node).get(name, missing)
    with Ctx(obj, case.get("mode")):
        for how in (
            lambda: node.__setitem__(name, {"v": 1}), lambda: node.update({name: {"v": 1}}),
            lambda: node.update(**{name: {"v": 1}}), lambda: node.setdefault(name, {"v": 1}),
        ):
            how()
        after = vars(node).get(name, missing)
        if after is not before:
            raise Failure("protected", f"{what}: item access replaced the attribute of the object")
        if before is not missing and getattr(node, name) is not before:
            raise Failure("protected", f"{what}: attribute no longer addresses the object")
        if before is missing and hasattr(type(node), name):
            got = getattr(node, name)
            if same(plain(got), {"v": 1}):
                raise Failure("protected", f"{what}: attribute is the stored item")
        node["other"] = [1]
        if not same(node()[name], {"v": 1}) or not same(node["other"](), [1]):
            raise Failure("protected", f"{what}: content is {node()!r}")
    want = json.loads(json.dumps(content))
    mt = want
    for p in path:
        mt = mt[p]
    mt[name] = {"v": 1}
    mt["other"] = [1]
    if not same(res.read(), want):
        raise Failure("protected", f"{what}: resource holds {res.read()!r}, expected {want!r}")
    if name in own_names(type(node)):
        try:
            setattr(node, name, object.__getattribute__(node, name))
        except Exception:  # noqa: BLE001
            pass
        if not same(node()[name], {"v": 1}):
            raise Failure("protected", f"{what}: setting the attribute changed the item")
    # Setting and deleting a protected name by attribute never touches items.
    if before is missing and not hasattr(type(node), name):
        marker = object()
        try:
            setattr(node, name, marker)
        except Exception:  # noqa: BLE001
            return
        if not same(node()[name], {"v": 1}):
            raise Failure("protected", f"{what}: setting the attribute changed the item")
        try:
            delattr(node, name)
        except Exception:  # noqa: BLE001
            return
        if not same(node()[name], {"v": 1}):
            raise Failure("protected", f"{what}: deleting the attribute changed the item")


def t_unset(case, scratch):
    """A protected name that is not set on the object never reads an item."""
    res, obj, content, path, t = setup(case, scratch)
    node = nav(obj, path)
    node[case["name"]] = {"v": 1}
    try:
        got = getattr(node, case["name"])
    except AttributeError:
        return
    if same(plain(got), {"v": 1}):
        raise Failure("protected", f"attribute {case['name']} of {case['cls']} at {path} reads the stored item")


# ----------------------------------------------------------------------- C19
def observe(name, scratch, wrap="v", ops=None):
    """Outcomes of operations involving a value, as comparable data."""
    out = []
    from synced_collections.backends.collection_json import JSONAttrDict, JSONDict, JSONList

    def attempt(label, f):
        if ops and label not in ops:
            return
        try:
            r = plain(f())
            out.append((label, "ok", repr(r) if not callable(r) else "callable"))
        except RecursionError:
            out.append((label, "recursion"))
        except Exception as e:  # noqa: BLE001
            out.append((label, type(e).__name__))

    def val():
        return WRAPS[wrap](NAMED[name]())

    def fresh(cls, data):
        res = Resource("json", scratch)
        res.write(data)
        return res, res.open(cls)

    def via(cls, data, f):
        res, o = fresh(cls, data)
        f(o)
        return [o(), res.read(), [type(x).__name__ for x in (o._data.values() if isinstance(o._data, dict) else o._data)]]

    attempt("set", lambda: via(JSONDict, {}, lambda o: o.__setitem__("k", val())))
    attempt("attrset", lambda: via(JSONAttrDict, {}, lambda o: o.__setitem__("k", val())))
    attempt("append", lambda: via(JSONList, [], lambda o: o.append(val())))
    attempt("reset_d", lambda: via(JSONDict, {"k": {"a": 1}}, lambda o: o.reset({"k": val()})))
    attempt("reset_l", lambda: via(JSONDict, {"k": [1]}, lambda o: o.reset({"k": val()})))
    attempt("reset_ll", lambda: via(JSONList, [[1], {"a": 2}], lambda o: o.reset([val(), val()])))
    attempt("resetself_d", lambda: via(JSONDict, {"k": 1}, lambda o: o.reset(val())))
    attempt("resetself_l", lambda: via(JSONList, [1], lambda o: o.reset(val())))
    attempt("extend", lambda: via(JSONList, [1], lambda o: o.extend(val())))
    attempt("update", lambda: via(JSONDict, {"k": {"a": 1}}, lambda o: o.update(k=val())))
    attempt("updateself", lambda: via(JSONDict, {"k": {"a": 1}}, lambda o: o.update(val())))
    attempt("inner", lambda: via(JSONDict, {"k": [1]}, lambda o: o["k"].insert(0, val())))

    from synced_collections import utils, validators

    for vname in ("no_dot_in_key", "require_string_key", "json_format_validator"):
        attempt(vname, lambda: getattr(validators, vname)(val()))
    attempt("encode", lambda: json.dumps(val(), cls=utils.SyncedCollectionJSONEncoder))
    for fam, d, _ in backends.other_pairs():
        def other(fam=fam, d=d):
            res = Resource(fam, scratch)
            o = res.open(d)
            o["k"] = val()
            return [o(), res.read()]
        attempt(fam, other)
    return out


def in_child(f):
    """Run f in a forked child, return its JSON-able result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = json.dumps(f()).encode()
        except BaseException as e:  # noqa: BLE001
            data = json.dumps({"childerror": repr(e)}).encode()
        with os.fdopen(w, "wb") as fh:
            fh.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return json.loads(data)


_FRESH = {}


def t_history(case, scratch):
    """C19: same outcome after a warm-up as in a fresh process."""
    name, wrap = case["name"], case.get("wrap", "v")
    if (name, wrap) not in _FRESH:
        _FRESH[(name, wrap)] = in_child(lambda: observe(name, scratch, wrap))
    base = _FRESH[(name, wrap)]

    def warm():
        for w, ww in case["warm"]:
            observe(w, scratch, ww)
        return observe(name, scratch, wrap)

    got = in_child(warm)
    if got != base:
        diff = [(a, b) for a, b in zip(base, got) if a != b] or [(base, got)]
        raise Failure("history", f"{name} ({wrap}) after {case['warm']}: {diff[0][1]} instead of {diff[0][0]}"[:900])


def t_share(case, scratch):
    """C16: synced collections given as data are copied."""
    fam, d, lst = next(p for p in backends.all_pairs() if p[1].__name__ == case["cls"])
    sfam, sd, _ = next(p for p in backends.all_pairs() if p[1].__name__ == case["from"])
    other = Resource(sfam, scratch)
    inner = {"y": [1, {"z": [2]}]}
    other.write({"x": inner, "l": [inner]})
    src = other.open(sd)
    res = Resource(fam, scratch)
    for given in (src["x"], src["l"], src):
        data = {"k": given, "m": [given]} if case["isdict"] else [given, {"m": given}]
        want = plain(data)
        cls = d if case["isdict"] else lst
        if case["how"] == "constructor":
            obj = res.open(cls, data=data)
        else:
            obj = res.open(cls)
            ENTER[case["how"]](obj, data)
        before, top = src(), list(want) if case["isdict"] else range(len(want))
        for k in top:
            scribble(plain(obj[k]))
            node = obj[k]
            for step in (0, 1):
                if isinstance(plain(node), dict):
                    node["w"] = {"n": step}
                    node = node[next(iter(k for k in node if k != "w"))]
                else:
                    node.append([step])
                    node = node[0]
        if not same(src(), before) or not same(other.read(), before):
            raise Failure("alias", f"{case['how']} of {case['cls']}: a change of the copy changed the original: {src()!r}, expected {before!r}")
        now = obj()
        src["x"]["y"].append(9)
        src["l"].append(9)
        if case["how"] != "constructor" and not same(obj(), now) or not same(plain(obj), plain(now)):
            raise Failure("alias", f"{case['how']} of {case['cls']}: a change of the original changed the copy: {obj()!r}, expected {now!r}")


def _fill_dict(o, data):
    for k, v in data.items():
        o[k] = v


ENTER = {
    "setitem": lambda o, data: _fill_dict(o, data) if isinstance(data, dict) else [o.append(None) or o.__setitem__(-1, v) for v in data],
    "bulk": lambda o, data: o.update(data) if isinstance(data, dict) else o.extend(data),
    "reset": lambda o, data: o.reset(data),
    "slice": lambda o, data: o.update(**data) if isinstance(data, dict) else o.__setitem__(slice(0, None), data),
    "single": lambda o, data: [o.setdefault(k, v) for k, v in data.items()] if isinstance(data, dict) else [o.insert(len(o), v) for v in data],
}
TESTS = {
    "reject": t_reject, "accept": t_accept, "alias": t_alias, "attr": t_attr, "protected": t_protected,
    "history": t_history, "unset": t_unset, "share": t_share,
}


def run_case(case, scratch):
    try:
        TESTS[case["test"]](case, scratch)
    except Unstorable:
        pass
    except Failure:
        raise
    except Exception as e:  # noqa: BLE001
        if case["test"] not in ("attr", "protected", "unset"):
            raise
        raise Failure("attr", f"{case['test']} {case['name']!r} of {case['cls']}: raised {e!r}") from e


def modes(cls):
    return [None] + (["obj", "cls"] if "Buffered" in cls.__name__ else [])


def cases(prop, rng):
    """All cases in a deterministic, shuffled order."""
    out = []
    if prop in ("C11", "C12"):
        for fam, d, lst in backends.all_pairs():
            attr = backends.is_attr(d)
            for pos in POS:
                _, path, t = target(pos)
                entries = [e for e in (DICT_ENTRY if isinstance(t, dict) else LIST_ENTRY)]
                if not attr or not isinstance(t, dict):
                    entries = [e for e in entries if e != "attr"]
                entries = [e for e in entries if e != "ior" or hasattr(d, "__ior__")]
                if not path:
                    entries.append("constructor")
                for mode in modes(d):
                    base = {"kind": "values", "cls": d.__name__, "pos": pos, "mode": mode}
                    if prop == "C11":
                        names = [(n, "value") for n in NONJSON] + [(n, "key") for n in BADKEY]
                        if attr:
                            names += [(n, "key") for n in DOTKEY]
                        for n, cat in names:
                            for w in WRAPS:
                                if "objarr" in w and np is None:
                                    continue
                                if fam == "zarr" and cat == "key" and n.startswith("np"):
                                    continue
                                for e in entries:
                                    out.append({**base, "test": "reject", "entry": e, "name": n, "wrap": w, "cat": cat})
                            if cat == "key" and isinstance(t, dict):
                                for e in KEY_ENTRY:
                                    out.append({**base, "test": "reject", "entry": e, "name": n, "keys": True, "cat": cat})
                    else:
                        vals = JSONVALUES + BIGINTS + ([] if attr else DOTTED) + NULKEY
                        for v in vals:
                            twins = [False] if same(twin(v), v) else [False, True]
                            for e in entries:
                                for tw in twins:
                                    if not tw or e not in ("setdefault", "constructor"):
                                        out.append({**base, "test": "accept", "entry": e, "json": json.dumps(v), "twin": tw})
                            if isinstance(v, dict) and isinstance(t, dict):
                                for e in KEY_ENTRY:
                                    for tw in twins:
                                        if not tw or e != "setdefault":
                                            out.append({**base, "test": "accept", "entry": e, "json": json.dumps(v), "keys": True, "twin": tw})
    elif prop == "C16":
        for fam, d, lst in backends.all_pairs():
            for isdict in (True, False):
                for how in ["constructor"] + [w for w in WRAPS if "objarr" not in w]:
                    out.append({"kind": "values", "test": "alias", "cls": d.__name__, "isdict": isdict, "how": how})
                for how in ["constructor", *ENTER]:
                    for src in (d.__name__, "JSONDict", "MemoryBufferedJSONAttrDict"):
                        out.append({"kind": "values", "test": "share", "cls": d.__name__, "from": src, "isdict": isdict, "how": how})
    elif prop == "C18":
        for fam, d, lst in backends.all_pairs(json_only=True):
            if not backends.is_attr(d):
                continue
            for pos in POS:
                _, path, t = target(pos)
                if not isinstance(t, dict):
                    continue
                for mode in modes(d):
                    base = {"kind": "values", "cls": d.__name__, "pos": pos, "mode": mode}
                    for n in ATTRNAMES:
                        for v in (1, None, {"q": 1}, [1]):
                            out.append({**base, "test": "attr", "name": n, "value": v})
                    for n in sorted(own_names(d)) + ["__x__", "__dict__x", "keys", "update", "clear", "get"]:
                        out.append({**base, "test": "protected", "name": n})
                    for n in UNSET_PROTECTED:
                        out.append({**base, "test": "unset", "name": n})
    elif prop == "C19":
        every = sorted(NAMED)
        combos = [(n, w) for n in every for w in ("v", "in_list", "in_dict")]
        for n, w in combos:
            order = [c for c in combos]
            rng.shuffle(order)
            out.append({"kind": "values", "test": "history", "name": n, "wrap": w, "warm": order[:40]})
            out.append({"kind": "values", "test": "history", "name": n, "wrap": w, "warm": [(m, "v") for m in every]})
        for n in every:
            for m in every:
                out.append({"kind": "values", "test": "history", "name": n, "warm": [(m, "v")]})
    if prop != "C19":
        rng.shuffle(out)
    return out


def known(case):
    """Identifies cases of recorded defects (see known-findings.json)."""
    if case.get("test") == "reject" and case["cls"] in ("ZarrDict", "ZarrList") and case.get("cat") == "value":
        return "zarr-unencodable"
    if case.get("test") == "reject" and case["cls"] in ("ZarrDict", "ZarrList") and case.get("wrap", "").startswith("in_objarr"):
        return "zarr-object-array"
    if case.get("test") == "accept" and case["cls"].startswith("MongoDB"):
        v = json.loads(case["json"])
        if v in BIGINTS:
            return "mongodb-int64"
        if v in NULKEY:
            return "mongodb-nul-key"
        if v == "\ud800":
            return "mongodb-surrogate"
    if case.get("test") == "unset":
        return "attr-unset-protected"
    return None


def explore(prop, seed, worker, nworkers, deadline, clock, scratch, stats, fail):
    # The known finding is exercised once so that it is reported.
    for n, case in enumerate(cases(prop, random.Random(f"{prop}-{seed}"))):
        if n % nworkers != worker:
            continue
        if clock() > deadline:
            stats["cut"] = True
            break
        k = known(case)
        if k and k in stats.setdefault("known", {}):
            continue
        stats["evaluations"] += 1
        stats["distinct"].case(case)
        try:
            run_case(case, scratch)
        except Failure as f:
            if k:
                stats["known"][k] = str(f)
                continue
            if fail(case, f):
                return
        except Exception:  # noqa: BLE001
            machine.trouble(stats)
