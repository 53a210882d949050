"""Compare the interpreter of pyvc with CPython on the programs of programs.py.

    /opt/venv/bin/python selftest/semantics.py

A program that is outside of the subset is listed; a different outcome is an error.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "pyvc")]
import main  # noqa: F401,E402  (sets the path of the solver and of the library)
import core  # noqa: E402
import optask  # noqa: E402
import programs  # noqa: E402
from core import DictObj, ListObj, SBool, SInt, Sym, Unsupported  # noqa: E402
from interp import PyRaise  # noqa: E402
from upper import Upper  # noqa: E402


def plain(v):
    if isinstance(v, ListObj):
        items = v.content.concrete()
        if items is None:
            raise Unsupported("list that is not concrete")
        return [plain(x) for x in items]
    if isinstance(v, DictObj):
        keys = v.content.concrete_keys()
        if keys is None:
            raise Unsupported("mapping that is not concrete")
        return {str(k).removeprefix("str:"): plain(v.content.get(k)) for k in keys}
    if isinstance(v, SBool):
        return core.P().fork(v.term, "value")
    if isinstance(v, SInt):
        e = core.z3.simplify(v.term)
        if core.z3.is_int_value(e):
            return e.as_long()
        raise Unsupported("value that is not concrete")
    if isinstance(v, Sym):
        raise Unsupported("term")
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


class World(Upper):
    def in_scope(self, fn):
        return fn.__module__ == "programs" or super().in_scope(fn)

    def class_in_scope(self, cls):
        return cls.__module__ == "programs" or super().class_in_scope(cls)


def interpreted(fn):
    found = []

    def task(p):
        w = World(optask.classes()["JSONDict"], faults=False, receiver=False)
        w.me = w.root = None
        try:
            found.append(("returns", plain(w.ip.run_function(fn, [], {}, None))))
        except PyRaise as e:
            found.append(("raises", e.exc.cls.__name__))
        return "normal"

    info = core.explore(fn.__name__, task, core.Results())
    return found, info["unsupported"]


def native(fn):
    try:
        return ("returns", plain(fn()))
    except Exception as e:
        return ("raises", type(e).__name__)


def run():
    same, outside, wrong = 0, [], []
    for name, fn in sorted(vars(programs).items()):
        if not name.startswith("p_"):
            continue
        want = native(fn)
        found, unsupported = interpreted(fn)
        if unsupported:
            outside.append((name, unsupported[0]))
        elif want not in found or len(found) != 1:
            wrong.append((name, want, found))
        else:
            same += 1
    for name, why in outside:
        print("outside of the subset:", name, why)
    for name, want, found in wrong:
        print("DIFFERENT:", name, "CPython", want, "interpreter", found)
    print(f"{same} programs agree, {len(outside)} outside of the subset, {len(wrong)} different")
    return 1 if wrong else 0


if __name__ == "__main__":
    sys.exit(run())
