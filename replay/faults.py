"""Operations hit by an I/O error (C01, C02), and the injection of errors;
directories in which files are only read (C17).

An operation that returns although a file could not be read or written has to
have its usual result all the same.
"""
import contextlib
import copy
import json
import os
import random
import shutil

import backends
import gen
import machine
from backends import Resource, plain, same
from machine import Failure


class Inject:
    """Make the n-th use of a facility fail inside the block."""

    def __init__(self, fault, nth, scratch):
        self.fault, self.nth, self.scratch = fault, nth, scratch
        self.fired = 0

    def _hit(self):
        self.nth -= 1
        if self.nth == 0:
            self.fired += 1
            return True
        return False

    def __enter__(self):
        import builtins

        self.saved = []

        def patch(mod, name, f):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, f)

        if self.fault in ("open_read", "open_write"):
            real = builtins.open
            writing = self.fault == "open_write"

            def opening(file, mode="r", *a, **kw):
                if isinstance(file, str) and file.startswith(self.scratch) and any(c in mode for c in "wax+") == writing and self._hit():
                    raise PermissionError(13, "injected", file)
                return real(file, mode, *a, **kw)

            patch(builtins, "open", opening)
        elif self.fault == "replace":
            for name in ("replace", "rename"):
                real_r = getattr(os, name)

                def replacing(*a, _r=real_r, **kw):
                    if self._hit():
                        raise OSError(28, "injected")
                    return _r(*a, **kw)

                patch(os, name, replacing)
        elif self.fault in ("dumps", "loads"):
            real_j = getattr(json, self.fault)

            def coding(*a, **kw):
                if self._hit():
                    raise ValueError("injected")
                return real_j(*a, **kw)

            patch(json, self.fault, coding)
        elif self.fault == "stat":
            real_s = os.stat

            def statting(*a, **kw):
                if a and isinstance(a[0], str) and a[0].startswith(self.scratch) and self._hit():
                    raise PermissionError(13, "injected")
                return real_s(*a, **kw)

            patch(os, "stat", statting)
        return self

    def __exit__(self, *a):
        for mod, name, f in reversed(self.saved):
            setattr(mod, name, f)


def tree(top):
    """Everything below a directory."""
    out = {}
    for at, dirs, files in os.walk(top):
        for n in dirs + files:
            p = os.path.join(at, n)
            st = os.lstat(p)
            out[os.path.relpath(p, top)] = (st.st_mode, st.st_ino, st.st_size, st.st_mtime_ns, n in files and open(p, "rb").read())
    return out


def run_tree(case, scratch):
    d, lst = next((p[1], p[2]) for p in backends.all_pairs(json_only=True) if p[1].__name__ == case["cls"])
    cls = d if case["isdict"] else lst
    top = os.path.join(scratch, "top")
    os.mkdir(top)
    try:
        if case["text"] is not None:
            with open(os.path.join(top, "x.json"), "w") as f:
                f.write(case["text"])
        obj = cls(os.path.join(top, case["file"]), case["wc"])
        before = tree(top)
        ctx = obj.buffered if case["mode"] == "obj" else cls.buffer_backend() if case["mode"] == "cls" else contextlib.nullcontext()
        with ctx:
            for _ in range(2):
                try:
                    machine.lookup(({} if case["isdict"] else []), case["name"])[0](obj, *copy.deepcopy(case["args"]))
                except Exception:  # noqa: BLE001
                    pass
        if tree(top) != before:
            raise Failure("readonly", f"{case['name']}{tuple(case['args'])!r} on {cls.__name__} ({case['mode']}) of {case['file']}: directory changed from {before!r} to {tree(top)!r}")
    finally:
        shutil.rmtree(top)


def tree_cases():
    for fam, d, lst in backends.all_pairs(json_only=True):
        for isdict, text in ((True, '{"a":  1, "l": [1]}'), (False, '[1,  [2]]'), (True, " {} "), (False, "[ ]"), (True, None), (False, None), (True, "{"), (False, "")):
            for name, args in gen.reads_for({"a": 1} if isdict else [1, 2], backends.is_attr(d)):
                for mode in (None, "obj", "cls") if "Buffered" in d.__name__ else (None,):
                    for file in ("x.json", "missing/x.json", "missing/deep/x.json"):
                        if text is None or file == "x.json":
                            yield {"kind": "fault", "tree": True, "cls": d.__name__, "isdict": isdict, "text": text, "file": file, "name": name, "args": args, "mode": mode, "wc": len(name) % 2 == 1}


def run_case(case, scratch):
    if "tree" in case:
        return run_tree(case, scratch)
    d, lst = next((p[1], p[2]) for p in backends.all_pairs(json_only=True) if p[1].__name__ == case["cls"])
    init = case["init"]
    res = Resource("json", scratch)
    res.wc = case.get("wc", False)
    res.write(init)
    obj = res.open(d if isinstance(init, dict) else lst)
    try:
        node = obj
        for p in case["path"]:
            node = node[p]
    except Exception as e:  # noqa: BLE001
        raise Failure("fault", f"{type(obj).__name__}: reading {case['path']} of a file that holds {init!r} raises {e!r}") from None
    model = copy.deepcopy(init)
    t = gen.at(model, case["path"])
    real, ref = machine.lookup(t, case["name"])[:2]
    what = f"{case['name']}{tuple(case['args'])!r} on {type(node).__name__} at {case['path']} with fault {case['fault']}/{case['nth']}"
    with Inject(case["fault"], case["nth"], scratch) as hit:
        try:
            got = real(node, *copy.deepcopy(case["args"]))
        except Exception:  # noqa: BLE001
            return
    if not hit.fired:
        return
    try:
        want = ref(t, *copy.deepcopy(case["args"]))
    except Exception as e:  # noqa: BLE001
        raise Failure("fault", f"{what}: did not raise, the built-in type raises {e!r}") from None
    now = res.read()
    if not same(now, model):
        raise Failure("fault", f"{what}: returned normally but the resource holds {now!r}, expected {model!r}")
    if case["name"] not in ("popitem", "repr", "str") and not same(plain(got), plain(want)):
        raise Failure("fault", f"{what}: returned {plain(got)!r}, expected {want!r}")


def cases(prop):
    if prop == "C17":
        yield from tree_cases()
        return
    for fam, d, lst in backends.all_pairs(json_only=True):
        for init in ({"a": 1, "n": {"x": 1}, "l": [1, 2]}, [1, {"x": 1}, [1, 2]]):
            for path in gen.paths(init):
                t = gen.at(init, path)
                attr = backends.is_attr(d)
                ops = gen.ops_for(t, attr) if prop == "C01" else gen.reads_for(t, attr)
                for name, args in ops:
                    for fault in ("open_read", "loads", *(("open_write", "replace", "dumps") if prop == "C01" else ())):
                        for nth in (1, 2):
                            base = {"kind": "fault", "cls": d.__name__, "init": init, "path": path, "name": name, "args": args, "fault": fault, "nth": nth}
                            yield base
                            if prop == "C01":
                                yield {**base, "wc": True}


def explore(prop, seed, worker, nworkers, deadline, clock, scratch, stats, fail):
    every = list(cases(prop))
    random.Random(f"faults-{prop}-{seed}").shuffle(every)
    start = clock()
    for n, case in enumerate(every):
        if n % nworkers != worker:
            continue
        if clock() > start + (deadline - start) * 0.3:
            stats["cut"] = True
            return
        stats["evaluations"] += 1
        stats["distinct"].case(case)
        try:
            run_case(case, scratch)
        except Failure as f:
            if fail(case, f):
                return
        except Exception:  # noqa: BLE001
            machine.trouble(stats)
