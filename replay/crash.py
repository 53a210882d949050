"""Crash states of saves and flushes (C08).

A crash of the process leaves what the kernel has at that instant.  While an
operation runs, the bytes of every data file are sampled at every line executed
in the library (and in file helpers of the standard library) and in the middle
of every write, and each sample must be a complete old or new content.  The same
holds when a file function of the operating system fails meanwhile.
"""
import builtins
import errno
import io
import json
import os
import random
import sys

import backends
from backends import ABSENT, Resource, same
import machine
from machine import Failure
from values import Liar

HELPERS = ("shutil.py", "tempfile.py", "pathlib.py", "os.py", "fileinput.py")

FAULTS = {"rename": ("replace", "rename"), "sync": ("fsync", "fdatasync")}
FAULT_CASES = [["rename", "EXDEV"], ["rename", "EACCES"], ["rename", "EBUSY"], ["sync", "EIO"], ["write", "ENOSPC"]]


class Splitting:
    """An unbuffered binary or text file whose writes happen in two parts."""

    def __init__(self, raw, text, sample, encoding, full=False):
        self._raw, self._text, self._sample, self._full = raw, text, sample, full
        self._enc = encoding or "utf-8"

    def write(self, data):
        blob = data.encode(self._enc) if self._text else bytes(data)
        half = len(blob) // 2
        self._raw.write(blob[:half])
        self._sample()
        if self._full:
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        self._raw.write(blob[half:])
        self._sample()
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._raw.close()
        self._sample()

    def __getattr__(self, name):
        return getattr(self._raw, name)


class Sampler:
    """Samples data files at every step of the code inside the block."""

    def __init__(self, paths, scratch, crash_at=None, fault=None):
        self.paths, self.scratch = paths, scratch
        self.fault = fault or [None, None]
        self.seen = {p: [] for p in paths}
        self.count = 0
        self.crash_at = crash_at

    def sample(self):
        self.count += 1
        if self.crash_at is not None and self.count == self.crash_at:
            os._exit(77)
        if self.crash_at is not None:
            return
        for p in self.paths:
            try:
                fd = os.open(p, os.O_RDONLY)
                try:
                    size = os.fstat(fd).st_size
                    raw = os.pread(fd, size + 1, 0)
                finally:
                    os.close(fd)
            except FileNotFoundError:
                raw = None
            s = self.seen[p]
            if not s or s[-1] != raw:
                s.append(raw)

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(backends.REPO) or name.endswith(HELPERS):
            self.sample()
            return self.trace
        return None

    def __enter__(self):
        self.real = builtins.open

        def opening(file, mode="r", buffering=-1, encoding=None, *a, **kw):
            if isinstance(file, (str, os.PathLike)) and str(file).startswith(self.scratch):
                if any(c in mode for c in "wax+"):
                    raw = self.real(file, mode.replace("t", "").replace("b", "") + "b", 0)
                    self.sample()
                    full = self.fault[0] == "write"
                    return Splitting(raw, "b" not in mode, self.sample, encoding, full)
            return self.real(file, mode, buffering, encoding, *a, **kw)

        def failing(*a, **kw):
            self.sample()
            code = getattr(errno, self.fault[1])
            raise OSError(code, os.strerror(code))

        builtins.open = io.open = opening
        self.kept = {n: getattr(os, n) for n in FAULTS.get(self.fault[0], ())}
        for n in self.kept:
            setattr(os, n, failing)
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        builtins.open = io.open = self.real
        for n, function in self.kept.items():
            setattr(os, n, function)
        if self.crash_at is None:
            self.sample()


BIG = {"big": ["x" * 200, {"y": [1, 2, 3] * 20}]}
OPS = {
    "set": lambda o: o.__setitem__("k", BIG),
    "small": lambda o: o.reset({"s": 1}),
    "clear": lambda o: o.clear(),
    "nested": lambda o: o["n"].append(BIG),
    "del": lambda o: o.__delitem__("n"),
    "update": lambda o: o.update(a=[1], b={"c": "d" * 100}),
}
LOPS = {
    "append": lambda o: o.append(BIG),
    "small": lambda o: o.reset([1]),
    "clear": lambda o: o.clear(),
    "nested": lambda o: o[1].append(BIG),
    "del": lambda o: o.__delitem__(1),
    "extend": lambda o: o.extend([BIG, BIG]),
}


def bad_set(o, v):
    if hasattr(o, "keys"):
        o["bad"] = v
    else:
        o.append(v)


def bad_inject(o, v):
    if hasattr(o, "keys"):
        o._data["bad"] = v
    else:
        o._data.append(v)
    o._save()


def bad_nested(o, v):
    c = o["n"] if hasattr(o, "keys") else o[1]
    c._data.append([v])
    c._save()


BAD = {"bad_set": bad_set, "bad_inject": bad_inject, "bad_nested": bad_nested}
BADVALUES = {
    "liar": lambda: Liar(str), "object": object, "set": lambda: {1}, "tuplekey": lambda: {(1, 2): 3},
    "complex": lambda: 1j, "bytes": lambda: b"x",
}


def run_case(case, scratch):
    d, lst = backends.pair(case["cls"])
    cls = d if case["isdict"] else lst
    was = cls._threading_support_is_active
    if case["threading"]:
        cls.enable_multithreading()
    else:
        cls.disable_multithreading()
    try:
        _run(case, scratch, cls)
    finally:
        if was:
            cls.enable_multithreading()
        else:
            cls.disable_multithreading()


def _run(case, scratch, cls):
    files = []
    for i in range(case["nfiles"]):
        res = Resource("json", scratch, case["wc"])
        if case["present"]:
            res.write({"n": [1, "old" * 50], "i": i} if case["isdict"] else [i, [1, "old" * 50]])
        files.append(res)
    objs = [r.open(cls) for r in files]
    old = [r.read() for r in files]
    bad = case["op"] in BAD
    table = OPS if case["isdict"] else LOPS

    def work():
        ctx = None
        if case["mode"] == "obj":
            ctxs = [o.buffered for o in objs]
        elif case["mode"] == "cls":
            ctxs = [cls.buffer_backend()]
        else:
            ctxs = []
        entered = []
        err = None
        try:
            for ctx in ctxs:
                ctx.__enter__()
                entered.append(ctx)
            for o in objs:
                try:
                    if bad:
                        BAD[case["op"]](o, BADVALUES[case["value"]]())
                    else:
                        table[case["op"]](o)
                except Exception as e:  # noqa: BLE001
                    err = err or e
            if case.get("force"):
                cap = cls.get_buffer_capacity()
                try:
                    cls.set_buffer_capacity(-1)
                finally:
                    cls.set_buffer_capacity(cap)
        except Exception as e:  # noqa: BLE001
            err = err or e
        finally:
            while entered:
                try:
                    entered.pop().__exit__(None, None, None)
                except Exception as e:  # noqa: BLE001
                    err = err or e
        return err

    paths = [r.path for r in files]
    what = f"{case['op']} on {cls.__name__} (mode {case['mode']}, write_concern {case['wc']}, threading {case['threading']})"
    if case.get("crash_at"):
        pid = os.fork()
        if pid == 0:
            try:
                with Sampler(paths, scratch, case["crash_at"]):
                    work()
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        for i, r in enumerate(files):
            try:
                got = r.read(strict=True)
            except ValueError as e:
                raise Failure("crash", f"{what}: after a crash file {i} is not valid JSON: {e}") from None
            fresh = r.open(cls)
            if got is not ABSENT and not same(fresh(), got):
                raise Failure("crash", f"{what}: a new object shows {fresh()!r}")
            if case["isdict"]:
                fresh["after"] = 1
                ok = r.read().get("after") == 1
            else:
                fresh.append("after")
                ok = r.read()[-1] == "after"
            if not ok:
                raise Failure("crash", f"{what}: file {i} not writable after a crash")
        return
    if case.get("fault"):
        what += f" while {case['fault'][0]} fails with {case['fault'][1]}"
        goal = []
        for r, content in zip(files, old):
            twin = Resource("json", scratch, case["wc"])
            if content is not ABSENT:
                twin.write(content)
            table[case["op"]](twin.open(cls))
            goal.append(twin.read())
        with Sampler(paths, scratch, fault=case["fault"]) as s:
            work()
        for i, r in enumerate(files):
            for raw in s.seen[r.path]:
                check_state(raw, [old[i], goal[i]], i, what)
        return
    with Sampler(paths, scratch) as s:
        err = work()
    case.setdefault("_samples", s.count)
    if bad:
        if err is None:
            return  # Accepted and stored: nothing unserializable about it.
        for i, r in enumerate(files):
            for raw in s.seen[r.path]:
                check_state(raw, [old[i]], i, what)
            try:
                got = r.read(strict=True)
            except ValueError:
                raise Failure("damaged", f"{what}: file {i} is not valid JSON") from None
            if err is not None and not same(got, old[i]):
                raise Failure("damaged", f"{what} with {case['value']}: file {i} holds {got!r} instead of {old[i]!r}"[:600])
        return
    if err is not None:
        raise Failure("crash", f"{what}: raised {err!r}")
    for i, r in enumerate(files):
        new = r.read()
        for raw in s.seen[r.path]:
            check_state(raw, [old[i], new], i, what)


def check_state(raw, allowed, i, what):
    if raw is None:
        state = ABSENT
    else:
        try:
            state = json.loads(raw)
        except ValueError:
            raise Failure("crash", f"{what}: at some instant file {i} holds the invalid content {raw[:80]!r}") from None
    if not any(same(state, a) for a in allowed):
        raise Failure("crash", f"{what}: at some instant file {i} holds {state!r}"[:600])


def cases():
    for _, d, _ in backends.all_pairs(True):
        for isdict in (True, False):
            for threading in (True, False):
                for wc in (True, False):
                    for mode in [None] + (["obj", "cls"] if "Buffered" in d.__name__ else []):
                        for present in (True, False):
                            base = {
                                "kind": "crash", "cls": d.__name__, "isdict": isdict, "threading": threading,
                                "wc": wc, "mode": mode, "present": present, "nfiles": 3 if mode == "cls" else 1,
                            }
                            if wc or threading:
                                for op in OPS if isdict else LOPS:
                                    if op in ("nested", "del") and not present:
                                        continue
                                    yield {**base, "op": op}
                                    if mode:
                                        yield {**base, "op": op, "force": True}
                                    for fault in FAULT_CASES:
                                        yield {**base, "op": op, "fault": fault}
                                    for k in (5, 12, 20, 30, 45, 60, 80):
                                        yield {**base, "op": op, "crash_at": k}
                            if present:
                                for op in BAD:
                                    for v in BADVALUES:
                                        yield {**base, "op": op, "value": v}


def explore(prop, seed, worker, nworkers, deadline, clock, scratch, stats, fail):
    todo = list(cases())
    random.Random(f"{prop}-{seed}").shuffle(todo)
    for n, case in enumerate(todo):
        if n % nworkers != worker:
            continue
        if clock() > deadline:
            stats["cut"] = True
            break
        stats["evaluations"] += 1
        stats["distinct"].case(case)
        try:
            run_case(case, scratch)
        except Failure as f:
            if fail(case, f):
                return
        except Exception:  # noqa: BLE001
            machine.trouble(stats)
        finally:
            case.pop("_samples", None)
