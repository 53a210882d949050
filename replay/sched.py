"""Threads under a deterministic scheduler (C09, C10, C13, C14).

Only one thread runs at a time.  It can be preempted at every line (or every
opcode) executed in the library, and blocks cooperatively on locks created by
the library, so that a schedule is a list of preemption points, deadlocks are
detected and held locks are visible.
"""
import _thread
import copy
import itertools
import json
import multiprocessing  # noqa: F401  (import before patching the lock factories)
import os
import random
import sys
import threading

_REPO = os.environ.get("VERIF_REPO", "/repo")
_real_rlock, _real_lock = threading.RLock, threading.Lock
LOCKS = set()  # held locks
CURRENT = None  # the active Sched


class Abort(BaseException):
    """Unwinds the threads of an abandoned run."""


class CoopLock:
    """A lock that cooperates with the scheduler; a normal one outside of it."""

    reentrant = True

    def __init__(self):
        self.owner = None
        self.count = 0
        self._cond = threading.Condition(_real_lock())

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = CURRENT
        if s is not None and s.managed(me):
            if self.owner == me and self.reentrant:
                self.count += 1
                return True
            while self.owner is not None:
                if not blocking or timeout == 0:
                    return False
                s.block(self)
            self.owner, self.count = me, 1
            LOCKS.add(self)
            return True
        with self._cond:
            if self.owner == me and self.reentrant:
                self.count += 1
                return True
            ok = self._cond.wait_for(
                lambda: self.owner is None, None if blocking and timeout < 0 else max(timeout, 0)
            )
            if ok:
                self.owner, self.count = me, 1
                LOCKS.add(self)
            return ok

    def release(self):
        me = _thread.get_ident()
        s = CURRENT
        if s is not None and s.aborted:
            return
        if self.owner is None or (self.reentrant and self.owner != me):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            LOCKS.discard(self)
            if s is not None and s.managed(me):
                self.owner = None
            else:
                with self._cond:
                    self.owner = None
                    self._cond.notify_all()

    def reset(self):
        self.owner, self.count = None, 0
        LOCKS.discard(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class CoopPlainLock(CoopLock):
    reentrant = False


def _from_repo():
    return sys._getframe(2).f_code.co_filename.startswith(_REPO)


def _rlock():
    return CoopLock() if _from_repo() else _real_rlock()


def _lock():
    return CoopPlainLock() if _from_repo() else _real_lock()


threading.RLock, threading.Lock = _rlock, _lock

import backends  # noqa: E402
import gen  # noqa: E402
import machine  # noqa: E402
from backends import Resource, plain, same  # noqa: E402
from faults import Inject  # noqa: E402
from machine import Failure  # noqa: E402


class Sched:
    def __init__(self, fns, order, switches, opcodes=False):
        self.fns, self.opcodes = fns, opcodes
        self.switches = {e: t for e, t in switches}
        self.n = len(fns)
        self.order = order
        self.sems = [_real_lock() for _ in fns]
        for s in self.sems:
            s.acquire()
        self.done_sem = _real_lock()
        self.done_sem.acquire()
        self.finished = [False] * self.n
        self.blocked = [None] * self.n
        self.idents = {}
        self.events = 0
        # The events of each line, recorded if no switch is planned.
        self.where = None if self.switches else {}
        self.aborted = False
        self.deadlock = None
        self.errors = [None] * self.n
        self.taken = 0

    def managed(self, ident):
        return ident in self.idents

    def run(self, timeout=20):
        global CURRENT
        CURRENT = self
        threads = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(self.n)]
        try:
            started = []
            for i, t in enumerate(threads):
                t.start()
                started.append(i)
            self.sems[self.order[0]].release()
            ok = self.done_sem.acquire(timeout=timeout)
            if not ok:
                self.abort()
                raise TimeoutError("scheduler stuck")
            for t in threads:
                t.join(5)
        finally:
            CURRENT = None
            if self.aborted:
                for lock in list(LOCKS):
                    lock.reset()

    def _main(self, i):
        self.sems[i].acquire()
        me = _thread.get_ident()
        self.idents[me] = i
        try:
            if self.aborted:
                return
            sys.settrace(self._trace)
            try:
                self.fns[i](self)
            finally:
                sys.settrace(None)
        except Abort:
            return
        except BaseException as e:  # noqa: BLE001
            self.errors[i] = e
        finally:
            self.finished[i] = True
            if not self.aborted:
                for lock in LOCKS:
                    if lock.owner == me and self.errors[i] is None:
                        self.errors[i] = Failure("leak", "a thread ended while holding a lock")
                nxt = self._next(i)
                if nxt is not None:
                    self.sems[nxt].release()
                elif all(self.finished):
                    self.done_sem.release()
                else:
                    self._dead()

    def _dead(self):
        self.deadlock = [i for i in range(self.n) if not self.finished[i]]
        self.abort()

    def abort(self):
        if self.aborted:
            return
        self.aborted = True
        for s in self.sems:
            try:
                s.release()
            except RuntimeError:
                pass
        try:
            self.done_sem.release()
        except RuntimeError:
            pass

    def _runnable(self, i):
        return not self.finished[i] and (self.blocked[i] is None or self.blocked[i].owner is None)

    def _next(self, me):
        for i in self.order:
            if i != me and self._runnable(i):
                return i
        return None

    def _handoff(self, me, to):
        self.sems[to].release()
        self.sems[me].acquire()
        if self.aborted:
            raise Abort

    def block(self, lock):
        if self.aborted:
            raise Abort
        me = self.idents[_thread.get_ident()]
        self.blocked[me] = lock
        nxt = self._next(me)
        if nxt is None:
            self._dead()
            raise Abort
        self._handoff(me, nxt)
        self.blocked[me] = None

    def step(self):
        if _thread.get_ident() in self.idents:
            self.point()

    def point(self):
        if self.aborted:
            raise Abort
        self.events += 1
        if self.events > 400000:
            self._dead()
            raise Abort
        to = self.switches.get(self.events)
        if to is not None:
            me = self.idents[_thread.get_ident()]
            to = (me + to) % self.n
            if to != me and self._runnable(to):
                self.taken += 1
                self._handoff(me, to)

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(_REPO):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            if self.where is not None:
                self.where.setdefault((frame.f_code, frame.f_lineno), []).append(self.events + 1)
            self.point()
        return self._local


def held_by_me():
    me = _thread.get_ident()
    return [lock for lock in LOCKS if lock.owner == me]


# --------------------------------------------------------------- operations
EXTRA = {
    "eq_obj": lambda w, node, i: node == w[i],
    "update_obj": lambda w, node, i: node.update(w[i]),
    "set_obj": lambda w, node, k, i: node.__setitem__(k, w[i]),
    "extend_obj": lambda w, node, i: node.extend(w[i]),
    "append_obj": lambda w, node, i: node.append(w[i]),
    "reset_obj": lambda w, node, i: node.reset(w[i]),
    "lt_obj": lambda w, node, i: node < w[i],
    "rename": lambda w, node: _rename(node),
    "flush": lambda w, node: type(node)._flush_buffer(force=True),
    "capacity": lambda w, node, n: type(node).set_buffer_capacity(n),
    "size": lambda w, node: type(node).get_current_buffer_size(),
}


def _rename(node):
    base, _, n = node.filename.partition(".moved")
    node.filename = f"{base}.moved{int(n or 0) + 1}"


def model_apply(model, path, name, args):
    """Apply one operation to a model in place, returns its outcome."""
    t = model
    for p in path:
        t = t[p]
    f = machine.lookup(t, name)[1]
    try:
        return ["ok", plain(f(t, *copy.deepcopy(args)))]
    except Exception as e:  # noqa: BLE001
        return ["exc", type(e).__name__]


LIVE = {"getitem", "get", "setdefault", "pop", "iter", "reversed", "iter_step", "reversed_step"}


def flat(x):
    return {} if isinstance(x, dict) else [] if isinstance(x, list) else x


def shape(name, args, x):
    """A result whose nested collections are represented by their kind."""
    if isinstance(x, list) and (name[:4] in ("iter", "reve") or name == "getitem" and args and isinstance(args[0], list)):
        return [flat(y) for y in x]
    return flat(x)


def outcome_ok(name, args, got, want):
    if got[0] != want[0]:
        return False
    if got[0] == "exc":
        return got[1] == want[1]
    a, b = got[1], want[1]
    if name in LIVE:
        # Nested collections in a result show what they hold later on.
        a, b = shape(name, args, a), shape(name, args, b)
    if name in ("iter", "keys", "values", "items") and isinstance(a, list):
        a, b = machine.canon(a), machine.canon(b)
    return same(a, b)


def linearizable(init, recs, final):
    """recs: per thread lists of (path, name, args, outcome, start, end)."""
    n = len(recs)
    seen = set()

    def go(pos, model):
        if all(pos[i] == len(recs[i]) for i in range(n)):
            return final is None or same(model, final)
        key = (pos, json.dumps(model, sort_keys=True))
        if key in seen:
            return False
        seen.add(key)
        for i in range(n):
            if pos[i] == len(recs[i]):
                continue
            path, name, args, out, start, end = recs[i][pos[i]]
            # Operations that ended before this one started must come first.
            if any(
                pos[j] < len(recs[j]) and j != i and recs[j][pos[j]][5] < start for j in range(n)
            ):
                continue
            m = copy.deepcopy(model)
            if name == "popitem" and out[0] == "ok":
                try:
                    t = m
                    for p in path:
                        t = t[p]
                except LookupError:
                    continue
                if not isinstance(t, dict):
                    continue
                k, v = out[1]
                if k not in t or not same(flat(t[k]), flat(v)):
                    continue
                del t[k]
            else:
                want = model_apply(m, path, name, args)
                if not outcome_ok(name, args, out, want):
                    continue
            if go(pos[:i] + (pos[i] + 1,) + pos[i + 1:], m):
                return True
        return False

    return go((0,) * n, copy.deepcopy(init))


def run_threads(case, scratch, stats=None):
    """Run one schedule of a threaded case; raises Failure."""
    d, lst = backends.pair(case["cls"])
    cls = d if case["isdict"] else lst
    cls.enable_multithreading()
    files = [Resource("json", scratch) for _ in case["files"]]
    for r, c in zip(files, case["files"]):
        if c is not None:
            r.write(c)
    kinds = [isinstance(c, dict) if c is not None else case["isdict"] for c in case["files"]]
    objs = []
    for n, f in enumerate(case["objs"]):
        files[f].wc = bool(case.get("wc")) and n % 2 == 1
        objs.append(files[f].open(d if kinds[f] else lst))
    buffered = [c for c in {type(o) for o in objs}] if case.get("buffered") else []
    caps = {}
    ctxs = []
    for c in buffered:
        caps[c] = c.get_buffer_capacity()
        ctx = c.buffer_backend(*([case["cap"]] if case.get("cap") is not None else []))
        ctx.__enter__()
        ctxs.append(ctx)
    handles = {}

    def node_of(o, path):
        if path:
            return handles[(o, tuple(path))]
        return objs[o]

    for ops in case["threads"]:
        for o, path, name, args in ops:
            if path:
                x = objs[o]
                for p in path:
                    x = x[p]
                handles[(o, tuple(path))] = x
    recs = [[] for _ in case["threads"]]
    clock = itertools.count()
    leaks = []

    def body(i):
        def f(s):
            for o, path, name, args in case["threads"][i]:
                node = node_of(o, path)
                if case.get("warm"):
                    pass
                start = next(clock)
                try:
                    if name in EXTRA:
                        out = ["ok", EXTRA[name](objs, node, *args)]
                    else:
                        tgt = {} if hasattr(node, "keys") else []
                        fn = machine.lookup(tgt, name)[0]
                        out = ["ok", fn(node, *copy.deepcopy(args))]
                except Exception as e:  # noqa: BLE001
                    out = ["exc", type(e).__name__, str(e)[:200]]
                end = next(clock)
                recs[i].append((o, path, name, args, out, start, end))
                if held_by_me():
                    leaks.append(f"{name}{tuple(args)!r} returned holding a lock")
        return f

    s = Sched([body(i) for i in range(len(case["threads"]))], case["order"], case["switch"], case.get("opcodes", False))
    machine.STEP[0] = s.step
    try:
        s.run()
        if stats is not None:
            stats["events"] = s.events
            stats["where"] = s.where
            stats["taken"] = s.taken
        if s.deadlock is not None:
            raise Failure("deadlock", f"threads {s.deadlock} wait for each other: {case['threads']!r}")
        for i, e in enumerate(s.errors):
            if e is not None:
                raise Failure("error", f"thread {i} failed: {e!r}")
        if leaks and "leak" in case["checks"]:
            raise Failure("leak", leaks[0])
        if "size" in case["checks"]:
            for c in buffered:
                n = c.get_current_buffer_size()
                if n < 0 or n > c.get_buffer_capacity():
                    raise Failure("size", f"buffer size {n} (capacity {c.get_buffer_capacity()}) after the operations")
        for rec in recs:
            for r in rec:
                if r[4][0] == "ok":
                    r[4][1] = plain(r[4][1])
        mid = [o() for o in objs] if "lin" in case["checks"] else None
        err = None
        while ctxs:
            try:
                ctxs.pop().__exit__(None, None, None)
            except Exception as e:  # noqa: BLE001
                err = err or e
        if err is not None:
            raise Failure("error", f"leaving the buffered context raised {err!r}")
        if "size" in case["checks"]:
            for c in buffered:
                if c.get_current_buffer_size() != 0:
                    raise Failure("size", f"buffer size is {c.get_current_buffer_size()} after the context exited")
        if "lin" in case["checks"]:
            check_lin(case, objs, files, recs, mid)
        if "free" in case["checks"]:
            # All collections are usable by another thread afterwards.
            def after(s):
                for o in objs:
                    o()
                    if hasattr(o, "keys"):
                        o["post"] = 1
                    else:
                        o.append("post")
            s2 = Sched([after], [0], [])
            s2.run()
            if s2.deadlock is not None:
                raise Failure("leak", "a collection stays locked after the operations")
            if s2.errors[0] is not None:
                raise Failure("error", f"a collection is unusable afterwards: {s2.errors[0]!r}")
    finally:
        machine.STEP[0] = None
        while ctxs:
            try:
                ctxs.pop().__exit__(None, None, None)
            except Exception:  # noqa: BLE001
                pass
        for c, cap in caps.items():
            c._BUFFER_CAPACITY = cap
        for lock in list(LOCKS):
            lock.reset()
    return s


def check_lin(case, objs, files, recs, mid):
    for f, init in enumerate(case["files"]):
        mine = []
        for r in recs:
            mine.append([(p, n, a, out, st, en) for o, p, n, a, out, st, en in r if case["objs"][o] == f and n not in EXTRA])
        if not any(mine):
            continue
        init = init if init is not None else ({} if case["isdict"] else [])
        final = files[f].read()
        if final is backends.ABSENT:
            final = init
        for o, m in enumerate(mid):
            if case["objs"][o] == f and not same(m, final) and not case.get("buffered"):
                raise Failure("result", f"object {o} shows {m!r}, the file holds {final!r}")
        if not linearizable(init, mine, final):
            raise Failure(
                "linearizability",
                f"{case['cls']}: no order of {[[(p, n, a, out) for p, n, a, out, _, _ in m] for m in mine]!r} from {init!r} gives these results and {final!r}"[:1200],
            )


# ---------------------------------------------------------------- generation
D0 = {"a": 1, "b": [1], "n": {"x": 1}, "l": [1, 2]}
L0 = [1, [5], 2, {"x": 1}]
DMUT = [
    ("setitem", ["p", 1]), ("setitem", ["a", 2]), ("setitem", ["q", {"z": [1]}]), ("delitem", ["a"]), ("pop", ["a"]),
    ("pop", ["b", 7]), ("popitem", []), ("clear", []), ("update", [{"u": 1, "a": 9}]), ("update_kw", [{"v": 2}]),
    ("setdefault", ["a", 5]), ("setdefault", ["w", [3]]), ("reset", [{"r": 1}]), ("update", [[["y", 1]]]),
]
SAFE_D = [
    ("setitem", ["p", 1]), ("setitem", ["a", 2]), ("delitem", ["a"]), ("pop", ["b"]), ("update", [{"u": 1}]),
    ("setdefault", ["w", 3]), ("update_kw", [{"v": 2}]),
]
LMUT = [
    ("append", [7]), ("append", [{"k": 1}]), ("insert", [0, 8]), ("extend", [[3, 4]]), ("iadd", [[6]]), ("pop", []),
    ("pop", [0]), ("remove", [1]), ("reverse", []), ("clear", []), ("reset", [[9]]), ("setitem", [0, 5]),
    ("delitem", [0]), ("setitem", [["slice", 0, 2, None], [4, 4]]), ("delitem", [["slice", 0, 1, None]]),
    ("extend_iter", [[1]]),
]
SAFE_L = [("append", [7]), ("extend", [[3, 4]]), ("iadd", [[6]]), ("setitem", [0, 5])]
DREAD = [
    ("getitem", ["a"]), ("getitem", ["p"]), ("get", ["a", 3]), ("get", ["p"]), ("len", []), ("iter", []), ("contains", ["p"]),
    ("keys", []), ("values", []), ("items", []), ("call", []), ("eq", [{"a": 1}]), ("repr", []), ("bool", []), ("eq", [D0]),
    ("str", []), ("ne", [D0]), ("iter_step", []), ("iter_step", []),
]
LREAD = [
    ("getitem", [0]), ("getitem", [-1]), ("len", []), ("iter", []), ("reversed", []), ("contains", [7]), ("index", [2]), ("count", [1]),
    ("call", []), ("eq", [L0]), ("lt", [[1, [5], 3]]), ("ge", [[1, [5], 1]]), ("repr", []), ("bool", []), ("getitem", [["slice", 0, 2, None]]),
    ("str", []), ("gt", [[2]]), ("le", [[0]]), ("iter_step", []), ("reversed_step", []), ("reversed_step", []),
]
NMUT = {
    "n": [("setitem", ["y", 2]), ("setitem", ["x", 5]), ("delitem", ["x"]), ("pop", ["x"]), ("clear", []), ("reset", [{"r": 2}]), ("update", [{"u": 3}]), ("setdefault", ["w", 1]), ("popitem", [])],
    "l": [("append", [7]), ("insert", [0, 8]), ("pop", []), ("clear", []), ("reset", [[4]]), ("extend", [[5, 6]]), ("reverse", []), ("remove", [1]), ("setitem", [0, 3]), ("iadd", [[2]]), ("delitem", [0])],
}
NREAD = {
    "n": [("getitem", ["x"]), ("len", []), ("call", []), ("items", []), ("values", []), ("iter", []), ("eq", [{"x": 1}]), ("contains", ["y"]), ("get", ["y", 0]), ("iter_step", [])],
    "l": [("getitem", [0]), ("len", []), ("call", []), ("iter", []), ("index", [2]), ("count", [1]), ("reversed", []), ("contains", [7]), ("eq", [[1, 2]]), ("iter_step", []), ("reversed_step", [])],
}


def jclasses(buffered=None):
    out = []
    for _, d, _ in backends.all_pairs(True):
        if buffered is None or ("Buffered" in d.__name__) == buffered:
            out.append(d.__name__)
    return out


def one_op(rng, isdict, nested, reads, o):
    """An operation [object, path, name, args]."""
    if nested:
        k = rng.choice(["n", "l"])
        path = [k] if isdict else [3] if k == "n" else [1]
        name, args = rng.choice((NREAD if reads else NMUT)[k])
        if not isdict and k == "l":
            name, args = rng.choice([("append", [7]), ("clear", []), ("extend", [[1, 2]]), ("insert", [0, 1]), ("reset", [[2]])]) if not reads else rng.choice([("len", []), ("call", []), ("iter", [])])
        return [o, path, name, args]
    if isdict:
        name, args = rng.choice(DREAD if reads else DMUT)
    else:
        name, args = rng.choice(LREAD if reads else LMUT)
    return [o, [], name, args]


def scenario(prop, rng):
    isdict = rng.random() < 0.55
    nthreads = rng.choice([2, 2, 2, 3])
    case = {"kind": "sched", "isdict": isdict, "order": list(range(nthreads)), "switch": []}
    init = D0 if isdict else L0
    absent = rng.random() < 0.1
    nested = rng.random() < 0.35
    if prop == "C10":
        return scenario_c10(rng)
    if prop == "C13":
        case["cls"] = rng.choice(jclasses(True))
        case["buffered"] = True
        case["cap"] = rng.choice([None, None, 0, 1, 2, 40, 100])
        case["checks"] = ["lin", "size"]
    elif prop == "C14":
        case["cls"] = rng.choice(jclasses())
        if "Buffered" in case["cls"] and rng.random() < 0.6:
            case["buffered"] = True
            case["cap"] = rng.choice([None, None, 0, 1, 40])
        case["checks"] = ["lin"]
    else:
        case["cls"] = rng.choice(jclasses())
        case["checks"] = ["lin"]
    nfiles = rng.choice([1, 1, 2])
    if prop != "C13" and not (nfiles == 2 and rng.random() < 0.4 and "Buffered" not in case["cls"]):
        nfiles = 1
    if rng.random() < 0.3:
        case["wc"] = True
    case["files"] = [None if absent and not nested else init for _ in range(nfiles)]
    case["objs"] = [i % nfiles for i in range(rng.choice([nfiles, nfiles + 1]))]
    threads = []
    for i in range(nthreads):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            o = rng.randrange(len(case["objs"]))
            reads = prop == "C14" and (i == 0 or rng.random() < 0.3)
            if nested:
                if rng.random() < 0.7:
                    ops.append(one_op(rng, isdict, True, reads, o))
                else:
                    n, a = rng.choice((SAFE_D if isdict else SAFE_L) if not reads else (DREAD if isdict else LREAD))
                    ops.append([o, [], n, a])
            else:
                ops.append(one_op(rng, isdict, False, reads, o))
        threads.append(ops)
    case["threads"] = copy.deepcopy(threads)
    rng.shuffle(case["order"])
    return case


def scenario_c10(rng):
    """Operations that involve two collections, renames and buffering."""
    isdict = rng.random() < 0.6
    cls = rng.choice(jclasses())
    nfiles = 2
    case = {
        "kind": "sched", "isdict": isdict, "cls": cls, "order": [0, 1], "switch": [],
        "files": [D0, D0] if isdict else [L0, L0], "objs": [0, 1, 0, 1], "checks": ["leak", "free"],
    }
    if "Buffered" in cls and rng.random() < 0.6:
        case["buffered"] = True
        case["cap"] = rng.choice([None, 0, 1, 40])
    two = ["eq_obj", "update_obj", "set_obj", "reset_obj"] if isdict else ["eq_obj", "extend_obj", "append_obj", "lt_obj", "reset_obj"]
    threads = []
    for i in range(rng.choice([2, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2])):
            o = rng.randrange(4)
            x = rng.random()
            if x < 0.5:
                name = rng.choice(two)
                other = rng.choice([k for k in range(4)])
                args = [other] if name != "set_obj" else ["z", other]
                ops.append([o, [], name, args])
            elif x < 0.6 and not case.get("buffered"):
                ops.append([2, [], "rename", []])
            elif x < 0.75 and case.get("buffered"):
                ops.append([o, [], *rng.choice([("flush", []), ("capacity", [0]), ("capacity", [1000]), ("size", [])])])
            else:
                ops.append(one_op(rng, isdict, False, rng.random() < 0.4, o))
        threads.append(ops)
    case["order"] = list(range(len(threads)))
    rng.shuffle(case["order"])
    case["threads"] = copy.deepcopy(threads)
    del nfiles
    return case


# ----------------------------------------------------------- faults (C10)
FAULTS = ["garbage", "open_read", "open_write", "replace", "dumps", "loads", "stat", "isdir"]


def run_fault(case, scratch):
    """An operation hit by a fault must not leave locks held."""
    d, lst = backends.pair(case["cls"])
    cls = d if case["isdict"] else lst
    cls.enable_multithreading()
    res, other = Resource("json", scratch), Resource("json", scratch)
    init = D0 if case["isdict"] else L0
    res.write(init)
    other.write(init)
    obj, obj2, far = res.open(cls), res.open(cls), other.open(cls)
    node = obj
    for p in case["path"]:
        node = node[p]
    ctx = None
    cap = cls.get_buffer_capacity() if hasattr(cls, "get_buffer_capacity") else None
    if case["mode"] == "cls":
        ctx = cls.buffer_backend(*([case["cap"]] if case.get("cap") is not None else []))
    elif case["mode"] == "obj":
        ctx = obj.buffered
    what = f"{case['name']}{tuple(case['args'])!r} on {type(node).__name__} at {case['path']} ({case['mode']}) with fault {case['fault']}/{case['nth']}"
    entered = False

    def op():
        tgt = {} if hasattr(node, "keys") else []
        if case["name"] in BADOPS:
            BADOPS[case["name"]](node)
        elif case["name"] == "exit":
            pass
        else:
            machine.lookup(tgt, case["name"])[0](node, *copy.deepcopy(case["args"]))

    raised = None
    try:
        if case["fault"] == "garbage" and case["nth"] == 1:
            with open(res.path, "wb") as f:
                f.write(b'{"a": [')
        elif case["fault"] == "isdir":
            os.unlink(res.path)
            os.mkdir(res.path)
        with Inject(case["fault"], case["nth"], scratch):
            try:
                if ctx is not None:
                    ctx.__enter__()
                    entered = True
                try:
                    op()
                except Exception as e:  # noqa: BLE001
                    raised = e
                if case["fault"] == "garbage" and case["nth"] == 2:
                    with open(res.path, "wb") as f:
                        f.write(b"}")
                if ctx is not None:
                    entered = False
                    ctx.__exit__(None, None, None)
            except Exception as e:  # noqa: BLE001
                raised = e
        if held_by_me():
            raise Failure("leak", f"{what}: lock still held after {raised!r}")
        if os.path.isdir(res.path):
            os.rmdir(res.path)
        res.write(init)

        def after(s):
            for o in (obj, obj2, far):
                if not same(o(), init):
                    raise Failure("state", f"shows {o()!r}")
                if case["isdict"]:
                    o["post"] = 1
                    del o["post"]
                else:
                    o.append("post")
                    o.pop()

        s = Sched([after], [0], [])
        s.run()
        if s.deadlock is not None:
            raise Failure("leak", f"{what}: another thread cannot use the collection after {raised!r}")
        if isinstance(s.errors[0], Failure):
            pass  # content is judged by other properties
        elif s.errors[0] is not None:
            raise Failure("error", f"{what}: another thread failed afterwards with {s.errors[0]!r}")
    finally:
        if entered:
            try:
                ctx.__exit__(None, None, None)
            except Exception:  # noqa: BLE001
                pass
        for lock in list(LOCKS):
            lock.reset()
        if cap is not None:
            cls._BUFFER_CAPACITY = cap
            for n in list(cls._buffer):
                del cls._buffer[n]
            cls._buffered_collections.clear()
            cls._CURRENT_BUFFER_SIZE = 0


BADOPS = {
    "bad_value": lambda o: o.__setitem__("k" if hasattr(o, "keys") else 0, object()),
    "bad_update": lambda o: o.update({"k": {1: 2}}) if hasattr(o, "keys") else o.extend([{1: 2}]),
    "bad_reset": lambda o: o.reset({"k": object()} if hasattr(o, "keys") else [object()]),
    "bad_type": lambda o: o.reset(5),
    "bad_setdefault": lambda o: o.setdefault("k", object()) if hasattr(o, "keys") else o.insert(0, object()),
    "bad_key": lambda o: o.__getitem__([]),
    "bad_iter": lambda o: (o.update if hasattr(o, "keys") else o.extend)(_raising()),
    "bad_append": lambda o: o.update(5) if hasattr(o, "keys") else o.append({1: 1}),
    "bad_iadd": lambda o: machine._iadd(o, 5) if not hasattr(o, "keys") else o.update([1]),
}


def _raising():
    yield ("a", 1)
    raise RuntimeError("from the iterable")


def fault_cases():
    for cls in jclasses():
        for isdict in (True, False):
            for path in ([], ["n"] if isdict else [3], ["l"] if isdict else [1]):
                t = D0 if isdict else L0
                for p in path:
                    t = t[p]
                isd = isinstance(t, dict)
                ops = (DMUT + DREAD) if isd else (LMUT + LREAD)
                ops = ops + [(b, []) for b in BADOPS] + [("exit", [])]
                for mode in [None] + (["obj", "cls"] if "Buffered" in cls else []):
                    for name, args in ops:
                        for fault in FAULTS:
                            for nth in (1, 2) if mode or fault != "isdir" else (1,):
                                base = {
                                    "kind": "sched", "fault": fault, "nth": nth, "cls": cls, "isdict": isdict, "path": path,
                                    "name": name, "args": args, "mode": mode,
                                }
                                yield base
                                if mode == "cls":
                                    yield {**base, "cap": 0}


def rename_cases():
    """Pointing one object to another file, sequentially."""
    for cls in jclasses():
        for isdict in (True, False):
            for nobj in (1, 2, 3):
                yield {"kind": "sched", "rename": True, "cls": cls, "isdict": isdict, "nobj": nobj}


def run_rename(case, scratch):
    d, lst = backends.pair(case["cls"])
    cls = d if case["isdict"] else lst
    cls.enable_multithreading()
    a, b = Resource("json", scratch), Resource("json", scratch)
    init = D0 if case["isdict"] else L0
    a.write(init)
    b.write(init)
    mover = a.open(cls)
    child = mover["l"] if case["isdict"] else mover[1]
    others = [a.open(cls) for _ in range(case["nobj"])]
    try:
        mover.filename = b.path

        def after(s):
            for r, o in [(a, x) for x in others] + [(b, mover), (a, others[0])]:
                before = r.read()
                n = len(before)
                if case["isdict"]:
                    o[f"post{n}"] = n
                    want = {**before, f"post{n}": n}
                else:
                    o.append(n)
                    want = before + [n]
                if not same(r.read(), want):
                    raise Failure("rename", f"after the change of filename a write gave {r.read()!r}, expected {want!r}")
            before = b.read()
            child.append("c")
            if same(b.read(), before):
                raise Failure("rename", "child of a renamed collection did not write to the new file")
            mover.filename = a.path
            mover()
            for o in others:
                o()

        s = Sched([after], [0], [])
        s.run()
        if s.deadlock is not None:
            raise Failure("rename", "collections are locked after a change of filename")
        if s.errors[0] is not None:
            raise Failure("rename", f"{case['cls']}: after a change of filename: {s.errors[0]!r}")
    except Failure:
        raise
    except Exception as e:  # noqa: BLE001
        raise Failure("rename", f"{case['cls']}: change of filename: {e!r}") from None
    finally:
        for lock in list(LOCKS):
            lock.reset()


RENAME_OPS = [([], "setitem", ["a", 2]), ([], "len", []), (["l"], "append", [3])]


def rename_sweep():
    """An operation on a collection that another thread points to new files."""
    for cls in ["JSONDict", "MemoryBufferedJSONDict", "BufferedJSONDict"]:
        for path, name, args in RENAME_OPS:
            for n in (1, 2):
                for e1 in range(1, 26):
                    for e2 in range(e1 + 1, e1 + 26 * n, 2 if cls != "JSONDict" else 1):
                        yield {
                            "kind": "sched", "isdict": True, "cls": cls, "order": [0, 1], "files": [D0, D0], "objs": [0, 1, 0],
                            "checks": ["leak", "free"], "threads": [[[0, path, name, args]], [[0, [], "rename", []]] * n],
                            "switch": [[e1, 1], [e2, 1]], "opcodes": False,
                        }


def run_case(case, scratch):
    if "fault" in case:
        return run_fault(case, scratch)
    if "rename" in case:
        return run_rename(case, scratch)
    return run_threads(case, scratch)


def schedules(rng, events, nthreads, count, where=None):
    """Switches at arbitrary instants, or at arbitrary lines of the code."""
    lines = list((where or {}).values())
    for _ in range(count):
        k = rng.choice([1, 1, 1, 2, 2, 3, 4])
        pts = set()
        for _ in range(k):
            if lines and rng.random() < 0.6:
                pts.add(rng.choice(rng.choice(lines)))
            else:
                pts.add(rng.randint(1, max(1, events)))
        pts = sorted(pts)
        yield [[p, rng.randrange(1, nthreads)] for p in pts]


def shrink(case, scratch, kind):
    best = None
    changed = True
    while changed:
        changed = False
        cands = []
        for i in range(len(case["switch"])):
            cands.append({**case, "switch": case["switch"][:i] + case["switch"][i + 1:]})
        for i, ops in enumerate(case["threads"]):
            for j in range(len(ops)):
                th = copy.deepcopy(case["threads"])
                del th[i][j]
                cands.append({**case, "threads": th})
        for c in cands:
            try:
                run_threads(c, scratch)
            except Failure as f:
                if f.kind == kind:
                    case, best, changed = c, f, True
                    break
            except TimeoutError:
                pass
    return case, best


def explore(prop, seed, worker, nworkers, deadline, clock, scratch, stats, fail):
    start = clock()
    if prop == "C10":
        seqs = list(rename_cases())
        faults = list(fault_cases())
        sweep = list(rename_sweep())
        random.Random(f"{prop}-{seed}").shuffle(faults)
        random.Random(f"{prop}-{seed}").shuffle(sweep)
        faults = [c for pair in itertools.zip_longest(faults, sweep) for c in pair if c]
        for n, case in enumerate(seqs + faults):
            if n % nworkers != worker:
                continue
            if clock() > start + (deadline - start) * 0.6:
                stats["cut"] = True
                break
            stats["evaluations"] += 1
            stats["distinct"].case(case)
            try:
                run_case(case, scratch)
            except Failure as f:
                if fail(case, f):
                    return
    rng = random.Random(f"{prop}-{seed}-{worker}")
    while clock() < deadline:
        case = scenario(prop, rng)
        info = {}
        case["opcodes"] = rng.random() < 0.3
        tries = [[]] + [None] * rng.choice([6, 10, 16])
        events, where = 0, None
        for t in tries:
            if t is None:
                case = {**case, "switch": next(schedules(rng, events, len(case["threads"]), 1, where))}
            stats["evaluations"] += 1
            try:
                run_threads(case, scratch, info)
            except Failure as f:
                c, best = shrink(case, scratch, f.kind)
                if fail(c, best or f):
                    return
                break
            if t is not None:
                events, where = info["events"], info["where"]
            if info.get("taken") or t is not None:
                stats["distinct"].case(case)
            if clock() > deadline:
                break
